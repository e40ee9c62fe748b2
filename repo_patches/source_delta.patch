From 5d1bf2a801867c7cac33af9bfb7403b839851863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 01/52] fix: RINEX 2 observation files with a blank satellite
 system are GPS files

---
 src/georinex/common.py | 3 ++-
 src/georinex/obs2.py   | 3 ++-
 src/georinex/rio.py    | 3 +++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 97bc0af..35f7e71 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -48,7 +48,8 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
     # Current implementation is quite inconsistent in terms what is put into
     # header.
     try:
-        file_type = header["RINEX VERSION / TYPE"][40]
+        # a blank system means GPS
+        file_type = header["RINEX VERSION / TYPE"][40].strip() or "G"
     except KeyError:
         file_type = header["systems"]
 
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 292db34..92986f0 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -391,7 +391,8 @@ def obsheader2(
             hdr[hd] += " " + c
     # %% useful values
     try:
-        hdr["systems"] = hdr["RINEX VERSION / TYPE"][40]
+        # RINEX 2: a blank system means GPS
+        hdr["systems"] = hdr["RINEX VERSION / TYPE"][40].strip() or "G"
     except KeyError:
         pass
 
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index cae2bde..3f5b8a1 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -180,6 +180,9 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         else:
             system = line[40]
 
+        if int(version) < 3 and system == " ":
+            system = "G"  # RINEX 2: a blank system means GPS
+
         if line[20] in ("O", "C"):
             rinex_type = "obs"
         elif line[20] == "N" or "NAV" in line[20:40]:
-- 
2.43.0


From a42686511bb52d52216ceab35171103604a526eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 02/52] fix: read RINEX 2 satellites numbered above 36 (SBAS,
 BeiDou)

---
 src/georinex/obs2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 92986f0..c8c1b27 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -104,10 +104,12 @@ def rinexsystem2(
     Nsvsys may need updating as GNSS systems grow.
     Let us know if you needed to change them.
 
-    Beidou is 35 max
+    Beidou is 63 max
     Galileo is 36 max
+    SBAS is 58 max (PRN - 100)
+    any two digit number may occur
     """
-    Nsvsys = 36
+    Nsvsys = 99
 
     hdr = obsheader2(fn, useindicators, meas)
 
-- 
2.43.0


From 4eac414980283de164f0de9b29d16cf413a8efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 03/52] fix: RINEX 2 decimation gave wrong epochs with strict
 allocation

---
 src/georinex/obs2.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index c8c1b27..3137950 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -171,13 +171,8 @@ def rinexsystem2(
             if verbose:
                 print(time_epoch, end="\r")
 
-            if fast:
-                try:
-                    times[j] = time_epoch
-                except IndexError as e:
-                    raise IndexError(
-                        f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
-                    )
+            # also needed without "fast", as some epochs may be skipped
+            times[j] = time_epoch
             # %% Does anyone need this?
             #            try:
             #                toffset = ln[68:80]
-- 
2.43.0


From 1ed47c536106afdaf45e44b4ca6f745ca264ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 04/52] fix: RINEX 2 speculative preallocation may be too small
 for few satellites or short lines

---
 src/georinex/obs2.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 3137950..52e8e81 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -171,6 +171,12 @@ def rinexsystem2(
             if verbose:
                 print(time_epoch, end="\r")
 
+            if j == times.size:  # speculative preallocation was too small
+                times = np.append(times, np.empty(j + 1, dtype=times.dtype))
+                more = np.empty((Npages, j + 1, Nsvsys))
+                more.fill(np.nan)
+                data = np.concatenate((data, more), axis=1)
+
             # also needed without "fast", as some epochs may be skipped
             times[j] = time_epoch
             # %% Does anyone need this?
-- 
2.43.0


From 5f34420c2b6b9f7835d90fe17c6c2afb6a9fb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 05/52] fix: fractional seconds were truncated to the
 microsecond below

---
 src/georinex/nav2.py | 2 +-
 src/georinex/obs2.py | 4 ++--
 src/georinex/obs3.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index de985d8..ac4d34b 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -246,7 +246,7 @@ def _timenav(ln: str) -> datetime:
         hour=int(ln[12:14]),
         minute=int(ln[15:17]),
         second=int(float(ln[17:20])),
-        microsecond=int(float(ln[17:22]) % 1 * 1000000),
+        microsecond=int(round(float(ln[17:22]) % 1 * 1000000, 3)),
     )
 
 
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 52e8e81..8ec4ed4 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -555,7 +555,7 @@ def _timehdr(ln: str) -> datetime:
         second = 0
 
     try:
-        usec = int(float(ln[30:43]) % 1 * 1000000)
+        usec = int(round(float(ln[30:43]) % 1 * 1000000, 3))
     except ValueError:
         usec = 0
 
@@ -581,7 +581,7 @@ def _timeobs(ln: str) -> datetime:
         year += 1900
 
     try:
-        usec = int(float(ln[16:26]) % 1 * 1000000)
+        usec = int(round(float(ln[16:26]) % 1 * 1000000, 3))
     except ValueError:
         usec = 0
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index a68dc21..3485735 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -179,7 +179,7 @@ def _timeobs(ln: str) -> datetime:
         hour=int(ln[13:15]),
         minute=int(ln[16:18]),
         second=int(ln[19:21]),
-        microsecond=int(float(ln[19:29]) % 1 * 1000000),
+        microsecond=int(round(float(ln[19:29]) % 1 * 1000000, 3)),
     )
 
 
@@ -337,7 +337,7 @@ def obsheader3(
             hour=int(t0s[18:24]),
             minute=int(t0s[24:30]),
             second=int(float(t0s[30:36])),
-            microsecond=int(float(t0s[30:43]) % 1 * 1000000),
+            microsecond=int(round(float(t0s[30:43]) % 1 * 1000000, 3)),
         )
     except (KeyError, ValueError):
         pass
-- 
2.43.0


From a1049c3b03675d23aeffbb95880e0ac878530a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 06/52] fix: RINEX 3 observations after an event record or
 foreign line were lost

---
 src/georinex/obs3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 3485735..45a2acc 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -81,8 +81,8 @@ def rinexobs3(
         # %% process OBS file
         time_offset = []
         for ln in f:
-            if not ln.startswith(">"):  # end of file
-                break
+            if not ln.startswith(">"):  # event record content, blank or foreign line
+                continue
 
             try:
                 time = _timeobs(ln)
@@ -172,6 +172,9 @@ def _timeobs(ln: str) -> datetime:
     if not ln.startswith("> "):  # pg. A13
         raise ValueError('RINEX 3 line beginning "> " is not present')
 
+    if ln[31:32] in {"2", "3", "4", "5"}:
+        raise ValueError(f"epoch flag {ln[31]}: event record, not observations")
+
     return datetime(
         int(ln[2:6]),
         int(ln[7:9]),
-- 
2.43.0


From 11e52ce018924d50c01fb2f5e0f86c1890edf026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 07/52] fix: RINEX 3 epochs of 100 or more satellites were cut

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 45a2acc..5ccd325 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -98,7 +98,7 @@ def rinexobs3(
             sv = []
             raw = ""
             # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[33:35])):
+            for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
                 raw += ln[3:]
-- 
2.43.0


From d6dbf39b2e02a257d6dbf555ab7fd061abfdc72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 08/52] fix: RINEX 3 navigation fields missing from a
 satellite's first record were lost from all

---
 src/georinex/nav3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index aa936f8..aba6bff 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -95,7 +95,9 @@ def rinexnav3(
             duplicate = tu.size != t[svi][check].size
 
             full_fields = fields[sv[0]]
-            compact_fields = _sparefields(full_fields, sys=sv[0], N=_num_fields(raws[svi[0]]))
+            compact_fields = _sparefields(
+                full_fields, sys=sv[0], N=max(_num_fields(raws[i]) for i in svi)
+            )
             compact_index = [i for i, c in enumerate(full_fields) if c in compact_fields]
 
             darr = np.empty((svi.size, len(full_fields)))
-- 
2.43.0


From 49170dc31ffd1db2eb6c4b69810d98642a89036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 09/52] fix: SP3 values absent from the file were
 uninitialized, or placed under another satellite

---
 src/georinex/sp3.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 6408077..d57c7f8 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -63,10 +63,10 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecefs = []
         clocks = []
         vels = []
-        ecef = np.empty((Nsv, 3))
-        clock = np.empty((Nsv, 2))
-        vel = np.empty((Nsv, 3))
-        i = 0
+        # may not always have every satellite, or velocity
+        ecef = np.full((Nsv, 3), np.nan)
+        clock = np.full((Nsv, 2), np.nan)
+        vel = np.full((Nsv, 3), np.nan)
 
         times = [sp3dt(ln)]
 
@@ -77,22 +77,19 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 clocks.append(clock)
                 vels.append(vel)
 
-                ecef = np.empty((Nsv, 3))
-                clock = np.empty((Nsv, 2))  # clock and clock rate-of-change
-
-                vel = np.empty((Nsv, 3))
-                vel.fill(np.nan)  # may not always have velocity
-
-                i = 0
+                ecef = np.full((Nsv, 3), np.nan)
+                clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
+                vel = np.full((Nsv, 3), np.nan)
                 continue
 
             if ln[0] == "P":
+                i = svs.index(ln[1:4].replace(" ", ""))
                 ecef[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                 clock[i, 0] = float(ln[46:60])
-                i += 1
             elif ln[0] == "V":
-                vel[i - 1, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
-                clock[i - 1, 1] = float(ln[46:60])
+                i = svs.index(ln[1:4].replace(" ", ""))
+                vel[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
+                clock[i, 1] = float(ln[46:60])
             elif ln.startswith(("EP", "EV")):
                 # let us know if you want these data types
                 pass
-- 
2.43.0


From 85a504c1bf4c146b50383ad6c1a928c375108bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 10/52] fix: RINEX 2 strict allocation cut epochs to the
 millisecond

---
 src/georinex/obs2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 8ec4ed4..2dda6d0 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -346,9 +346,9 @@ def _num_times(
         """
         t = obstime2(fn, verbose=verbose)  # < 10 ms for 24 hour 15 second cadence
         if tlim is not None:
-            times = t[(tlim[0] <= t) & (t <= tlim[1])]
-        else:
-            times = t
+            t = t[(tlim[0] <= t) & (t <= tlim[1])]
+        # datetime to keep microseconds
+        times = np.empty(t.size, dtype=datetime)
 
     return times
 
-- 
2.43.0


From ee9f38ef831ebc12e5df9cf7fccc824c7401a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 11/52] fix: read non-ASCII header characters in compressed
 files as in plain files

---
 src/georinex/rio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 3f5b8a1..907e7a6 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -50,7 +50,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         suffix = fn.suffix.lower()
 
         if suffix == ".gz" or magic.startswith(b"\x1f\x8b"):
-            with gzip.open(fn, "rt") as f:
+            with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -66,7 +66,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
             """
             plain bzip2 files, NOT tar.bz2, which requires f.seek(512)
             """
-            with bz2.open(fn, "rt") as f:
+            with bz2.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -90,7 +90,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 raise ImportError("ncompress unlzw not available")
 
             with fn.open("rb") as zu:
-                with io.StringIO(unlzw(zu.read()).decode("ascii")) as f:
+                with io.StringIO(unlzw(zu.read()).decode("ascii", errors="ignore")) as f:
                     _, is_crinex = rinex_version(first_nonblank_line(f))
                     f.seek(0)
 
-- 
2.43.0


From 27ec81a8c493eecc0f78cd6922f55619123cd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 12/52] fix: zip archives with several files or a directory
 could not be read

---
 src/georinex/rio.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 907e7a6..736bc0c 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -78,13 +78,16 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 yield f
         elif suffix == ".zip" or magic.startswith(b"\x50\x4b"):
             with zipfile.ZipFile(fn, "r") as z:
-                flist = z.namelist()
-                for rinexfn in flist:
-                    with z.open(rinexfn, "r") as bf:
-                        f = io.StringIO(
-                            io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
-                        )
-                        yield f
+                flist = [n for n in z.namelist() if not n.endswith("/")]
+                if not flist:
+                    raise ValueError(f"no file in {fn}")
+
+                # only the first file is used
+                with z.open(flist[0], "r") as bf:
+                    f = io.StringIO(
+                        io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
+                    )
+                    yield f
         elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
             if unlzw is None:
                 raise ImportError("ncompress unlzw not available")
-- 
2.43.0


From 876abd9b377c5f38b536c19def92b4c0b5abfb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 13/52] fix: read Hatanaka files inside zip

---
 src/georinex/rio.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 736bc0c..fdecd2f 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -87,6 +87,14 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                     f = io.StringIO(
                         io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
                     )
+                    _, is_crinex = rinex_version(first_nonblank_line(f))
+                    f.seek(0)
+
+                    if is_crinex and not header:
+                        """
+                        zip compressed CRINEX
+                        """
+                        f = io.StringIO(crx2rnx(f.read()))
                     yield f
         elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
             if unlzw is None:
-- 
2.43.0


From ed9204f8e5ddfed831ee5062509536551da0fcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 14/52] fix: in-memory streams and decompressed files have no
 name

---
 src/georinex/obs2.py | 2 +-
 src/georinex/rio.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 2dda6d0..0c5566a 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -414,7 +414,7 @@ def obsheader2(
         hdr["fields"] = hdr["# / TYPES OF OBSERV"]
         if hdr["Nobs"] != len(hdr["fields"]):
             logging.error(
-                f"{f.name} number of observations declared in header does not match fields"
+                f"{getattr(f, 'name', f)} number of observations declared in header does not match fields"
             )
             hdr["Nobs"] = len(hdr["fields"])
 
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index fdecd2f..abb4229 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -144,7 +144,7 @@ def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
             break
 
     if _i is None or _i == max_lines - 1 or not line:
-        raise ValueError(f"could not find first valid header line in {f.name}")
+        raise ValueError(f"could not find first valid header line in {getattr(f, 'name', f)}")
 
     return line
 
-- 
2.43.0


From 650397b19afc607440e7708ce950be5eb5f2eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 15/52] fix: load NetCDF files that hold both OBS and NAV

---
 src/georinex/rio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index abb4229..eb08c6b 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -156,14 +156,16 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         fn = Path(f).expanduser()
 
         if fn.suffix == ".nc":
-            attrs: dict[T.Hashable, T.Any] = {"rinextype": []}
+            attrs: dict[T.Hashable, T.Any] = {}
+            rtypes = []
             for g in ("OBS", "NAV"):
                 try:
                     dat = xarray.open_dataset(fn, group=g)
-                    attrs["rinextype"].append(g.lower())
+                    rtypes.append(g.lower())
                 except OSError:
                     continue
                 attrs.update(dat.attrs)
+            attrs["rinextype"] = rtypes
             return attrs
 
         with opener(fn, header=True) as f:
-- 
2.43.0


From 86f9a876fce588b788913f37dc4598e3b2263811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 16/52] fix: one unreadable file stopped batch conversion

---
 src/georinex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 60f079a..e868234 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -133,7 +133,7 @@ def batch_convert(
                 verbose=verbose,
                 fast=fast,
             )
-        except ValueError as e:
+        except Exception as e:
             logging.error(f"{fn.name}: {e}")
 
 
-- 
2.43.0


From 56d8c649545fcef4ca87ed3fe9c74c929390e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 17/52] fix: RINEX 2 observation files with repeated
 approximate position could not be read

---
 src/georinex/obs2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 0c5566a..fd13800 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -404,8 +404,10 @@ def obsheader2(
     hdr["Nl_sv"] = ceil(hdr["Nobs"] / 5)
     # %% list with receiver location in x,y,z cartesian ECEF (OPTIONAL)
     try:
-        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()]
-        if ecef2geodetic is not None:
+        # some RINEX files have bad headers with multiple APPROX POSITION XYZ.
+        # we choose to use the first such header.
+        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()][:3]
+        if ecef2geodetic is not None and len(hdr["position"]) == 3:
             hdr["position_geodetic"] = ecef2geodetic(*hdr["position"])
     except (KeyError, ValueError):
         pass
-- 
2.43.0


From 2fbe41ea4fa204c5c4a1f9f228d123636dcd2fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 18/52] fix: error for unsupported RINEX 2 navigation kinds was
 a KeyError

---
 src/georinex/nav2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index ac4d34b..9ffed01 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -121,7 +121,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
                 "TransTime",
             ]
         else:
-            raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["sys"]}  {fn}')
+            raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["filetype"]}  {fn}')
         # %% loop over times
         for ln in f:
             # %% read Epoch / ToC (Time of Clock)
-- 
2.43.0


From c794c6d20dcb278648c997f56d71dd881690f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 19/52] fix: RINEX 3 navigation records after a blank line were
 lost

---
 src/georinex/nav3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index aba6bff..a57504c 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -39,9 +39,6 @@ def rinexnav3(
         header = navheader3(f)
         # %% read Epoch / ToC (Time of Clock)
         for line in f:
-            if line.startswith("\n"):  # EOF
-                break
-
             try:
                 time = _time(line)
             except ValueError:  # blank or garbage line
-- 
2.43.0


From 0d79362f3cfe8f729c00ef2bd1c0a9f6e5be6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 20/52] fix: loss of lock indicators of bands other than L1,
 L2, L5 were dropped

---
 src/georinex/obs2.py | 4 ++--
 src/georinex/obs3.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index fd13800..1b851cf 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -261,8 +261,8 @@ def rinexsystem2(
     for field in hdr["fields"]:
         fields.append(field)
         if useindicators:
-            if field not in {"S1", "S2", "S5"}:
-                if field in {"L1", "L2", "L5"}:
+            if not field.startswith("S"):
+                if field.startswith("L"):
                     fields.append(f"{field}lli")
                 else:
                     fields.append(None)
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 5ccd325..93b8643 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -263,7 +263,7 @@ def _indicators(d: dict, k: str, arr: np.ndarray) -> dict[str, tuple]:
     """
     handle LLI (loss of lock) and SSI (signal strength)
     """
-    if k.startswith(("L1", "L2")):
+    if k.startswith("L"):
         d[k + "lli"] = (("time", "sv"), np.atleast_2d(arr[:, 0]))
 
     d[k + "ssi"] = (("time", "sv"), np.atleast_2d(arr[:, 1]))
-- 
2.43.0


From a7ef80a7319434ee7cd1f86a475c218addc4f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 21/52] fix: time limits given as strings were compared as text

---
 src/georinex/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index e868234..853ef70 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -56,6 +56,7 @@ def load(
     if tlim is not None:
         if len(tlim) != 2:
             raise ValueError("time bounds are specified as start stop")
+        tlim = _tlim(tlim)
         if tlim[1] < tlim[0]:
             raise ValueError("stop time must be after start time")
 
-- 
2.43.0


From 37064b2152efba74923a5bf46aa1f95fdb44e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 22/52] fix: keplerian2ecef of a satellite selected from loaded
 data

---
 src/georinex/keplerian.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 19f0c13..5ec42b5 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -22,7 +22,12 @@ def keplerian2ecef(
     http://web.cecs.pdx.edu/~ssp/Reports/2006/Monaghan.pdf
     """
 
-    if "sv" in sv and sv["sv"] in {"R", "S"}:
+    if "sv" in sv:
+        svtype = str(np.atleast_1d(sv["sv"].values)[0])[0]
+    else:
+        svtype = sv.svtype[0]
+
+    if svtype in {"R", "S"}:
         return sv["X"], sv["Y"], sv["Z"]
 
     # sv = sv.dropna(dim='time', how='all')
@@ -38,13 +43,13 @@ def keplerian2ecef(
     n = n0 + sv["DeltaN"].values  # corrected mean motion
 
     # from GPS Week 0
-    if sv.svtype[0] == "E":
+    if svtype == "E":
         weeks = sv["GALWeek"].values - 1024
         # TODO: need to add N*4096 for year 2058 and beyond
-    elif sv.svtype[0] == "G":
+    elif svtype == "G":
         weeks = sv["GPSWeek"].values
     else:
-        raise ValueError(f"Unknown system type {sv.svtype[0]}")
+        raise ValueError(f"Unknown system type {svtype}")
     # %% shaping
     weeks = np.atleast_1d(weeks).astype(float)
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
-- 
2.43.0


From 5a3571fadf433f015e4f0d6c1190b11a9f548688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 23/52] fix: Galileo week in RINEX is identical to GPS week

---
 src/georinex/keplerian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 5ec42b5..effb05c 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -44,8 +44,8 @@ def keplerian2ecef(
 
     # from GPS Week 0
     if svtype == "E":
-        weeks = sv["GALWeek"].values - 1024
-        # TODO: need to add N*4096 for year 2058 and beyond
+        # RINEX GAL week is continuous and identical to GPS week
+        weeks = sv["GALWeek"].values
     elif svtype == "G":
         weeks = sv["GPSWeek"].values
     else:
-- 
2.43.0


From 0ca03b7f023d3c60cac67ef971658f47126f57a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 24/52] fix: solve the Kepler equation to convergence

---
 src/georinex/keplerian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index effb05c..181cb61 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -67,6 +67,8 @@ def keplerian2ecef(
     # %% Kepler's eqn of eccentric anomaly
     Mk = sv["M0"].values + n * tk  # Mean Anomaly
     Ek = Mk + e * np.sin(Mk)  # Eccentric anomaly
+    for _ in range(10):
+        Ek = Ek - (Ek - e * np.sin(Ek) - Mk) / (1 - e * np.cos(Ek))
     # %% true anomaly
     nuK = np.arctan2(np.sqrt(1 - e**2) * np.sin(Ek), np.cos(Ek) - e)
     # %% latitude
-- 
2.43.0


From 5a92e94557c8f1ec35703242b54987db92e61b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 25/52] fix: keplerian2ecef at epochs where the satellite has
 no record

---
 src/georinex/keplerian.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 181cb61..ef234bd 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -55,13 +55,15 @@ def keplerian2ecef(
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
     e = sv["Eccentricity"].values
 
-    T0 = [datetime(1980, 1, 6) + timedelta(weeks=week) for week in weeks]
-
     tk = np.empty(sv["time"].size, dtype=float)
+    tk.fill(np.nan)  # epochs without data of this satellite
 
     # %% time elapsed since reference epoch
-    for i, (t0, t1, t2) in enumerate(zip(T0, sv["time"], Toe)):
-        tsv = t1.values.astype("datetime64[us]").astype(datetime)
+    for i, (week, t1, t2) in enumerate(zip(weeks, np.atleast_1d(sv["time"].values), Toe)):
+        if np.isnan(week) or np.isnan(t2):
+            continue
+        t0 = datetime(1980, 1, 6) + timedelta(weeks=week)
+        tsv = t1.astype("datetime64[us]").astype(datetime)
         toe = timedelta(seconds=t2) + t0  # type: ignore
         tk[i] = (tsv - toe).total_seconds()  # type: ignore
     # %% Kepler's eqn of eccentric anomaly
-- 
2.43.0


From 756d8ca73b55914ad60c28b741f6f29ab7e64464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 26/52] fix: one unreadable file stopped the location table

---
 src/georinex/geo.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index 4691ab6..d6f2ead 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -28,14 +28,14 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
 
     hdr: dict[T.Hashable, T.Any]
     for file in files:
-        if isinstance(file, Path) and file.suffix == ".nc":
-            dat = xarray.open_dataset(file, group="OBS")
-            hdr = dat.attrs
-        else:
-            try:
+        try:
+            if isinstance(file, Path) and file.suffix == ".nc":
+                dat = xarray.open_dataset(file, group="OBS")
+                hdr = dat.attrs
+            else:
                 hdr = rinexheader(file)
-            except ValueError:
-                continue
+        except Exception:  # not a readable observation file
+            continue
 
         if isinstance(file, Path):
             key = file.name
-- 
2.43.0


From db75f2f72b1306b73559be538875a9a9216a1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 27/52] fix: one unreadable file stopped the command-line time
 lister

---
 src/georinex/time/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index b1b1917..f04f945 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -50,7 +50,7 @@ if filename.is_dir():
     for f in flist:
         try:
             eachfile(f)
-        except ValueError as err:
+        except Exception as err:
             logging.error(f"{f.name}: {err}")
 elif filename.is_file():
     eachfile(filename)
-- 
2.43.0


From 3b1b7d3c03fe2944ce37f3e17c0b69759846990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 28/52] fix: RINEX 2 navigation records with a blank last field
 could not be read

---
 src/georinex/nav2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 9ffed01..1cbb15d 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -5,6 +5,7 @@ from datetime import datetime
 import xarray
 import numpy as np
 import logging
+from math import ceil
 
 from .rio import opener, rinexinfo
 from .common import rinex_string_to_float
@@ -148,7 +149,8 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             # one line per SV
             # Sebastijan also added .replace('  ', ' ').replace(' -', '-') here,
             # I didn't add that yet because I don't know if it's generally needed.
-            raws.append(raw.replace("D", "E").replace("\n", ""))
+            # rstrip as a missing last measurement may be blank
+            raws.append(raw.replace("D", "E").replace("\n", "").rstrip())
 
     # %% parse collected data lines per SV
     svs = [s.replace(" ", "0") for s in svs]
@@ -175,7 +177,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             """
             dvec = [
                 float(raws[i][k * Lf : (k + 1) * Lf])
-                for k in range(min(len(fields), len(raws[i]) // Lf))
+                for k in range(min(len(fields), ceil(len(raws[i]) / Lf)))
             ]
             data[: len(dvec), it, j] = dvec
 
-- 
2.43.0


From 7aa3c23623901bc691a8a95366729c160cbdf11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 29/52] fix: a RINEX 3 navigation record cut off at end of file
 could be misread

---
 src/georinex/nav3.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index a57504c..35bcfc8 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -55,6 +55,15 @@ def rinexnav3(
                 _skip(f, Nl[sv[0]])
                 continue
 
+            # %% get the data as one big long string per SV, unknown # of lines per SV
+            raw = line[23:80]  # NOTE: 80, files put data in the last column!
+
+            more = [ln[STARTCOL3:80] for _, ln in zip(range(Nl[sv[0]]), f)]
+            if len(more) < Nl[sv[0]]:
+                logging.info(f"file ends inside a record of {sv}")
+                break
+            raw += "".join(more)
+
             times.append(time)
             # %% SV types
             if len(svtypes) == 0:
@@ -68,11 +77,6 @@ def rinexnav3(
             svs.append(sv.replace(" ", "0"))
             # patch SV names in case of "G 7" => "G07"
 
-            # %% get the data as one big long string per SV, unknown # of lines per SV
-            raw = line[23:80]  # NOTE: 80, files put data in the last column!
-
-            for _, ln in zip(range(Nl[sv[0]]), f):
-                raw += ln[STARTCOL3:80]
             # one line per SV
             raws.append(raw.replace("D", "E").replace("\n", ""))
 
-- 
2.43.0


From 7416a0979ca8d230ed925de48839428ff5cc0af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 30/52] fix: RINEX 3 observations after a satellite line
 without values were misplaced or unreadable

---
 src/georinex/obs3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 93b8643..bad1c92 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -101,7 +101,8 @@ def rinexobs3(
             for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
-                raw += ln[3:]
+                # a blank line would be skipped by genfromtxt
+                raw += (ln[3:].rstrip() or " ") + "\n"
 
             if tlim is not None:
                 if time < tlim[0]:
-- 
2.43.0


From 38ee08b8159f255aca4fa20536fab9e7110421ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:01 +0000
Subject: [PATCH 31/52] fix: LZW files with Windows line ends were misread

---
 src/georinex/rio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index eb08c6b..df586a5 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -101,7 +101,9 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 raise ImportError("ncompress unlzw not available")
 
             with fn.open("rb") as zu:
-                with io.StringIO(unlzw(zu.read()).decode("ascii", errors="ignore")) as f:
+                with io.StringIO(
+                    unlzw(zu.read()).decode("ascii", errors="ignore"), newline=None
+                ) as f:
                     _, is_crinex = rinex_version(first_nonblank_line(f))
                     f.seek(0)
 
-- 
2.43.0


From 61341f131546a6c057f4070e21055d441c279393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:01 +0000
Subject: [PATCH 32/52] fix: version of data from Hatanaka RINEX 2 files was
 that of Compact RINEX

---
 src/georinex/obs2.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 1b851cf..caaea25 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -286,6 +286,12 @@ def rinexsystem2(
     obs = obs.dropna(dim="time", how="all")  # when tlim specified
     # %% attributes
     obs.attrs["version"] = hdr["version"]
+    if hdr["filetype"] == "C":
+        # the version of the RINEX file, not of Compact RINEX
+        try:
+            obs.attrs["version"] = float(hdr["RINEX VERSION / TYPE"][:9])
+        except (KeyError, ValueError):
+            pass
 
     # Get interval from header or derive it from the data
     if "interval" in hdr.keys():
-- 
2.43.0


From edfff0266ce1db5cbf3fda844d050a3cf693ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:55 +0000
Subject: [PATCH 33/52] fix: in-memory streams holding Hatanaka files or
 Windows line ends were misread

---
 src/georinex/rio.py   | 21 +++++++++++++++++++--
 src/georinex/utils.py |  4 ++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index df586a5..197e376 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -31,8 +31,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         fn = Path(fn).expanduser()
 
     if isinstance(fn, io.StringIO):
-        fn.seek(0)
-        yield fn
+        yield text_stream(fn, header)
     elif isinstance(fn, Path):
         # need to have this check for Windows
         if not fn.is_file():
@@ -125,6 +124,24 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         raise OSError(f"Unsure what to do with input of type: {type(fn)}")
 
 
+def text_stream(f: io.StringIO, header: bool = False) -> io.StringIO:
+    """in-memory stream at its beginning, without Windows line ends or Hatanaka compression"""
+    f.seek(0)
+    if "\r\n" in f.getvalue():
+        f = io.StringIO(f.getvalue(), newline=None)
+
+    try:
+        _, is_crinex = rinex_version(first_nonblank_line(f))
+    except ValueError:  # reported by rinexinfo()
+        is_crinex = False
+    f.seek(0)
+
+    if is_crinex and not header:
+        f = io.StringIO(crx2rnx(f.read()))
+
+    return f
+
+
 def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
     """return first non-blank 80 character line in file
 
diff --git a/src/georinex/utils.py b/src/georinex/utils.py
index b958e67..30eee3e 100644
--- a/src/georinex/utils.py
+++ b/src/georinex/utils.py
@@ -6,7 +6,7 @@ from dateutil.parser import parse
 import io
 import xarray
 
-from .rio import rinexinfo, opener
+from .rio import rinexinfo, opener, text_stream
 from .obs2 import obstime2, obsheader2
 from .obs3 import obstime3, obsheader3
 from .nav2 import navtime2, navheader2
@@ -88,7 +88,7 @@ def rinexheader(fn: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         with opener(fn, header=True) as f:
             return rinexheader(f)
     elif isinstance(fn, io.StringIO):
-        fn.seek(0)
+        fn = text_stream(fn, header=True)
     elif isinstance(fn, io.TextIOWrapper):
         pass
     else:
-- 
2.43.0


From 9623127df34847e092b895d8dc9ab2ae339b3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:03 +0000
Subject: [PATCH 34/52] fix: SP3 conversion replaced any existing output file

---
 src/georinex/base.py | 2 +-
 src/georinex/sp3.py  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 853ef70..81fa4e9 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -81,7 +81,7 @@ def load(
     assert isinstance(rinexfn, Path)
 
     if info["rinextype"] == "sp3":
-        return load_sp3(rinexfn, outfn)
+        return load_sp3(rinexfn, outfn, overwrite=overwrite)
     elif rinexfn.suffix == ".nc":
         # outfn not used here, because we already have the converted file!
         try:
diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index d57c7f8..3c78de1 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -19,7 +19,7 @@ ENC = {"zlib": True, "complevel": 1, "fletcher32": True}
 __all__ = ["load_sp3"]
 
 
-def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
+def load_sp3(fn: Path, outfn: Path | None, *, overwrite: bool = False) -> xarray.Dataset:
     """
     The basic format is a position and clock record;
     a second, optional, record contains velocities and clock rates-of-change.
@@ -123,6 +123,9 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
 
     if outfn:
         outfn = Path(outfn).expanduser()
+        if outfn.is_file() and not overwrite:
+            raise ValueError(f"{outfn} already exists")
+
         enc = {k: ENC for k in ds.data_vars}
         ds.to_netcdf(outfn, mode="w", encoding=enc, format="NETCDF4")
 
-- 
2.43.0


From 0b4cfabf25f877253011d86519a617755e326ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 35/52] fix: time lister failed on files stating an interval of
 zero

---
 src/georinex/time/__main__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index f04f945..b2ef88e 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -27,9 +27,10 @@ def eachfile(fn: Path):
     interval = hdr.get("interval", np.nan)
     if ~np.isnan(interval):
         ostr += f" {interval}"
-        Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1
-        if Nexpect != Ntimes:
-            logging.warning(f"{fn.name}: expected {Nexpect} but got {Ntimes} times")
+        if interval > 0:
+            Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1
+            if Nexpect != Ntimes:
+                logging.warning(f"{fn.name}: expected {Nexpect} but got {Ntimes} times")
 
     print(ostr)
 
-- 
2.43.0


From 7dd9e3b46c4a6fb2e92d1274a23ac1becd8a47dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 36/52] fix: receiver model of RINEX 2 files was cut or mixed
 with its number and version

---
 src/georinex/obs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index caaea25..11a4257 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -469,7 +469,7 @@ def obsheader2(
 
     try:
         s = " "
-        hdr["rxmodel"] = s.join(hdr["REC # / TYPE / VERS"].split()[1:-1])
+        hdr["rxmodel"] = s.join(hdr["REC # / TYPE / VERS"][20:40].split())
     except (KeyError, ValueError):
         pass
 
-- 
2.43.0


From 4aab40af8c3f5bdc670d30e0b1bc842d3fbc01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 37/52] fix: RINEX clock files were taken for observation files

---
 src/georinex/rio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 197e376..799097d 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -198,7 +198,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         if line.startswith(("#a", "#c", "#d")):
             return {"version": line[1], "rinextype": "sp3"}
 
-        version = rinex_version(line)[0]
+        version, is_crinex = rinex_version(line)
         file_type = line[20]
         if int(version) == 2:
             if file_type == "N":
@@ -215,7 +215,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         if int(version) < 3 and system == " ":
             system = "G"  # RINEX 2: a blank system means GPS
 
-        if line[20] in ("O", "C"):
+        if line[20] == "O" or is_crinex:
             rinex_type = "obs"
         elif line[20] == "N" or "NAV" in line[20:40]:
             rinex_type = "nav"
-- 
2.43.0


From 6cde60a2c0cdb15852758e00e433248979198370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 38/52] fix: a header comment with the words END OF HEADER
 ended the header

---
 src/georinex/nav2.py | 2 +-
 src/georinex/nav3.py | 2 +-
 src/georinex/obs2.py | 4 ++--
 src/georinex/obs3.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 1cbb15d..353d6d8 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -224,7 +224,7 @@ def navheader2(f: T.TextIO) -> dict[T.Hashable, T.Any]:
     hdr = rinexinfo(f)
 
     for ln in f:
-        if "END OF HEADER" in ln:
+        if "END OF HEADER" in ln[60:]:
             break
         kind, content = ln[60:].strip(), ln[:60]
         hdr[kind] = content
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 35bcfc8..ff75e9c 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -482,7 +482,7 @@ def navheader3(f: T.TextIO) -> dict[T.Hashable, T.Any]:
     hdr = rinexinfo(f)
 
     for ln in f:
-        if "END OF HEADER" in ln:
+        if "END OF HEADER" in ln[60:]:
             break
 
         kind, content = ln[60:].strip(), ln[:60]
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 11a4257..b91ccc4 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -382,7 +382,7 @@ def obsheader2(
     Nobs = 0  # not None due to type checking
 
     for ln in f:
-        if "END OF HEADER" in ln:
+        if "END OF HEADER" in ln[60:]:
             break
 
         hd = ln[60:80].strip()
@@ -612,7 +612,7 @@ def _timeobs(ln: str) -> datetime:
 
 def _skip_header(f: T.TextIO):
     for ln in f:
-        if "END OF HEADER" in ln:
+        if "END OF HEADER" in ln[60:]:
             break
 
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index bad1c92..265504e 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -291,7 +291,7 @@ def obsheader3(
     hdr = rinexinfo(f)
 
     for ln in f:
-        if "END OF HEADER" in ln:
+        if "END OF HEADER" in ln[60:]:
             break
 
         hd = ln[60:80]
-- 
2.43.0


From 378920d4792ce00362ff1b56fda70b378545a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 39/52] fix: RINEX 3 observation files with a comment inside a
 long list of types could not be read

---
 src/georinex/obs3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 265504e..b5229e8 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -306,6 +306,9 @@ def obsheader3(
             n = N - 13
             while n > 0:  # Rinex 3.03, pg. A6, A7
                 ln = f.readline()
+                if ln[60:80].strip() == "COMMENT":  # allowed anywhere in the header
+                    hdr["COMMENT"] = f"{hdr['COMMENT']} {ln[:60]}" if "COMMENT" in hdr else ln[:60]
+                    continue
                 assert "SYS / # / OBS TYPES" in ln[60:]
                 fields[k] += ln[6:60].split()
                 n -= 13
-- 
2.43.0


From 4a11d27acb69fb506da7605c7fdb15ed8465be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 40/52] fix: clock offsets of epochs outside the selection were
 stated with RINEX 3 observations

---
 src/georinex/obs3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index b5229e8..5f1be17 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -90,10 +90,7 @@ def rinexobs3(
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                 continue
 
-            try:
-                time_offset.append(float(ln[41:56]))
-            except ValueError:
-                pass
+            clock_offset = ln[41:56]
             # %% get SV indices
             sv = []
             raw = ""
@@ -119,6 +116,11 @@ def rinexobs3(
                     else:
                         last_epoch += interval
 
+            try:
+                time_offset.append(float(clock_offset))
+            except ValueError:
+                pass
+
             if verbose:
                 print(time, end="\r")
 
-- 
2.43.0


From 7291147d70c356186a130c305e0cd970522cf120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 41/52] fix: RINEX 3 observation files with a blank approximate
 position could not be read

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 5f1be17..50295a8 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -152,7 +152,7 @@ def rinexobs3(
 
     if "position" in hdr.keys():
         data.attrs["position"] = hdr["position"]
-        if ecef2geodetic is not None:
+        if "position_geodetic" in hdr.keys():
             data.attrs["position_geodetic"] = hdr["position_geodetic"]
 
     if time_offset:
-- 
2.43.0


From d904a7077f567c8cbaaa06a180875e0f63978457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 42/52] fix: derived interval of mixed RINEX 2 files was that
 of one of the systems

---
 src/georinex/obs2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index b91ccc4..efc956c 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -58,6 +58,9 @@ def rinexobs2(
             obs = xarray.merge((obs, o))
 
     obs.attrs = attrs
+    if attrs and "interval" not in obsheader2(fn):
+        # the epochs of all systems together
+        obs.attrs["interval"] = np.median(np.diff(obs.time) / np.timedelta64(1, "s"))
 
     return obs
 
-- 
2.43.0


From dc1f68768082e69a128657d6329de53f0110f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 43/52] fix: location table mixed up files of the same name and
 failed on an empty list

---
 src/georinex/geo.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index d6f2ead..9b2e295 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -17,17 +17,18 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
     if isinstance(files, (Path, io.StringIO)):
         files = [files]
 
-    if isinstance(files[0], io.StringIO):
-        locs = pandas.DataFrame(index=["0"], columns=["lat", "lon", "interval"])
-    elif isinstance(files[0], Path):
-        locs = pandas.DataFrame(
-            index=[file.name for file in files], columns=["lat", "lon", "interval"]
-        )
-    else:
+    if not all(isinstance(file, (Path, io.StringIO)) for file in files):
         raise TypeError("Expecting pathlib.Path")
 
+    # files of the same name each have their own row
+    locs = pandas.DataFrame(
+        index=[file.name if isinstance(file, Path) else "0" for file in files],
+        columns=["lat", "lon", "interval"],
+        dtype=object,
+    )
+
     hdr: dict[T.Hashable, T.Any]
-    for file in files:
+    for i, file in enumerate(files):
         try:
             if isinstance(file, Path) and file.suffix == ".nc":
                 dat = xarray.open_dataset(file, group="OBS")
@@ -37,18 +38,13 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
         except Exception:  # not a readable observation file
             continue
 
-        if isinstance(file, Path):
-            key = file.name
-        else:
-            key = "0"
-
         if "position_geodetic" not in hdr:
             continue
 
-        locs.loc[key, "lat"] = hdr["position_geodetic"][0]
-        locs.loc[key, "lon"] = hdr["position_geodetic"][1]
+        locs.iloc[i, 0] = hdr["position_geodetic"][0]
+        locs.iloc[i, 1] = hdr["position_geodetic"][1]
         if "interval" in hdr and hdr["interval"] is not None:
-            locs.loc[key, "interval"] = hdr["interval"]
+            locs.iloc[i, 2] = hdr["interval"]
 
     locs = locs.loc[locs.loc[:, ["lat", "lon"]].notna().all(axis=1), :]
 
-- 
2.43.0


From d9127e4c92d5e09e165d61aabf0fdea3aefe5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 44/52] fix: positions failed for a satellite selected by a
 list and were missing where epochs share elements

---
 src/georinex/keplerian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index ef234bd..0bb2f30 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -32,6 +32,9 @@ def keplerian2ecef(
 
     # sv = sv.dropna(dim='time', how='all')
 
+    if "sv" in sv.dims:  # one satellite, selected by a list
+        sv = sv.squeeze("sv")
+
     GM = 3.986004418e14  # [m^3 s^-2]   Mean anomaly at tk
     omega_e = 7.2921151467e-5  # [rad s^-1]  Mean angular velocity of Earth
 
@@ -50,9 +53,9 @@ def keplerian2ecef(
         weeks = sv["GPSWeek"].values
     else:
         raise ValueError(f"Unknown system type {svtype}")
-    # %% shaping
-    weeks = np.atleast_1d(weeks).astype(float)
-    Toe = np.atleast_1d(sv["Toe"].values).astype(float)
+    # %% shaping: elements may be shared by all epochs
+    weeks = np.broadcast_to(np.asarray(weeks, dtype=float), sv["time"].size)
+    Toe = np.broadcast_to(np.asarray(sv["Toe"].values, dtype=float), sv["time"].size)
     e = sv["Eccentricity"].values
 
     tk = np.empty(sv["time"].size, dtype=float)
-- 
2.43.0


From dac65e3290a1a967f44ebc7d878a39a658791237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 45/52] fix: satellites listed by RINEX 3 OBS reads depended on
 the order of the systems selected

---
 src/georinex/obs3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 50295a8..72a0c53 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -360,7 +360,8 @@ def obsheader3(
         if not set(fields.keys()).intersection(use):
             raise KeyError(f"system type {use} not found in RINEX file")
 
-        fields = {k: fields[k] for k in use if k in fields}
+        # in the order of the file: the result must not depend on the order of "use"
+        fields = {k: v for k, v in fields.items() if k in use}
 
     # perhaps this could be done more efficiently, but it's probably low impact on overall program.
     # simple set and frozenset operations do NOT preserve order, which would completely mess up reading!
-- 
2.43.0


From 286a7a69dabc45e5be8edb4ee8bf6f7e637cf05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 46/52] fix: RINEX 3 OBS header comments that look like an
 epoch were listed by gettime

---
 src/georinex/obs3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 72a0c53..9c835ff 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -197,6 +197,10 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
     times = []
 
     with opener(fn) as f:
+        for ln in f:  # a header comment may look like an epoch
+            if "END OF HEADER" in ln[60:]:
+                break
+
         for ln in f:
             if ln.startswith("> "):
                 try:
-- 
2.43.0


From c76a32e8cac488d274dcd897f4ef23a91779088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 47/52] fix: RINEX 3 OBS values after an unreadable field with
 # were lost or given to other satellites

---
 src/georinex/obs3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 9c835ff..dcca8a0 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -229,7 +229,9 @@ def _epoch(
     block processing of each epoch (time step)
     """
     darr = np.atleast_2d(
-        np.genfromtxt(io.BytesIO(raw.encode("ascii")), delimiter=(14, 1, 1) * hdr["Fmax"])
+        np.genfromtxt(
+            io.BytesIO(raw.encode("ascii")), delimiter=(14, 1, 1) * hdr["Fmax"], comments=None
+        )
     )
     # %% assign data for each time step
     for sk in hdr["fields"]:  # for each satellite system type (G,R,S, etc.)
-- 
2.43.0


From e8e730a6339c15adb6f0656e87058b6c3fab5a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 48/52] fix: maps can be drawn with current Matplotlib (axes
 are no longer created by gca)

---
 src/georinex/plots_geo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 32f5f6f..57a9f6f 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -25,7 +25,7 @@ def navtimeseries(nav: xarray.Dataset):
     svs = nav.sv.values
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
@@ -91,7 +91,7 @@ def receiver_locations(locs: pandas.DataFrame):
         return
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
-- 
2.43.0


From 26c20239344ab6c166c259fa7b9eb9ab0ba04ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:05 +0000
Subject: [PATCH 49/52] fix: receivers with an interval of 5 to 15 s or a
 stated interval of 0 can be shown on the map

---
 src/georinex/plots_geo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 57a9f6f..079110b 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -104,13 +104,13 @@ def receiver_locations(locs: pandas.DataFrame):
         if 15 <= loc.interval < 30:
             c = "g"
         elif 5 <= loc.interval < 15:
-            c = "o"
+            c = "orange"
         elif loc.interval < 5:
             c = "r"
         else:  # large or undefined interval
             c = "b"
 
-        if np.isfinite(loc.interval):
+        if np.isfinite(loc.interval) and loc.interval > 0:
             ax.scatter(loc.lon, loc.lat, s=1000 * 1 / loc.interval, c=c, label=name)
         else:
             ax.scatter(loc.lon, loc.lat, c=c, label=name)
-- 
2.43.0


From cdf0765502b9575497886289e5ad72ea11d7d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:05 +0000
Subject: [PATCH 50/52] fix: observations read from a stream can be plotted

---
 src/georinex/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 3444f6e..ff73647 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -42,7 +42,7 @@ def obstimeseries(obs: xarray.Dataset):
 
         ax.plot(time, dat)
 
-        ax.set_title(obs.filename)
+        ax.set_title(obs.attrs.get("filename", ""))  # data of a stream have no file name
         ax.set_xlabel("time [UTC]")
         ax.set_ylabel(p)
         ax.grid(True)
-- 
2.43.0


From e648542cd23e882d1c12a2437a64992b22cb8c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:05 +0000
Subject: [PATCH 51/52] fix: converted files with both observations and
 navigation are plotted, plotting orbit data does not fail

---
 src/georinex/plots.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index ff73647..2fb6c7e 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -9,17 +9,23 @@ except ImportError as e:
 
 
 def timeseries(data):
-    if not isinstance(data, xarray.Dataset):
-        return
+    if isinstance(data, dict):  # of a converted file with both
+        data = (data["obs"], data["nav"])
 
     if isinstance(data, tuple):
         obs, nav = data
         obstimeseries(obs)
         if navtimeseries is not None:
             navtimeseries(nav)
-    elif data.rinextype == "obs":
+        return
+
+    if not isinstance(data, xarray.Dataset):
+        return
+
+    rinextype = data.attrs.get("rinextype")  # orbit data (SP3) have none
+    if rinextype == "obs":
         obstimeseries(data)
-    elif data.rinextype == "nav":
+    elif rinextype == "nav":
         if navtimeseries is not None:
             navtimeseries(data)
 
-- 
2.43.0


From 637fbe31a682b94df5a12dee7397e691e94670b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 52/52] fix: a converted file that was read can be written
 again in the same process

The dataset was read lazily and kept the file open, so that overwriting it or
adding a group failed for as long as the dataset was in use.
---
 src/georinex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 81fa4e9..760f553 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -154,7 +154,7 @@ def rinexnav(
 
         if fn.suffix == ".nc":
             try:
-                return xarray.open_dataset(fn, group=group)
+                return xarray.load_dataset(fn, group=group)
             except OSError as e:
                 raise LookupError(f"Group {group} not found in {fn}    {e}")
 
@@ -205,7 +205,7 @@ def rinexobs(
         # %% NetCDF4
         if fn.suffix == ".nc":
             try:
-                return xarray.open_dataset(fn, group=group)
+                return xarray.load_dataset(fn, group=group)
             except OSError as e:
                 raise LookupError(f"Group {group} not found in {fn}   {e}")
 
-- 
2.43.0

