From c6f38066dedf49c163f8eee1b9069965f22f0c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 01/23] fix: reject observation codes whose band is not a digit

---
 src/gnssobs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gnssobs.cpp b/src/gnssobs.cpp
index 08e958f..2f8afa6 100644
--- a/src/gnssobs.cpp
+++ b/src/gnssobs.cpp
@@ -88,6 +88,10 @@ ObservationCode::ObservationCode(const char *str) {
   }
   ObservationAttribute at;
   auto ot = char_to_observabletype(*str);
+  if (str[1] < '0' || str[1] > '9') {
+    throw std::runtime_error(
+        "[ERROR] Cannot resolve frequency band in ObservationCode");
+  }
   int bn = str[1] - '0';
   if (std::strlen(str) > 2 && str[2] != ' ') {
     at = ObservationAttribute(str[2]);
-- 
2.43.0


From 7b6e37cd1b5593928ac699d2a701c3a700c4ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 02/23] fix: SatelliteAntenna::is_same returned the negated
 result

---
 src/antenna.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 8b11f9e..9a877a2 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -189,7 +189,7 @@ SatelliteAntenna::SatelliteAntenna(const char *c) noexcept {
 /// @return       Returns true of the passed in c-string holds the same
 ///               antenna type as this instance; false otherwise
 bool SatelliteAntenna::is_same(const char *c) const noexcept {
-  return std::strncmp(__name, c, satellite_antenna_max_chars);
+  return !std::strncmp(__name, c, satellite_antenna_max_chars);
 }
 
 /// Set the model name to nothing, that is to 20 null terminating chars
-- 
2.43.0


From dff6468cb39da9ab851711dc653f5adeae454e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 03/23] fix: set a blank radome to NONE and keep a radome
 shorter than four characters

---
 src/antenna.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 9a877a2..d82e098 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -36,8 +36,8 @@ void ReceiverAntenna::set_none_radome() noexcept {
 /// Check if the instance's radome type is empty, aka is "	  "
 /// @return true if radome is empty; false otherwise
 bool ReceiverAntenna::radome_is_empty() const noexcept {
-  constexpr std::size_t from = antenna_model_max_chars;
-  constexpr std::size_t to = antenna_model_max_chars + antenna_radome_max_chars;
+  constexpr std::size_t from = antenna_model_max_chars + 1;
+  constexpr std::size_t to = from + antenna_radome_max_chars;
   for (std::size_t i = from; i < to; i++) {
     if (__name[i] != ' ')
       return false;
@@ -65,8 +65,9 @@ void ReceiverAntenna::copy_from_cstr(const char *c) noexcept {
   std::memcpy(__name, c, sizeof(char) * std::min(ant_size, max_sz));
   if (ant_size < max_sz) {
     std::memset(__name + ant_size, ' ', sizeof(char) * (max_sz - ant_size));
-    set_none_radome();
   }
+  if (radome_is_empty())
+    set_none_radome();
 }
 
 /// Constructor from antenna type. At maximum 20 chars are copied from the
-- 
2.43.0


From 85da725f3184a5582a1ffd078d857cb6bd2fdfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 04/23] fix: compare antenna serials ignoring the blank padding

---
 src/antenna.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index d82e098..ad07a2b 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -130,7 +130,11 @@ bool ReceiverAntenna::compare_model(const ReceiverAntenna &rhs) const noexcept {
 /// @return		   True if the serials match exactly; false otherwise
 bool ReceiverAntenna::compare_serial(const char *c) const noexcept {
   constexpr auto idx = antenna_model_max_chars + 1 + antenna_radome_max_chars;
-  return !std::strncmp(__name + idx, c, antenna_serial_max_chars);
+  // serials are stored padded with whitespaces
+  char serial[antenna_serial_max_chars];
+  std::memset(serial, ' ', sizeof(serial));
+  std::memcpy(serial, c, std::min(std::strlen(c), sizeof(serial)));
+  return !std::strncmp(__name + idx, serial, antenna_serial_max_chars);
 }
 
 /// Check if the Antenna instance has a serial number; that is, any of the
-- 
2.43.0


From 2c0e159724caf8e64fea1315c8cf0cf53ee4dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 05/23] fix: equality of observables with repeated terms was
 not symmetric

---
 src/gnssobsrv.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/gnssobsrv.cpp b/src/gnssobsrv.cpp
index 2dc58b3..2fc53ad 100644
--- a/src/gnssobsrv.cpp
+++ b/src/gnssobsrv.cpp
@@ -65,11 +65,5 @@ bool ngpt::GnssObservable::operator==(const ngpt::GnssObservable &o) const
     noexcept {
   if (o.__vec.size() != __vec.size())
     return false;
-  for (const auto &i : __vec)
-    if (auto it = std::find_if(
-            o.__vec.begin(), o.__vec.end(),
-            [&ic = std::as_const(i)](const __ObsPart &p) { return p == ic; });
-        it == o.__vec.end())
-      return false;
-  return true;
+  return std::is_permutation(__vec.begin(), __vec.end(), o.__vec.begin());
 }
-- 
2.43.0


From 0df834197e24134891ef1a9dbf310bb8887710a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 06/23] fix: an unknown band in an observable terminated the
 program instead of throwing

---
 src/gnssobsrv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnssobsrv.hpp b/src/gnssobsrv.hpp
index f6f37b9..6359782 100644
--- a/src/gnssobsrv.hpp
+++ b/src/gnssobsrv.hpp
@@ -125,7 +125,7 @@ public:
     __vec.emplace_back(sys, code, coef);
   }
 
-  double frequency() const noexcept {
+  double frequency() const {
     double frequency = 0e0;
     for (const auto &v : __vec)
       frequency += v.frequency();
-- 
2.43.0


From d199a3b73ab270f7887702d4e887e50fc4ede328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 07/23] fix: a satellite without COSPAR id printed
 uninitialised memory

---
 src/satellite.cpp | 3 +--
 src/satellite.hpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/satellite.cpp b/src/satellite.cpp
index 5b3a100..ab65b26 100644
--- a/src/satellite.cpp
+++ b/src/satellite.cpp
@@ -17,6 +17,5 @@ std::string Satellite::to_string(bool compact) const noexcept {
   else
     sat += ("-" + s);
 
-  return sat +
-         std::string("/" + std::string(__cospar, detail::COSPAR_ID_CHARS));
+  return sat + "/" + std::string(__cospar);
 }
diff --git a/src/satellite.hpp b/src/satellite.hpp
index dd07986..cf575ec 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -113,7 +113,7 @@ private:
                               ///< (QZSS); blank (Compass, SBAS)
   SatelliteAntenna __antenna; ///< antenna type
   char
-      __cospar[detail::COSPAR_ID_CHARS + 1]; ///< The COSPAR id, aka "YYYY-XXXA"
+      __cospar[detail::COSPAR_ID_CHARS + 1] = {}; ///< The COSPAR id, aka "YYYY-XXXA"
 };                                           // Satellite
 
 } // namespace ngpt
-- 
2.43.0


From 83786a224a26b5c4f8bba708d9fa22fa842ee63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 08/23] fix: a COSPAR id has nine characters (YYYY-XXXA)

---
 src/satellite.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satellite.hpp b/src/satellite.hpp
index cf575ec..d886c42 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -27,7 +27,7 @@
 namespace ngpt {
 
 namespace detail {
-constexpr int COSPAR_ID_CHARS = 8;
+constexpr int COSPAR_ID_CHARS = 9;
 }
 
 /// @class Satellite
-- 
2.43.0


From 35ccd0ff8b2a61a1ae8ef694c6d1820ca859d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 09/23] fix: BeiDou frequency table uses the RINEX 3 band
 numbers (2/7/6), not B1/B2/B3 ordinals

---
 src/satsys.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/satsys.cpp b/src/satsys.cpp
index 6760569..458f487 100644
--- a/src/satsys.cpp
+++ b/src/satsys.cpp
@@ -65,13 +65,18 @@ const std::map<int, std::string> ngpt::satellite_system_traits<
 /// Initialize the static frequency map for BDS.
 const std::map<int, double> ngpt::satellite_system_traits<
     ngpt::SATELLITE_SYSTEM::beidou>::frequency_map = {
-    {1, 1561.098e0}, {2, 1207.140e0}, {3, 1268.520e0}};
+    {1, 1561.098e0}, ///< B1 (RINEX 3.02)
+    {2, 1561.098e0}, ///< B1
+    {6, 1268.520e0}, ///< B3
+    {7, 1207.140e0}  ///< B2
+};
 
 const std::map<int, std::string> ngpt::satellite_system_traits<
     ngpt::SATELLITE_SYSTEM::beidou>::valid_atributes = {
     {1, std::string("IQX?")},
     {2, std::string("IQX?")},
-    {3, std::string("IQX?")}};
+    {6, std::string("IQX?")},
+    {7, std::string("IQX?")}};
 
 /// Initialize the static frequency map for IRNSS.
 /// \todo in \cite rnx303 the 2nd frequency band is denoted as 'S'
-- 
2.43.0


From 9f451f65a527326910d4bb762d3a4ffa74d01af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:52 +0000
Subject: [PATCH 10/23] fix: sv_clock solves Kepler's equation for the time
 from ToE, not from ToC

---
 src/navrnx.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 2a748e5..e80581d 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -412,7 +412,9 @@ private:
       double n0(
           std::sqrt(MI_SYS / (A * A * A))); //  Computed mean motion (rad/sec)
       double n(n0 + data__[5]);             //  Corrected mean motion
-      double Mk(data__[6] + n * dt);        //  Mean anomaly
+      double tk(dt + ref2toe(toc__) -
+                toe__.sec().to_fractional_seconds()); //  Seconds from ToE
+      double Mk(data__[6] + n * tk);        //  Mean anomaly
       double E(Mk);
       double e(data__[8]);
       int i;
-- 
2.43.0


From c36ea13d81dac80f0b292b184f457e2db8eac76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 11/23] fix: integrate GLONASS orbits up to the requested time,
 not the next full minute

---
 src/glonav.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glonav.cpp b/src/glonav.cpp
index 44614b0..2d37576 100644
--- a/src/glonav.cpp
+++ b/src/glonav.cpp
@@ -313,14 +313,16 @@ int NavDataFrame::glo_ecef(double t_sec, double *state) const noexcept {
 
   double k1[6], k2[6], k3[6], k4[6];
   double ytmp[6], yti[6];
-  double h = t_sec > toe_sec ? h_step : -h_step;
   double ti = toe_sec;
   double t_lim = t_sec - std::round((t_sec - toe_sec) / 86400) * 86400;
+  double h = t_lim > toe_sec ? h_step : -h_step;
   int max_it = 0;
   std::copy(x, x + 6, yti);
   // Perform Runge-Kutta 4th
-  // while (std::abs(ti-t_lim)>1e-9 && ++max_it<1500) {
-  while (h > 0 ? ti < t_lim : ti > t_lim && ++max_it < 1500) {
+  while (std::abs(ti - t_lim) > 1e-9 && ++max_it < 1500) {
+    // the last step must end at t_lim
+    if (std::abs(t_lim - ti) < h_step)
+      h = t_lim - ti;
     // compute k1
     glo_state_deriv(yti, acc, k1);
     // compute k2
-- 
2.43.0


From 980c600ae048508f3ff270b65b2b135e54ec14ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 12/23] fix: resolve the GLONASS time of ephemeris next to the
 start of a week

---
 src/navrnx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index e80581d..f093780 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -529,6 +529,11 @@ private:
 #endif
     // days difference (if any)
     int offset = dw_toc - dw_toe;
+    // ToC and ToE may lie on different sides of the start of a week
+    if (offset > 3)
+      offset -= 7;
+    else if (offset < -3)
+      offset += 7;
     // seconds of day (for ToE)
     long sd_toe = sw_toe % 86400L;
 #ifdef DEBUG
-- 
2.43.0


From ae0088a39d8c1545f118b58d03a857562c08cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 13/23] fix: a blank field of a fixed-width line took the value
 of the next field

---
 src/nvarstr.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index 7c4ee64..ecac5f7 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -87,7 +87,8 @@ inline bool __char2double__(const char *line, double *data) noexcept {
   char *end;
   for (int i = 0; i < N; i++) {
     data[i] = std::strtod(line, &end);
-    if (line == end)
+    // no number, or a number that is not (all) in this field
+    if (line == end || end > line + M)
       return false;
     line += M;
   }
@@ -110,7 +111,8 @@ inline bool __char2double__(const char *line, double *data, int N) noexcept {
   char *end;
   for (int i = 0; i < N; i++) {
     data[i] = std::strtod(line, &end);
-    if (line == end)
+    // no number, or a number that is not (all) in this field
+    if (line == end || end > line + M)
       return false;
     line += M;
   }
-- 
2.43.0


From e78dd0351682d275596d4c6c0a006c2da86cac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 14/23] fix: malformed or truncated navigation records
 terminated the process or were read from stale text

---
 src/navrnx.cpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index f8b6c8b..79d6730 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -63,6 +63,12 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
   return lines_to_read;
 }
 
+/// @brief Check that a line is long enough to hold num_recs values (of 19
+///        columns each), starting at column start_col.
+bool line_holds(const char *line, int start_col, int num_recs) noexcept {
+  return std::strlen(line) >= (std::size_t)(start_col + num_recs * 19);
+}
+
 /// @details: Resolve a Nav. RINEX v3.x data block to a NavDataFrame. The
 ///           function expect that the first line to be read is:
 ///           "SV/ EPOCH / SV CLK". Depending on the satellite system (to be
@@ -71,8 +77,6 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
 /// @param[in] inp Input file (nav RINEX v3) stream, placed before (aka first
 ///                line to be read is:) "SV/ EPOCH / SV CLK"
 /// @return    Anything other than 0 denotes an error.
-/// @todo the line toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line+3); may
-/// throw! what can i do about this?
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
@@ -82,15 +86,25 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     return 50;
 #endif
 
+  // Number conversions below report via errno; forget about older errors
+  errno = 0;
+
   // Read the first line.
   // ------------------------------------------------------------
   if (!inp.getline(line, MAX_RECORD_CHARS)) {
     return 1;
   }
-  sys__ = ngpt::char_to_satsys(*line);
-  toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  if (!line_holds(line, 23, 3))
+    return 1;
+  try {
+    sys__ = ngpt::char_to_satsys(*line);
+    toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  } catch (std::exception &) {
+    errno = 0;
+    return 2;
+  }
   prn__ = std::strtol(line + 1, &str_end, 10);
-  if (!prn__ || errno == ERANGE) {
+  if (prn__ <= 0 || str_end > line + 3 || errno == ERANGE) {
     errno = 0;
     return 2;
   }
@@ -116,7 +130,8 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
       // replace 'D' or 'd' with 'e'
       __for2cpp__(line);
       // read 4 doubles into data__
-      if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
+      if (!line_holds(line, 4, 4) ||
+          !__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
         errno = 0;
         return 6;
       }
@@ -130,12 +145,14 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
       __for2cpp__(line);
       // read 4 doubles into data__
       if (ln != 4) {
-        if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
+        if (!line_holds(line, 4, 4) ||
+            !__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
           errno = 0;
           return 6;
         }
       } else {
-        if (!__char2double__<3, 19>(line + 4, data__ + 3 + ln * 4)) {
+        if (!line_holds(line, 4, 3) ||
+            !__char2double__<3, 19>(line + 4, data__ + 3 + ln * 4)) {
           errno = 0;
           return 6;
         }
@@ -150,7 +167,8 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // replace 'D' or 'd' with 'e'
   __for2cpp__(line);
   // read remaining last_line_recs doubles into data__
-  if (!__char2double__<19>(line + 4, data__ + 3 + ln * 4, last_line_recs)) {
+  if (!line_holds(line, 4, last_line_recs) ||
+      !__char2double__<19>(line + 4, data__ + 3 + ln * 4, last_line_recs)) {
     errno = 0;
     return 8;
   }
-- 
2.43.0


From afff6a64a8ffd8cd5bbeaad4795f8200d0048951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 15/23] fix: a navigation record with an impossible time of
 ephemeris aborted the process

---
 src/navrnx.cpp | 21 ++++++++++++---------
 src/navrnx.hpp |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 79d6730..a66c8d6 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -69,6 +69,11 @@ bool line_holds(const char *line, int start_col, int num_recs) noexcept {
   return std::strlen(line) >= (std::size_t)(start_col + num_recs * 19);
 }
 
+/// @brief Check that a value denotes whole seconds of a week
+bool is_seconds_of_week(double sec) noexcept {
+  return sec >= 0e0 && sec <= 604800e0 && sec == (double)(long)sec;
+}
+
 /// @details: Resolve a Nav. RINEX v3.x data block to a NavDataFrame. The
 ///           function expect that the first line to be read is:
 ///           "SV/ EPOCH / SV CLK". Depending on the satellite system (to be
@@ -180,15 +185,13 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
       data__[i] *= 1e3;
   }
 
-  // set ToE
-#ifdef DEBUG
-  // assert we don't have fractional seconds!
-  if (sys__ == SATELLITE_SYSTEM::glonass)
-    assert(std::abs(data__[2] - (int)data__[2]) < 1e-15);
-  if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::galileo ||
-      sys__ == SATELLITE_SYSTEM::beidou)
-    assert(std::abs(data__[11] - (int)data__[11]) < 1e-15);
-#endif
+  // set ToE; we need whole seconds of the week (and a week number)
+  if (sys__ == SATELLITE_SYSTEM::glonass && !is_seconds_of_week(data__[2]))
+    return 9;
+  if ((sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::galileo ||
+       sys__ == SATELLITE_SYSTEM::beidou) &&
+      (!is_seconds_of_week(data__[11]) || !(std::abs(data__[21]) < 1e5)))
+    return 9;
   if (sys__ == SATELLITE_SYSTEM::gps || sys__ == SATELLITE_SYSTEM::glonass ||
       sys__ == SATELLITE_SYSTEM::galileo || sys__ == SATELLITE_SYSTEM::beidou) {
     toe__ = this->toe2date<ngpt::seconds>();
diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index f093780..502d2b9 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -538,7 +538,7 @@ private:
     long sd_toe = sw_toe % 86400L;
 #ifdef DEBUG
     double test = data__[2] - dw_toe * 86400e0;
-    bool health = (int)data__[6];
+    bool health = data__[6] != 0e0;
     if (!health) {
       assert(std::abs(test - (double)sd_toe) < 1e-15);
       /*if (std::abs(test-(double)sd_toe)>1e-15) {
-- 
2.43.0


From 65bceb439e211436a5c76f6e5eccdf20382b738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 16/23] fix: BeiDou and IRNSS navigation records with blank
 spare columns were misread or rejected

---
 src/navrnx.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index a66c8d6..79cc073 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -126,8 +126,9 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (lines_in_block < 0) {
     return 4;
   }
-  // read all but the last line (** all but galileo or beidou **)
-  if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
+  // read all but the last line (** all but galileo, beidou or irnss **)
+  if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou &&
+      sys__ != SATELLITE_SYSTEM::irnss) {
     for (ln = 0; ln < lines_in_block - 1; ln++) {
       if (!inp.getline(line, MAX_RECORD_CHARS)) {
         return 5;
@@ -141,7 +142,8 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
         return 6;
       }
     }
-  } else { // galileo and beidou have an empty record in line #5
+  } else { // galileo, beidou and irnss have empty records in line #5
+           // (irnss also in line #6)
     for (ln = 0; ln < lines_in_block - 1; ln++) {
       if (!inp.getline(line, MAX_RECORD_CHARS)) {
         return 5;
@@ -149,12 +151,20 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
       // replace 'D' or 'd' with 'e'
       __for2cpp__(line);
       // read 4 doubles into data__
-      if (ln != 4) {
+      if (ln != 4 && (ln != 5 || sys__ != SATELLITE_SYSTEM::irnss)) {
         if (!line_holds(line, 4, 4) ||
             !__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
           errno = 0;
           return 6;
         }
+      } else if (ln == 4 && sys__ != SATELLITE_SYSTEM::galileo) {
+        // the second record is also a spare
+        if (!line_holds(line, 4, 3) ||
+            !__char2double__<1, 19>(line + 4, data__ + 3 + ln * 4) ||
+            !__char2double__<1, 19>(line + 42, data__ + 5 + ln * 4)) {
+          errno = 0;
+          return 6;
+        }
       } else {
         if (!line_holds(line, 4, 3) ||
             !__char2double__<3, 19>(line + 4, data__ + 3 + ln * 4)) {
-- 
2.43.0


From 1f60bdf601ee8b23836b35dca6bc7d93dcdc2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 17/23] fix: searching a navigation file hung on a block of
 unknown length and took character 0xFF for end of file

---
 src/navrnx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 79cc073..0f861a5 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -312,7 +312,7 @@ int NavigationRnx::ignore_next_block() noexcept {
   if (!__istream.good())
     return 50;
 #endif
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF)
     return clear_stream(-1);
 
@@ -326,6 +326,8 @@ int NavigationRnx::ignore_next_block() noexcept {
   char line[MAX_RECORD_CHARS];
   int last_line_recs = 0;
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
+  if (lines_in_block < 0)
+    return 3;
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
     if (!__istream.getline(line, MAX_RECORD_CHARS)) {
@@ -350,7 +352,7 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
   }
 #endif
   status = 0;
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF) {
     status = clear_stream(-1);
     return SATELLITE_SYSTEM::mixed;
-- 
2.43.0


From 72b9ab406e1dbcb2d51eea28f273f3b83658b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 18/23] fix: short header lines of a navigation file were read
 beyond their end

---
 src/navrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 0f861a5..4bdd572 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -234,7 +234,7 @@ NavigationRnx::NavigationRnx(const char *filename)
 /// "END OF HEADER"
 /// @return  Anything other than 0 denotes an error.
 int NavigationRnx::read_header() noexcept {
-  char line[MAX_HEADER_CHARS];
+  char line[MAX_HEADER_CHARS] = {'\0'};
   char *str_end;
 
   // The stream should be open by now!
-- 
2.43.0


From 8347800e5d71156dcc38c1ee5f7975a900c4cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 19/23] fix: searching a valid navigation record terminated the
 process for QZSS, SBAS and IRNSS and ignored the any-satellite request

---
 src/navrnx.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 502d2b9..0af0cb7 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -651,6 +651,10 @@ public:
     if (!__istream.good())
       return 50;
 #endif
+    // no health/validity information for other systems
+    if (sys != SATELLITE_SYSTEM::gps && sys != SATELLITE_SYSTEM::glonass &&
+        sys != SATELLITE_SYSTEM::galileo && sys != SATELLITE_SYSTEM::beidou)
+      return 10;
     curpos = __istream.tellg();
     int status = 0, dummy_it = 0;
     SATELLITE_SYSTEM csys;
@@ -661,7 +665,7 @@ public:
       if (csys == sys) {
         if ((status = this->read_next_record(frame)))
           return clear_stream(status);
-        if (prn == frame.prn()) {
+        if (prn == -1 || prn == frame.prn()) {
           auto toc = frame.toc<milliseconds>();
           // std::cout<<" found msg with ToC
           // "<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(toc); are we too far
-- 
2.43.0


From ed4e98b7efb580493f7ae46c93a659d9df9cdd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 20/23] fix: damaged satellite-table records terminated the
 process or gave invented channels, and a query after the end of the file
 failed

---
 src/bern_utils.cpp | 59 ++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 704763e..6563cf5 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -1,6 +1,8 @@
 #include "bern_utils.hpp"
 #include "ggdatetime/datetime_read.hpp"
 #include <cassert>
+#include <cerrno>
+#include <cstdlib>
 #include <cstring>
 #include <stdexcept>
 #ifdef DEBUG
@@ -47,39 +49,61 @@ int ngpt::BernSatellit::get_frequency_channel(
   if (!__istream.is_open())
     return 1;
 
-  // Go to the top of the relevant field (in file)
+  // Go to the top of the relevant field (in file); an earlier call may have
+  // reached the end of the file.
+  __istream.clear();
   __istream.seekg(__part2);
 
   // keep reading untill we match svn and epoch
   int line_count = 0, csvn;
-  char *end;
-  bool satellite_matched = false;
+  char *end, date[20] = {'\0'};
   ngpt::datetime<ngpt::seconds> start, stop;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
-  while (!satellite_matched && line_count < max_lines) {
+  errno = 0;
+  while (line_count < max_lines) {
+    if (!__istream.getline(line, MAX_SATELLIT_CHARS))
+      return __istream.eof() ? (-1) : 5;
+    ++line_count;
+    // check for end of records
+    const std::size_t length = std::strlen(line);
+    if (length < 10 || !std::strncmp("PART 3", line, 6))
+      return -1;
     // we are only interested in satellites of type: 'MW' everything else
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
     if (line[5] == 'M' && line[6] == 'W') {
+      // the SVN field extends up to the NUMBER field (column 33)
+      if (length < 33)
+        return 2;
       csvn = static_cast<int>(std::strtol(line + 28, &end, 10));
-      if (errno == ERANGE || end == line + 28) {
+      if (errno == ERANGE || end == line + 28 || end > line + 33) {
         errno = 0;
         return 2;
       }
       if (csvn == svn) {
-        start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
-        stop = ngpt::datetime<ngpt::seconds>::max();
-        for (int i = 62; i < 82; i++) {
-          if (line[i] != ' ') {
-            stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
-            break;
+        // the record must reach the frequency channel
+        if (length < 194)
+          return 3;
+        try {
+          // (each date has its own 19 columns)
+          std::memcpy(date, line + 41, 19);
+          start = ngpt::strptime_ymd_hms<ngpt::seconds>(date);
+          stop = ngpt::datetime<ngpt::seconds>::max();
+          for (int i = 62; i < 82; i++) {
+            if (line[i] != ' ') {
+              std::memcpy(date, line + 62, 19);
+              stop = ngpt::strptime_ymd_hms<ngpt::seconds>(date);
+              break;
+            }
           }
+        } catch (std::exception &) {
+          errno = 0;
+          return 4;
         }
         if (eph >= start && eph < stop) {
-          satellite_matched = true;
           prn = static_cast<int>(std::strtol(line, &end, 10));
+          bool no_number = (end == line);
           ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
-          if (errno == ERANGE) {
+          if (no_number || end == line + 193 || errno == ERANGE) {
             errno = 0;
             // throw std::runtime_error("[ERROR] Failed to resolve svn from
             // SATELLIT file");
@@ -90,14 +114,9 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
       }
     }
-    __istream.getline(line, MAX_SATELLIT_CHARS);
-    ++line_count;
-    // check for end of records
-    if (std::strlen(line) < 10 || !std::strncmp("PART 3", line, 6))
-      return -1;
   }
 
-  return (line_count >= max_lines) ? (-1) : 5;
+  return -1;
 }
 
 /// This function should only be called once, inside the object's constructor.
-- 
2.43.0


From 2502a6f292436d24e342a7dc73114411324b5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 21/23] fix: ANTEX lookups returned a default antenna when
 nothing matched, hung or terminated the process on incomplete or damaged
 files, and carried satellite data over

---
 src/antex.cpp | 94 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 36 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 74b2de7..a63cdb9 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -51,6 +51,16 @@ int resolve_satellite_antenna_line(const char *, Satellite &) noexcept;
 int check_time_interval(std::ifstream &,
                         const ngpt::datetime<ngpt::seconds> &) noexcept;
 
+/// Read a line into a buffer and clear the rest of it, so that the label
+/// columns (60 and after) of a line that is too short or missing are empty.
+static std::ifstream &read_line(std::ifstream &fin, char *line,
+                                std::size_t size) noexcept {
+  fin.getline(line, size);
+  const std::size_t length = std::strlen(line);
+  std::memset(line + length, 0, size - length);
+  return fin;
+}
+
 /// @details Antex Constructor, using an antex filename. The constructor will
 ///          initialize (set) the _filename attribute and also (try to)
 ///          open the input stream (i.e. _istream).
@@ -123,7 +133,7 @@ int Antex::read_header() noexcept {
 
   // Read the first line. Get version and system.
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  read_line(__istream, line, MAX_HEADER_CHARS);
   // strtod will keep on reading untill a non-valid
   // char is read. Fuck this, lets split the string
   // so that it only reads the valid chars (for version).
@@ -146,7 +156,7 @@ int Antex::read_header() noexcept {
   // Read the second line. Get PCV TYPE / REFANT.
   // If the atx is of type relative, then just return with error
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  read_line(__istream, line, MAX_HEADER_CHARS);
   if (*line != 'A') {
     return 12;
   }
@@ -154,13 +164,13 @@ int Antex::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
-  while (dummy_it < MAX_HEADER_LINES &&
+  read_line(__istream, line, MAX_HEADER_CHARS);
+  while (__istream && dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    read_line(__istream, line, MAX_HEADER_CHARS);
     dummy_it++;
   }
-  if (dummy_it >= MAX_HEADER_LINES) {
+  if (!__istream || dummy_it >= MAX_HEADER_LINES) {
     return 20;
   }
 
@@ -205,7 +215,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the first line. Should be "START OF ANTENNA"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!read_line(__istream, line, MAX_HEADER_CHARS) ||
       std::strncmp(line + 60, "START OF ANTENNA", 16)) {
     if (__istream.eof()) {
       __istream.clear();
@@ -216,7 +226,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the next line. Should be "TYPE / SERIAL NO"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!read_line(__istream, line, MAX_HEADER_CHARS) ||
       std::strncmp(line + 60, "TYPE / SERIAL NO", 16)) {
     return 11;
   }
@@ -252,12 +262,12 @@ int Antex::skip_rest_of_antenna() noexcept {
 
   int dummy_it = 0;
   do {
-    __istream.getline(line, MAX_GRID_CHARS);
+    read_line(__istream, line, MAX_GRID_CHARS);
     dummy_it++;
-  } while (std::strncmp(line + 60, "END OF ANTENNA", 14) &&
+  } while (__istream && std::strncmp(line + 60, "END OF ANTENNA", 14) &&
            dummy_it < max_antenna_lines);
 
-  if (dummy_it >= max_antenna_lines) {
+  if (!__istream || dummy_it >= max_antenna_lines) {
     return 1;
   }
 
@@ -282,11 +292,13 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
                                       ReceiverAntenna &ant_out,
                                       pos_type &ant_pos) noexcept {
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant, best_match_ant;
   pos_type best_match_pos;
-  int stat1, stat2;
+  bool model_matched = false;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant))) {
     if (cur_ant.is_same(ant_in)) {
@@ -297,6 +309,7 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
     if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {
       best_match_ant = cur_ant;
       best_match_pos = __istream.tellg();
+      model_matched = true;
     }
     if ((stat2 = skip_rest_of_antenna()))
       break;
@@ -305,6 +318,10 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
   if (stat1 > 0 || stat2) {
     return 1;
   }
+  // nothing matched
+  if (!model_matched) {
+    return 1;
+  }
   ant_out = best_match_ant;
   ant_pos = best_match_pos;
   return 0;
@@ -413,7 +430,7 @@ int check_time_interval(std::ifstream &fin,
   int max_lines = 5000;
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(line, MAX_GRID_CHARS) ||
+  if (!read_line(fin, line, MAX_GRID_CHARS) ||
       std::strncmp(line + 60, "METH / BY / # / DATE", 20)) {
     return 10;
   }
@@ -422,7 +439,7 @@ int check_time_interval(std::ifstream &fin,
   bool from_ok = false, to_ok = false;
   ngpt::datetime<ngpt::seconds> from, to;
   do {
-    fin.getline(line, MAX_GRID_CHARS);
+    read_line(fin, line, MAX_GRID_CHARS);
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
       try {
         from = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
@@ -440,8 +457,8 @@ int check_time_interval(std::ifstream &fin,
     }
     if (from_ok && to_ok)
       break;
-  } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
-           dummy_it < max_lines);
+  } while (fin && std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
+           ++dummy_it < max_lines);
   // do not use the following check
   // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
   // max_lines); cause this may leave the stream just after the line "END OF
@@ -449,7 +466,7 @@ int check_time_interval(std::ifstream &fin,
   // will cause a whole antenna record block to be skipped. This was indeed a
   // bug (for the function find_satellite_antenna()
 
-  if (++dummy_it >= max_lines) {
+  if (!fin || dummy_it >= max_lines) {
     return 20;
   }
 
@@ -489,17 +506,18 @@ int check_time_interval(std::ifstream &fin,
 int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
                                   const ngpt::datetime<ngpt::seconds> &at,
                                   pos_type &ant_pos, Satellite *sv) noexcept {
-  char line[MAX_HEADER_CHARS];
+  char line[MAX_HEADER_CHARS] = {'\0'};
 
   // go to the top of the file, after the header
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
   Satellite cur_sat;
-  int stat1, stat2;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
-    cur_sat.system() = SATELLITE_SYSTEM::mixed;
+    cur_sat = Satellite();
     ant_pos = __istream.tellg();
     if (!resolve_satellite_antenna_line(line, cur_sat)) {
       if (cur_sat.prn() == prn && cur_sat.system() == ss) {
@@ -692,27 +710,27 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   char tmp[11];
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!read_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "METH / BY / # / DATE", 20)) {
     return 1;
   }
 
   // next field is 'DAZI'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!read_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "DAZI", 4)) {
     // dazi = std::stof(hline+2, nullptr);
     return 2;
   }
 
   // next field is 'ZEN1 / ZEN2 / DZEN'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!read_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "ZEN1 / ZEN2 / DZEN", 18)) {
     return 3;
   }
 
   // next field is '# OF FREQUENCIES'
   int num_of_freqs = 0;
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!read_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "# OF FREQUENCIES", 16)) {
     return 4;
   } else {
@@ -726,7 +744,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   // From here up untill the block 'START OF FREQUENCY' there can be a number
   // of optional fields.
   do {
-    fin.getline(hline, MAX_HEADER_CHARS);
+    read_line(fin, hline, MAX_HEADER_CHARS);
   } while (fin && std::strncmp(hline + 60, "START OF FREQUENCY", 18));
 
   ngpt::SATELLITE_SYSTEM ss;
@@ -739,9 +757,9 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       // wait!! this might be a frequency rms from the previous frequency
       if (!std::strncmp(hline + 60, "START OF FREQ RMS", 17)) {
         do {
-          fin.getline(gline, MAX_GRID_CHARS);
+          read_line(fin, gline, MAX_GRID_CHARS);
         } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15));
-        if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+        if (!read_line(fin, hline, MAX_HEADER_CHARS) ||
             std::strncmp(hline + 60, "START OF FREQUENCY", 18)) {
           return 11;
         }
@@ -758,15 +776,19 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     }
     obsc.band() = bn;
     // next field is 'NORTH / EAST / UP'
-    if (fin.getline(hline, MAX_HEADER_CHARS) &&
+    if (read_line(fin, hline, MAX_HEADER_CHARS) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
-      std::memcpy(tmp, hline, 10);
-      dn = std::stod(tmp);
-      std::memcpy(tmp, hline + 10, 10);
-      de = std::stod(tmp);
-      std::memcpy(tmp, hline + 20, 10);
-      du = std::stod(tmp);
+      try {
+        std::memcpy(tmp, hline, 10);
+        dn = std::stod(tmp);
+        std::memcpy(tmp, hline + 10, 10);
+        de = std::stod(tmp);
+        std::memcpy(tmp, hline + 20, 10);
+        du = std::stod(tmp);
+      } catch (std::exception &) {
+        return 7;
+      }
     } else {
       return 7;
     }
@@ -774,10 +796,10 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     pco_list.__vecref__().emplace_back(obsc, ss, dn, de, du);
     // skip lines until "END OF FREQUENCY"
     do {
-      fin.getline(gline, MAX_GRID_CHARS);
+      read_line(fin, gline, MAX_GRID_CHARS);
     } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
     // read the following line into hline
-    fin.getline(hline, MAX_HEADER_CHARS);
+    read_line(fin, hline, MAX_HEADER_CHARS);
   }
 
   return 0;
-- 
2.43.0


From 36115f03178cb012fb831fc8dc4c06c7264ec167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:55 +0000
Subject: [PATCH 22/23] fix: read SP3 records from their own columns and report
 truncated files

A position line that ends before its clock, an epoch line that is cut and
columns a line does not have were read from uninitialised or stale parts of
the buffer; numbers ran into the next field when no blank separates them; a
file without EOF line was read forever; a stale errno rejected good lines;
nonexistent dates terminated the program; more satellites than the header
says were written behind the vector; rewind() did nothing once the end of the
file was reached; start epochs whose fraction of the day is rounded were
rejected; the orbit prediction flag of column 80 is P, not E.
---
 src/sp3c.cpp | 113 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 80 insertions(+), 33 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c239596..798e415 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -2,6 +2,7 @@
 #include "ggdatetime/datetime_read.hpp"
 #include <algorithm>
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -19,6 +20,22 @@ constexpr int MAX_HEADER_LINES{1000};
 /// Max record characters (for a navigation data block)
 constexpr int MAX_RECORD_CHARS{128};
 
+/// Minimum length of an epoch line (up to and including the seconds)
+constexpr std::size_t EPOCH_CHARS{31};
+
+/// Minimum length of a position & clock line (up to and including the clock)
+constexpr std::size_t POSITION_CHARS{60};
+
+/// Read a line into a buffer and clear the rest of it, so that columns a line
+/// does not have are empty.
+static std::ifstream &read_line(std::ifstream &fin, char *line,
+                                std::size_t size) noexcept {
+  fin.getline(line, size);
+  const std::size_t length = std::strlen(line);
+  std::memset(line + length, 0, size - length);
+  return fin;
+}
+
 /// @details Sp3c constructor, using a filename. The constructor will
 ///          initialize (set) the _filename attribute and also (try to)
 ///          open the input stream (i.e. _istream).
@@ -38,6 +55,8 @@ Sp3c::Sp3c(const char *filename)
 }
 
 void Sp3c::rewind(pos_type pos) noexcept {
+  // an earlier read may have reached the end of the file
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
@@ -60,10 +79,11 @@ int Sp3c::read_header() noexcept {
 
   // Go to the top of the file.
   __istream.seekg(0);
+  errno = 0;
 
   // Read the first line. Error codes 10-19
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  read_line(__istream, line, MAX_HEADER_CHARS);
   if (*line != '#')
     return 10; // validate version
   version__ = *(line + 1);
@@ -103,17 +123,23 @@ int Sp3c::read_header() noexcept {
   }
   crd_sys__ = std::string(line + 46, 5);
   orb_type__ = std::string(line + 52, 3);
-  agency__ = std::string(line + 56, 3);
+  agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
-  start_epoch__ = ngpt::datetime<ngpt::microseconds>(
-      ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
-      ngpt::hours(hour), ngpt::minutes(minute),
-      ngpt::microseconds(static_cast<long>(sec * 1e6)));
+  if (!(sec >= 0e0 && sec <= 61e0))
+    return 17;
+  try {
+    start_epoch__ = ngpt::datetime<ngpt::microseconds>(
+        ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
+        ngpt::hours(hour), ngpt::minutes(minute),
+        ngpt::microseconds(static_cast<long>(sec * 1e6)));
+  } catch (std::exception &) {
+    return 18;
+  }
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  read_line(__istream, line, MAX_HEADER_CHARS);
   if (*line != '#' || line[1] != '#')
     return 20;
   int gwk = std::strtol(line + 3, &str_end, 10);
@@ -138,7 +164,8 @@ int Sp3c::read_header() noexcept {
   }
   sec = std::strtod(line + 45, &str_end);
   sec += mjd;
-  if (sec != start_epoch__.as_mjd()) {
+  // (the fraction of the day has a limited number of digits)
+  if (!(std::abs(sec - start_epoch__.as_mjd()) < 1e-9)) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 24;
   }
@@ -148,16 +175,16 @@ int Sp3c::read_header() noexcept {
   // '++'
   // Error code [10,40]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  read_line(__istream, line, MAX_HEADER_CHARS);
   if (*line != '+' || line[1] != ' ')
     return 30;
   num_sats__ = std::strtol(line + 3, &str_end, 10);
-  if (!num_sats__ || errno == ERANGE) {
+  if (num_sats__ <= 0 || errno == ERANGE) {
     errno = 0;
     return 31;
   }
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "+ ", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    read_line(__istream, line, MAX_HEADER_CHARS);
   }
   if (dummy_it >= MAX_HEADER_LINES) {
     return 32;
@@ -167,11 +194,11 @@ int Sp3c::read_header() noexcept {
   // no max limitation for the Sp3d files. Each satellite id line starts with '+
   // ' Error code [40,50]
   // ------------------------------------------------------------
-  // __istream.getline(line, MAX_HEADER_CHARS);
+  // read_line(__istream, line, MAX_HEADER_CHARS);
   if (*line != '+' || line[1] != '+')
     return 40;
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "++", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    read_line(__istream, line, MAX_HEADER_CHARS);
     char c = __istream.peek();
     if (c != '+')
       break;
@@ -183,18 +210,18 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%c'; collect the system time
   // Error code [50,60]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  read_line(__istream, line, MAX_HEADER_CHARS);
   if (*line != '%' || line[1] != 'c')
     return 50;
   time_sys__ = std::string(line + 9, 3);
-  __istream.getline(line, MAX_HEADER_CHARS);
+  read_line(__istream, line, MAX_HEADER_CHARS);
   if (*line != '%' || line[1] != 'c')
     return 51;
 
   // two line follow, starting with '%f'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    read_line(__istream, line, MAX_HEADER_CHARS);
     if (*line != '%' || line[1] != 'f')
       return 60;
   }
@@ -202,7 +229,7 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%i'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    read_line(__istream, line, MAX_HEADER_CHARS);
     if (*line != '%' || line[1] != 'i')
       return 70;
   }
@@ -211,7 +238,7 @@ int Sp3c::read_header() noexcept {
   // ------------------------------------------------------------
   char c = __istream.peek();
   while (c == '/') {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    read_line(__istream, line, MAX_HEADER_CHARS);
     if (line[1] != '*')
       return 80;
     c = __istream.peek();
@@ -249,34 +276,41 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (!__istream.good())
     return 1;
-  __istream.getline(line, MAX_RECORD_CHARS);
+  read_line(__istream, line, MAX_RECORD_CHARS);
+  errno = 0;
 
   if (line[0] != '*' || line[1] != ' ')
     return 2;
+  if (std::strlen(line) < EPOCH_CHARS)
+    return 3;
   date[0] = std::strtol(line + 3, &end, 10);
-  if (!date[0] || errno == ERANGE) {
+  if (!date[0] || errno == ERANGE || end > line + 7) {
     errno = 0;
     return 5;
   }
   start = line + 8;
   for (int i = 1; i < 5; i++) {
     date[i] = std::strtol(start, &end, 10);
-    if (errno == ERANGE || end == start) {
+    if (errno == ERANGE || end == start || end > start + 2) {
       errno = 0;
       return 5 + i;
     }
     start += 3;
   }
   double fsec = std::strtod(start, &end);
-  if (errno == ERANGE || end == start) {
+  if (errno == ERANGE || end == start || !(fsec >= 0e0 && fsec <= 61e0)) {
     errno = 0;
     return 11;
   }
 
-  t = ngpt::datetime<ngpt::microseconds>(
-      ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
-      ngpt::hours(date[3]), ngpt::minutes(date[4]),
-      ngpt::microseconds(static_cast<long>(fsec * 1e6)));
+  try {
+    t = ngpt::datetime<ngpt::microseconds>(
+        ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
+        ngpt::hours(date[3]), ngpt::minutes(date[4]),
+        ngpt::microseconds(static_cast<long>(fsec * 1e6)));
+  } catch (std::exception &) {
+    return 12;
+  }
 
   ngpt::SATELLITE_SYSTEM sys;
   int prn, j = 0;
@@ -295,8 +329,14 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   do {
     c = __istream.peek();
     if (c != '*') {
-      __istream.getline(line, MAX_RECORD_CHARS);
-      if (*line == 'P') { /* position and clock line */
+      if (!read_line(__istream, line, MAX_RECORD_CHARS)) {
+        if (!__istream.eof())
+          return 13; /* a line that is too long */
+        keep_reading = false; /* no EOF line */
+        j = -1;
+      } else if (*line == 'P') { /* position and clock line */
+        if (it == vec.end())
+          return 14; /* more satellites than the header says */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
@@ -330,26 +370,33 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
                             std::array<double, 4> &state,
                             Sp3Flag &flag) noexcept {
   char *end, *start;
+  char number[15]; // (fields may not be separated by blanks)
   flag.reset();
 
   if (*line != 'P')
     return 2;
+  if (std::strlen(line) < POSITION_CHARS)
+    return 9;
 
   try {
     s = ngpt::char_to_satsys(line[1]);
   } catch (std::runtime_error &e) {
     return 3;
   }
-  prn = std::strtol(line + 2, &end, 10);
-  if (errno == ERANGE || end == line + 2) {
+  std::memcpy(number, line + 2, 2);
+  number[2] = '\0';
+  prn = std::strtol(number, &end, 10);
+  if (errno == ERANGE || end == number) {
     errno = 0;
     return 4;
   }
 
   start = line + 4;
   for (int i = 0; i < 4; i++) {
-    state[i] = std::strtod(start, &end);
-    if (errno == ERANGE || end == start) {
+    std::memcpy(number, start, 14);
+    number[14] = '\0';
+    state[i] = std::strtod(number, &end);
+    if (errno == ERANGE || end == number) {
       errno = 0;
       return 5 + i;
     }
@@ -372,7 +419,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     flag.set(Sp3Event::clock_prediction);
   if (line[78] == 'M')
     flag.set(Sp3Event::maneuver);
-  if (line[79] == 'E')
+  if (line[79] == 'P')
     flag.set(Sp3Event::orbit_prediction);
 
   return 0;
-- 
2.43.0


From 31853b00b0f1f1bfa984d3e6eb045bc303b1db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:27 +0000
Subject: [PATCH 23/23] fix: observation files: combinations with a missing
 component, trimmed values, full header lines, short buffers and damaged
 records were read wrongly or terminated the process

---
 src/obsrnx.cpp | 158 ++++++++++++++++++++++++++++++-------------------
 src/obsrnx.hpp |   9 ++-
 2 files changed, 104 insertions(+), 63 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ef2740a..234765e 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -31,6 +31,16 @@ const std::size_t eoh_size{std::strlen("END OF HEADER")};
 constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 #endif
 
+/// Read a (header) line into a buffer and clear the rest of it, so that columns
+/// a line does not have are empty.
+static std::ifstream &read_line(std::ifstream &fin, char *line,
+                                std::size_t size) noexcept {
+  fin.getline(line, size);
+  const std::size_t length = std::strlen(line);
+  std::memset(line + length, 0, size - length);
+  return fin;
+}
+
 /// Resolve a RINEX observation using the relative string; this string, of type:
 /// (F14.3 I1 I1) is resolved as:
 /// F14.3 -> the actual value of the observation (if empty use the
@@ -54,12 +64,18 @@ constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 ///                any of the ints can be blank)
 int RawRnxObs__::resolve(char *str) noexcept {
   char *end;
+  __lli = __ssi = 0;
   if (string_is_empty(str, 14)) {
     __val = RNXOBS_MISSING_VAL;
     return 0;
   }
-  __val = std::strtod(str, &end);
-  if (errno || str == end) {
+  // (the indicators follow immediately)
+  char number[15];
+  std::memcpy(number, str, 14);
+  number[14] = '\0';
+  errno = 0;
+  __val = std::strtod(number, &end);
+  if (errno || number == end || !string_is_empty(end)) {
     errno = 0;
     return 1;
   }
@@ -89,18 +105,15 @@ ObservationRnx::ObservationRnx(const char *filename)
         std::to_string(j));
   }
   std::size_t maxobs = this->max_obs();
-  __buf_sz = maxobs * 16 + 4;
-  __buf = new char[__buf_sz];
+  // epoch lines can be longer than satellite records
+  __buf_sz = std::max<std::size_t>(maxobs * 16 + 4, MAX_HEADER_CHARS);
+  __buf.reset(new char[__buf_sz]);
 }
 
-/// Destructor; close the stream and delete the allocated buffer
+/// Destructor; close the stream
 ObservationRnx::~ObservationRnx() noexcept {
   if (__istream.is_open())
     __istream.close();
-  if (__buf) {
-    __buf_sz = 0;
-    delete[] __buf;
-  }
 }
 
 /// Loop through the observables of every satellite system, and return the
@@ -170,10 +183,11 @@ int ObservationRnx::read_header() noexcept {
 
   // Go to the top of the file.
   __istream.seekg(0);
+  errno = 0;
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  read_line(__istream, line, MAX_HEADER_CHARS);
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -190,10 +204,10 @@ int ObservationRnx::read_header() noexcept {
   int dummy_it = 0;
   std::size_t szt;
   char *end;
-  __istream.getline(line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    if (!read_line(__istream, line, MAX_HEADER_CHARS))
+      return 21; // no END OF HEADER, or a line that is too long
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
       __marker_name = ngpt::rtrim(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
@@ -230,7 +244,7 @@ int ObservationRnx::read_header() noexcept {
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              std::strlen("RCV CLOCK OFFS APPL"))) {
       int i = std::strtol(line, &end, 10);
-      if ((errno || (line + 3) == end) || (i != 0 && i != 1)) {
+      if ((errno || line == end) || (i != 0 && i != 1)) {
         errno = 0;
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"RCV CLOCK OFFS APPL\"";
@@ -248,7 +262,7 @@ int ObservationRnx::read_header() noexcept {
                              std::strlen("TIME OF FIRST OBS"))) {
       try {
         __epoch_start = ngpt::strptime_ymd_hms<ngpt::microseconds>(line);
-      } catch (std::invalid_argument &e) {
+      } catch (std::exception &e) {
         std::cerr << "\n[ERROR] " << e.what();
         return 61;
       }
@@ -289,7 +303,15 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
 
   char *end;
   std::vector<ngpt::ObservationCode> obsvec;
-  auto satsys = ngpt::char_to_satsys(line[0]);
+  SATELLITE_SYSTEM satsys;
+  try {
+    satsys = ngpt::char_to_satsys(line[0]);
+  } catch (std::exception &e) {
+    std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
+                 "field: \"SYS / # / OBS TYPES\"";
+    std::cerr << "\n        Fatal while resolving the satellite system";
+    return 5;
+  }
   if (__obstmap.find(satsys) != __obstmap.end()) {
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
@@ -297,7 +319,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     return 1;
   }
   int obsnum = std::strtol(line + 3, &end, 10);
-  if (errno || (line + 3) == end) {
+  if (errno || (line + 3) == end || obsnum <= 0) {
     errno = 0;
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
@@ -319,9 +341,11 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     }
     ++resolved;
     ++vecsz;
-    if (resolved == 13) {
-      __istream.getline(line, MAX_HEADER_CHARS);
-      if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
+    if (resolved == 13 && vecsz < obsnum) {
+      read_line(__istream, line, MAX_HEADER_CHARS);
+      // (a continuation line has no satellite system)
+      if (line[0] != ' ' ||
+          std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"SYS / # / OBS TYPES\"";
@@ -377,29 +401,34 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   // resolve the day as Modified Julian Day
   char *end;
-  const char *start = cline + 2;
+  // columns of year, month, day, hours, minutes and seconds
+  const int col[] = {2, 7, 10, 13, 16, 18};
   int dints[5];
+  errno = 0;
   for (int i = 0; i < 5; i++) {
+    const char *start = cline + col[i];
     dints[i] = static_cast<int>(std::strtol(start, &end, 10));
-    if (errno || start == end) {
+    if (errno || start == end || end > cline + col[i + 1]) {
       std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
                    "to resolve epoch";
       std::cerr << "\n        Line was: \"" << cline << "\"";
       errno = 0;
       return 2;
     }
-    start = ++end;
   }
-#ifdef DEBUG
-  day_of_month dom(dints[2]);
-  assert(dom.is_valid(year(dints[0]), month(dints[1])));
-#endif
-  mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
-                                  day_of_month(dints[2]));
+  try {
+    mjd = ngpt::modified_julian_day(year(dints[0]), month(dints[1]),
+                                    day_of_month(dints[2]));
+  } catch (std::exception &) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() invalid "
+                 "date";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 6;
+  }
 
   // resolve seconds of day
-  double rsec = std::strtod(start, &end);
-  if (errno || start == end) {
+  double rsec = std::strtod(cline + col[5], &end);
+  if (errno || cline + col[5] == end || end > cline + 29) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve seconds";
     std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -413,7 +442,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   // resolve num of satellites in epoch
   num_sats = static_cast<int>(std::strtol(cline + 32, &end, 10));
-  if (errno || start == end) {
+  if (errno || cline + 32 == end || end > cline + 35 || num_sats < 0) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -422,10 +451,10 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   }
 
   // resolve clock offset if any
-  if (lnlen > 41) {
-    rcvr_coff =
-        string_is_empty(cline + 41) ? 0e0 : std::strtod(cline + 41, &end);
-    if (errno || start == end) {
+  rcvr_coff = 0e0;
+  if (lnlen > 41 && !string_is_empty(cline + 41)) {
+    rcvr_coff = std::strtod(cline + 41, &end);
+    if (errno || cline + 41 == end) {
       std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed "
                    "to resolve receiver clock offset";
       std::cerr << "\n        Line was: \"" << cline << "\"";
@@ -760,33 +789,41 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
   assert(vals.size() >= sysobs.size());
 #endif
 
+  std::size_t len = std::strlen(__buf.get());
+  if (len < 3)
+    return 1;
   std::memset(tbuf, '\0', 17);
-  std::memcpy(tbuf, __buf + 1, 2);
+  std::memcpy(tbuf, __buf.get() + 1, 2);
+  errno = 0;
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
     return 1;
 
   RawRnxObs__ raw_obs;
   int k = 0;
-  std::size_t len = std::strlen(__buf);
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
+    bool missing = false;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
-      if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, __buf + idx, 16);
-        if (raw_obs.resolve(tbuf))
-          return 2;
-        if (raw_obs.__val != RNXOBS_MISSING_VAL) {
-          obsval += raw_obs.__val * pr.second;
-        } else {
-          --status;
-          obsval = RNXOBS_MISSING_VAL;
-        }
+      // blanks at the end of the line may be missing
+      std::memset(tbuf, ' ', 16);
+      if (len > idx)
+        std::memcpy(tbuf, __buf.get() + idx,
+                    std::min<std::size_t>(len - idx, 16));
+      if (len < idx + 14 && !string_is_empty(tbuf, 14))
+        return 2; // the line ends within the value
+      if (raw_obs.resolve(tbuf))
+        return 2;
+      if (raw_obs.__val != RNXOBS_MISSING_VAL) {
+        obsval += raw_obs.__val * pr.second;
       } else {
-        raw_obs.__val = obsval = RNXOBS_MISSING_VAL;
+        --status;
+        missing = true;
       }
     }
+    if (missing)
+      obsval = RNXOBS_MISSING_VAL;
     vals[k] = obsval;
     ++k;
   }
@@ -848,9 +885,6 @@ int ObservationRnx::collect_epoch(
       std::vector<std::pair<ngpt::Satellite, std::vector<double>>>::iterator;
 
   satscollected = 0;
-#ifdef DEBUG
-  assert(satobs.size() >= (std::size_t)numsats);
-#endif
   SATELLITE_SYSTEM s;
   int sat_it = 0, prn;
   OutputVecIt ovec_it = satobs.begin();
@@ -858,13 +892,14 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    __istream.getline(__buf, __buf_sz);
+    if (!__istream.getline(__buf.get(), __buf_sz))
+      return 1;
     try {
-      s = char_to_satsys(*__buf);
+      s = char_to_satsys(__buf[0]);
     } catch (std::exception &e) {
       std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Failed to "
                    "resolve Satellite System";
-      std::cerr << "\n        Line was: \"" << __buf << "\"";
+      std::cerr << "\n        Line was: \"" << __buf.get() << "\"";
       return 1;
     }
 
@@ -872,6 +907,8 @@ int ObservationRnx::collect_epoch(
     int status = 0;
     mmap_it it = mmap.end();
     if ((it = mmap.find(s)) != mmap.end()) {
+      if (ovec_it == satobs.end())
+        return 1;
       if ((status = sat_epoch_collect(mmap[s], prn, ovec_it->second)) > 0)
         return 1;
       Satellite sat(s, prn);
@@ -937,22 +974,21 @@ int ObservationRnx::read_next_epoch(
   sats = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    __istream.getline(__buf, __buf_sz);
+    __istream.getline(__buf.get(), __buf_sz);
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-    if ((j = __resolve_epoch_304__(__buf, mjd, secofday, flag, num_sats,
+    if ((j = __resolve_epoch_304__(__buf.get(), mjd, secofday, flag, num_sats,
                                    rcvr_coff)))
       return 20 + j;
     // resolve observation block
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
+    // (the last line may end without a newline)
+    return 0;
   }
-  if (__istream.eof()) {
-    __istream.clear();
-    return -1;
-  }
-  return 0;
+  __istream.clear();
+  return -1;
 }
 
 /// This function will return a vector with a big enough size to read all epochs
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 996437b..3be04e8 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -8,6 +8,7 @@
 #include "satsys.hpp"
 #include <fstream>
 #include <map>
+#include <memory>
 #include <vector>
 #ifdef DEBUG
 #include "ggdatetime/datetime_write.hpp"
@@ -57,7 +58,11 @@ public:
       std::is_nothrow_move_assignable<std::ifstream>::value) = default;
 
   /// @brief Set the stream to end of header
-  void rewind() noexcept { __istream.seekg(__end_of_head); }
+  void rewind() noexcept {
+    // an earlier read may have reached the end of the file
+    __istream.clear();
+    __istream.seekg(__end_of_head);
+  }
 
   /// @brief Max observables of any satellite system
   int max_obs() const noexcept;
@@ -168,7 +173,7 @@ private:
   std::map<SATELLITE_SYSTEM, std::vector<ObservationCode>> __obstmap;
   ///< A char buffer which can hold an observation line
   ///< with maximum number of observables
-  char *__buf{nullptr};
+  std::unique_ptr<char[]> __buf;
   ///< Length of __buf, aka length of maximum observation
   ///< line in file (this->max_obs()*16+4)
   std::size_t __buf_sz{0};
-- 
2.43.0

