From 9c038b6b7d4d8bbccda2d24443e65feda2fda66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 01/84] fix: two-vector quaternion constructor picks a
 well-defined axis for (anti)parallel vectors

The inner product of exactly antiparallel vectors rounds to values such as
-1 + 2.2e-16, which the DBL_EPSILON threshold does not cover. The rotation axis
was then the normalised rounding error of the outer product, so the resulting
rotation did not map the first vector onto the second.
---
 src/math_physics/math/quaternion.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/math/quaternion.cpp b/src/math_physics/math/quaternion.cpp
index d2f28f0..aa242ac 100644
--- a/src/math_physics/math/quaternion.cpp
+++ b/src/math_physics/math/quaternion.cpp
@@ -34,12 +34,15 @@ Quaternion::Quaternion(const Vector<3>& vector_before, const Vector<3>& vector_a
   // outer product (rotation rotation_axis for converting vector_before to vector_after)
   Vector<3> op = OuterProduct(normalized_v_before, normalized_v_after);
 
-  if (ip > 1.0 - DBL_EPSILON) {  // if theta=0, then rotation is not need
+  // The outer product is dominated by rounding errors when the vectors are (anti)parallel within this threshold
+  const double parallel_threshold = 100.0 * DBL_EPSILON;
+
+  if (ip > 1.0 - parallel_threshold) {  // if theta=0, then rotation is not need
     quaternion_[0] = 0.0;
     quaternion_[1] = 0.0;
     quaternion_[2] = 0.0;
     quaternion_[3] = 1.0;
-  } else if (ip < -1.0 + DBL_EPSILON) {
+  } else if (ip < -1.0 + parallel_threshold) {
     // if theta=180deg, the rotation rotation_axis can't be defined, so rotate vector_before manually
     Vector<3> rotation_axis = GenerateOrthogonalUnitVector(vector_before);
     quaternion_[0] = rotation_axis[0], quaternion_[1] = rotation_axis[1], quaternion_[2] = rotation_axis[2], quaternion_[3] = 0.0;
-- 
2.43.0


From 7dea113c1996e3c9fbddae0e54bf804642b35ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 02/84] fix: angle between (anti)parallel vectors is not NaN

The cosine of parallel vectors can round to a value slightly above one, e.g.
for (0.4, 0.9, 0.3) and itself, so acos returned NaN. Clamp it to [-1, 1].
---
 src/math_physics/math/vector_template_functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math_physics/math/vector_template_functions.hpp b/src/math_physics/math/vector_template_functions.hpp
index 9b99003..5ed2ffc 100644
--- a/src/math_physics/math/vector_template_functions.hpp
+++ b/src/math_physics/math/vector_template_functions.hpp
@@ -143,6 +143,9 @@ Vector<N, double> Vector<N, T>::CalcNormalizedVector() const {
 template <size_t N>
 double CalcAngleTwoVectors_rad(const Vector<N, double>& v1, const Vector<N, double>& v2) {
   double cos = InnerProduct(v1, v2) / (v1.CalcNorm() * v2.CalcNorm());
+  // Rounding errors can push the value of (anti)parallel vectors slightly out of the domain of acos
+  if (cos > 1.0) cos = 1.0;
+  if (cos < -1.0) cos = -1.0;
   return acos(cos);
 }
 
-- 
2.43.0


From e65f9a3696c4804a77e70f8f7cc3f438e066f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 03/84] fix: right ascension of the ascending node is found in
 all four quadrants

---
 src/math_physics/orbit/orbital_elements.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/orbital_elements.cpp b/src/math_physics/orbit/orbital_elements.cpp
index d02a324..33bab84 100644
--- a/src/math_physics/orbit/orbital_elements.cpp
+++ b/src/math_physics/orbit/orbital_elements.cpp
@@ -54,7 +54,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
     // We cannot define raan when i = 0
     raan_rad_ = 0.0;
   } else {
-    raan_rad_ = asin(h[0] / sqrt(h[0] * h[0] + h[1] * h[1]));
+    raan_rad_ = atan2(h[0], -h[1]);
   }
   // position in plane
   double x_p_m = position_i_m[0] * cos(raan_rad_) + position_i_m[1] * sin(raan_rad_);
-- 
2.43.0


From 8b1c0acdc4b71764bc122237bf6edb4a948f94af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 04/84] fix: Newton iteration of Kepler's equation starts from
 the mean anomaly

---
 src/math_physics/orbit/kepler_orbit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/kepler_orbit.cpp b/src/math_physics/orbit/kepler_orbit.cpp
index 2f49fd5..929472a 100644
--- a/src/math_physics/orbit/kepler_orbit.cpp
+++ b/src/math_physics/orbit/kepler_orbit.cpp
@@ -87,7 +87,7 @@ double KeplerOrbit::SolveKeplerFirstOrder(const double eccentricity, const doubl
 double KeplerOrbit::SolveKeplerNewtonMethod(const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad,
                                             const int iteration_limit) {
   double u_prev_rad = mean_anomaly_rad;
-  double u_rad = 0.0;
+  double u_rad = mean_anomaly_rad;
 
   for (int i = 0; i < iteration_limit; i++) {
     u_rad -= (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
-- 
2.43.0


From 9137d7760dd7c53ab45c337178bfff53aff3d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 05/84] fix: sum of epoch times carries a fraction of exactly
 one second

---
 src/math_physics/time_system/epoch_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index cee1a40..017e390 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -57,7 +57,7 @@ bool EpochTime::operator<(const EpochTime& right_side) const {
 EpochTime EpochTime::operator+(const EpochTime& right_side) const {
   time_t time_s = this->time_s_ + right_side.GetTime_s();
   double fraction_s = this->fraction_s_ + right_side.GetFraction_s();
-  if (fraction_s > 1.0) {
+  if (fraction_s >= 1.0) {
     fraction_s -= 1.0;
     time_s += 1;
   }
-- 
2.43.0


From 5055ec04049a9b320a46c67aed11c3c791de0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 06/84] fix: altitude of an ECEF position is right on and near
 the poles

---
 src/math_physics/geodesy/geodetic_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/geodesy/geodetic_position.cpp b/src/math_physics/geodesy/geodetic_position.cpp
index b72aa18..29670f0 100644
--- a/src/math_physics/geodesy/geodetic_position.cpp
+++ b/src/math_physics/geodesy/geodetic_position.cpp
@@ -44,7 +44,7 @@ void GeodeticPosition::UpdateFromEcef(const math::Vector<3> position_ecef_m) {
     lat_tmp_rad = AcTan(position_ecef_m[2] + earth_radius_m * c * e2 * sin(phi), r_m);
   } while (fabs(lat_tmp_rad - phi) >= 1E-10);
 
-  altitude_m_ = r_m / cos(lat_tmp_rad) - c * earth_radius_m;
+  altitude_m_ = r_m * cos(lat_tmp_rad) + position_ecef_m[2] * sin(lat_tmp_rad) - earth_radius_m * sqrt(1.0 - e2 * sin(lat_tmp_rad) * sin(lat_tmp_rad));
 
   if (lat_tmp_rad > math::pi_2) lat_tmp_rad -= math::tau;
 
-- 
2.43.0


From 24bf10eb20fe89663631f37814ac97b1689d94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 07/84] fix: shuffled random generator picks a table entry from
 the last draw

---
 ...imal_standard_linear_congruential_generator_with_shuffle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
index 3bdd51d..0deece8 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
@@ -31,7 +31,7 @@ void MinimalStandardLcgWithShuffle::Initialize() {
 MinimalStandardLcgWithShuffle::operator double() {
   double out = mixing_table_[table_position_];
   mixing_table_[table_position_] = minimal_lcg_;  // Compensate next random value
-  table_position_ = (size_t)out * MinimalStandardLcg::kM;
+  table_position_ = (size_t)(out * MinimalStandardLcg::kM);
   table_position_ %= kTableSize;  // y <- [0 : kTableSize-1]
 
   return out;
-- 
2.43.0


From eca3db02644fc12ddb45ef99c6f10fbaa6e71696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 08/84] fix: air density at an altitude of exactly 1000 km is
 not zero

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index f616f67..7b89adf 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -15,7 +15,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   double base_rho_kg_m3;
 
   // scale_height_km values: Ref "ミッション解析と軌道設計の基礎" (in Japanese)
-  if (altitude_km > 1000.0) {
+  if (altitude_km >= 1000.0) {
     scale_height_km = 268.0;
     base_height_km = 1000.0;
     base_rho_kg_m3 = 3.019E-15;
-- 
2.43.0


From 51534289a929c6c4442b1d2c46b61c56450151e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 09/84] fix: Harris-Priester density outside the table is in
 kg/m3 and reads no entry past the end

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 6973caf..b70a947 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -55,8 +55,9 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
   auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
   auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
-  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second;
-  if (min_density_itr == harris_priester_min_density_table.end()) return (min_density_itr->second + max_density_itr->second) / 2.0;
+  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second * 1e-12;  // Unit conversion g/km3 -> kg/m^3
+  if (min_density_itr == harris_priester_min_density_table.end())
+    return (prev(min_density_itr)->second + prev(max_density_itr)->second) / 2.0 * 1e-12;
   min_density_itr = prev(min_density_itr);
   max_density_itr = prev(max_density_itr);
 
-- 
2.43.0


From 935531909e6289121e89e94747a75871b27d681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 10/84] fix: nominal density of the 350 km layer is 9.518E-12
 kg/m3

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index 7b89adf..109e33b 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -50,7 +50,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   } else if (altitude_km >= 350.0 && altitude_km < 400.0) {
     scale_height_km = 53.298;
     base_height_km = 350.0;
-    base_rho_kg_m3 = 9.158E-12;
+    base_rho_kg_m3 = 9.518E-12;
   } else if (altitude_km >= 300.0 && altitude_km < 350.0) {
     scale_height_km = 53.628;
     base_height_km = 300.0;
-- 
2.43.0


From 8493d0328ddfcec8b2a8c113c11f4bedfa3ea311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 11/84] fix: do not read or erase past the end when decoding
 truncated SLIP frames

---
 src/utilities/slip.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities/slip.cpp b/src/utilities/slip.cpp
index b1f0fbb..14db5d8 100644
--- a/src/utilities/slip.cpp
+++ b/src/utilities/slip.cpp
@@ -27,6 +27,11 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
   while (1) {
     fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
     if (fesc_itr == out.end()) break;
+    if (fesc_itr + 1 == out.end()) {
+      // The escaped byte is missing
+      out.erase(fesc_itr);
+      break;
+    }
     // convert
     if (*(fesc_itr + 1) == kSlipTfend_) {
       *(fesc_itr + 1) = kSlipFend_;
@@ -44,6 +49,7 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
 
 std::vector<uint8_t> decode_slip_with_header(const std::vector<uint8_t> in) {
   std::vector<uint8_t> in_without_header = in;
+  if (in_without_header.empty()) return in_without_header;
   in_without_header.erase(in_without_header.begin(), in_without_header.begin() + 1);
   return decode_slip(in_without_header);
 }
-- 
2.43.0


From 64610be04c69127757ce012d7d37c22215b3e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 12/84] fix: copy nothing in endian_memcpy when the size is
 zero

---
 src/utilities/endian.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/utilities/endian.cpp b/src/utilities/endian.cpp
index 6aa2111..c340461 100644
--- a/src/utilities/endian.cpp
+++ b/src/utilities/endian.cpp
@@ -15,12 +15,8 @@ void *endian_memcpy(void *dst, const void *src, size_t size) {
   uint8_t *dst_ = (uint8_t *)dst;
   size_t i;
 
-  if (size > 0) {
-    size--;
-  }
-
-  for (i = 0; i <= size; i++) {
-    *(dst_ + (size - i)) = *(src_ + i);
+  for (i = 0; i < size; i++) {
+    *(dst_ + (size - 1 - i)) = *(src_ + i);
   }
 
   return dst;
-- 
2.43.0


From 5769d5268ffc073a811850e9f35ee58df7f888c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 13/84] fix: keep all the data when the ring buffer is filled
 to its size

---
 src/utilities/ring_buffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utilities/ring_buffer.cpp b/src/utilities/ring_buffer.cpp
index 40aed8a..fc5b9c9 100644
--- a/src/utilities/ring_buffer.cpp
+++ b/src/utilities/ring_buffer.cpp
@@ -12,8 +12,9 @@
 
 namespace s2e::utilities {
 
-RingBuffer::RingBuffer(int buffer_size) : buffer_size_(buffer_size) {
-  buffer_ = new byte[buffer_size];
+// One more byte is allocated to distinguish the full state from the empty state
+RingBuffer::RingBuffer(int buffer_size) : buffer_size_(buffer_size + 1) {
+  buffer_ = new byte[buffer_size_];
   write_pointer_ = 0;
   read_pointer_ = 0;
 }
-- 
2.43.0


From a35006d824845722d3e0b6c3c0955f800154cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 14/84] fix: read and write consecutive registers of the
 addressed I2C device in OnBoardComputer

---
 src/components/real/cdh/on_board_computer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index c661fc6..56a0a32 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -96,7 +96,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    i2c_port->WriteRegister(i2c_address, register_address, data[i]);
+    i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
   return 0;
 }
@@ -104,7 +104,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    data[i] = i2c_port->ReadRegister(register_address, i2c_address);
+    data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
   return 0;
 }
-- 
2.43.0


From 66b29202b43949397e59b46304c2e99eeff7cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 15/84] fix: keep UART commands and telemetry inside the
 component buffers

---
 src/components/base/uart_communication_with_obc.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 74a7f92..7c28efb 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -139,8 +139,9 @@ void UartCommunicationWithObc::InitializeObcComBase() {
 int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const unsigned int rec_size) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   if (offset > rx_buffer_size_) return -1;
-  if (offset + rec_size > rx_buffer_size_) return -1;
-  rx_buffer_.resize(rec_size);
+  if (rec_size > rx_buffer_size_ - offset) return -1;
+  if (rec_size == 0) return 0;  // No read data
+  rx_buffer_.resize(offset + rec_size);
 
   int ret;
   switch (simulation_mode_) {
@@ -161,8 +162,8 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
 int UartCommunicationWithObc::SendTelemetry(const unsigned int offset) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   int tlm_size = GenerateTelemetry();
-  if (offset > rx_buffer_size_) return -1;
-  if (offset + tlm_size > rx_buffer_size_) return -1;
+  if (offset > tx_buffer_size_) return -1;
+  if (offset + tlm_size > tx_buffer_size_) return -1;
 
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-- 
2.43.0


From 0ace34d499b62696f4841e9fc270c1b4dc73a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 16/84] fix: initialize the switch state of power ports which
 have no voltage yet

---
 src/components/ports/power_port.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/ports/power_port.cpp b/src/components/ports/power_port.cpp
index 5671b94..b530ba6 100644
--- a/src/components/ports/power_port.cpp
+++ b/src/components/ports/power_port.cpp
@@ -17,7 +17,7 @@ PowerPort::PowerPort() : kPortId(-1), current_limit_A_(10.0), minimum_voltage_V_
 }
 
 PowerPort::PowerPort(const int port_id, const double current_limit_A)
-    : kPortId(port_id), current_limit_A_(current_limit_A), minimum_voltage_V_(3.3), assumed_power_consumption_W_(0.0) {
+    : kPortId(port_id), current_limit_A_(current_limit_A), minimum_voltage_V_(3.3), assumed_power_consumption_W_(0.0), is_on_(false) {
   Initialize();
 }
 
@@ -25,7 +25,8 @@ PowerPort::PowerPort(const int port_id, const double current_limit_A, const doub
     : kPortId(port_id),
       current_limit_A_(current_limit_A),
       minimum_voltage_V_(minimum_voltage_V),
-      assumed_power_consumption_W_(assumed_power_consumption_W) {
+      assumed_power_consumption_W_(assumed_power_consumption_W),
+      is_on_(false) {
   Initialize();
 }
 
-- 
2.43.0


From 6035d4a975b638016c1f70e8dfb8243d579cf2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 17/84] fix: avoid 0/0 current when a power port without
 consumption is at zero voltage

---
 src/components/ports/power_port.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/ports/power_port.cpp b/src/components/ports/power_port.cpp
index b530ba6..34cb08a 100644
--- a/src/components/ports/power_port.cpp
+++ b/src/components/ports/power_port.cpp
@@ -42,7 +42,7 @@ bool PowerPort::Update(void) {
   // switching
   if (voltage_V_ >= (minimum_voltage_V_ - DBL_EPSILON)) {
     is_on_ = true;
-    current_consumption_A_ = assumed_power_consumption_W_ / voltage_V_;
+    current_consumption_A_ = (assumed_power_consumption_W_ != 0.0) ? assumed_power_consumption_W_ / voltage_V_ : 0.0;
   } else {
     current_consumption_A_ = 0.0;
     is_on_ = false;
-- 
2.43.0


From 2e2d8db1c7802c94ef343c4bb663bb54d8d0c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 18/84] fix: give each reaction wheel its own jitter model

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39965a6..39aa76a 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -209,7 +209,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
   ReactionWheelOde ode_angular_velocity_;  //!< Reaction Wheel OrdinaryDifferentialEquation
 
   // RW jitter
-  ReactionWheelJitter& rw_jitter_;     //!< RW jitter
+  ReactionWheelJitter rw_jitter_;      //!< RW jitter
   bool is_calculated_jitter_ = false;  //!< Flag for calculation of jitter
   bool is_logged_jitter_ = false;      //!< Flag for log output of jitter
 
-- 
2.43.0


From 910b0e1683b075fb817777da9a2758f1e3f7f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 19/84] fix: stop the output torque of a reaction wheel when
 its power is off

---
 src/components/real/aocs/reaction_wheel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 9cdbac4..c0708aa 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -92,7 +92,11 @@ void ReactionWheel::MainRoutine(const int time_count) {
   CalcTorque();
 }
 
-void ReactionWheel::PowerOffRoutine() { drive_flag_ = 0; }
+void ReactionWheel::PowerOffRoutine() {
+  drive_flag_ = 0;
+  output_torque_b_Nm_ *= 0.0;
+  generated_angular_acceleration_rad_s2_ = 0.0;
+}
 
 // Jitter calculation
 void ReactionWheel::FastUpdate() {
-- 
2.43.0


From 2ae190891ddf2385acf0bf2af5e4a8c0862464a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 20/84] fix: do not feed the noise of the previous output back
 into the magnetorquer command

---
 src/components/real/aocs/magnetorquer.cpp | 2 ++
 src/components/real/aocs/magnetorquer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 0ee096e..2dd5e6a 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -67,12 +67,14 @@ void Magnetorquer::MainRoutine(const int time_count) {
 
 void Magnetorquer::PowerOffRoutine() {
   torque_b_Nm_ *= 0.0;
+  target_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_b_Am2_ *= 0.0;
 }
 
 math::Vector<kMtqDimension> Magnetorquer::CalcOutputTorque(void) {
   for (size_t i = 0; i < kMtqDimension; ++i) {
+    output_magnetic_moment_c_Am2_[i] = target_magnetic_moment_c_Am2_[i];
     // Limit Check
     if (output_magnetic_moment_c_Am2_[i] > max_magnetic_moment_c_Am2_[i]) {
       output_magnetic_moment_c_Am2_[i] = max_magnetic_moment_c_Am2_[i];
diff --git a/src/components/real/aocs/magnetorquer.hpp b/src/components/real/aocs/magnetorquer.hpp
index 0ef0a5e..88171e3 100644
--- a/src/components/real/aocs/magnetorquer.hpp
+++ b/src/components/real/aocs/magnetorquer.hpp
@@ -108,7 +108,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
    * @fn SetOutputMagneticMoment_c_Am2
    * @brief Set output magnetic moment in the component frame [Am2]
    */
-  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { output_magnetic_moment_c_Am2_ = mag_moment_c; };
+  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { target_magnetic_moment_c_Am2_ = mag_moment_c; };
 
   /**
    * @fn SetOutputMagneticMoment_b_Am2
@@ -126,6 +126,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
   const int component_id_ = 0;                                     //!< Actuator ID
   const double kConvertNanoT2T = 1.0e-9;                           //!< Constant to convert nT to T
   math::Vector<kMtqDimension> torque_b_Nm_{0.0};                   //!< Output torque in the body fixed frame [Nm]
+  math::Vector<kMtqDimension> target_magnetic_moment_c_Am2_{0.0};  //!< Commanded magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_c_Am2_{0.0};  //!< Output output magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_b_Am2_{0.0};  //!< Output output magnetic moment in the body fixed frame [Am2]
   math::Quaternion quaternion_b2c_{0.0, 0.0, 0.0, 1.0};            //!< Quaternion from body frame to component frame
-- 
2.43.0


From 78bd4f7f261ae7cffb6b7878883607d6b20304b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 21/84] fix: output the star sensor measurement of the
 specified delay when the buffer wraps

---
 src/components/real/aocs/star_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 1ce9315..379b046 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -74,7 +74,7 @@ void StarSensor::Initialize() {
 
   // Decide delay buffer size
   max_delay_ = int(output_delay_ * 2 / step_time_s_);
-  if (max_delay_ <= 0) max_delay_ = 1;
+  if (max_delay_ <= (int)output_delay_) max_delay_ = output_delay_ + 1;
   vector<math::Quaternion> temp(max_delay_);
   delay_buffer_ = temp;
   // Initialize delay buffer
@@ -97,7 +97,7 @@ Quaternion StarSensor::Measure(const environment::LocalCelestialInformation* loc
   if (update_count_ == 0) {
     int hist = buffer_position_ - output_delay_ - 1;
     if (hist < 0) {
-      hist = max_delay_ - 1;
+      hist += max_delay_;
     }
     measured_quaternion_i2c_ = delay_buffer_[hist];
   }
-- 
2.43.0


From 218a1715263470e7ac2d9a5408fc11eb2cdf3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 22/84] fix: keep the exclusion angles of the star sensor valid
 for parallel directions

---
 src/components/real/aocs/star_sensor.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 379b046..2241163 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -204,11 +204,7 @@ std::string StarSensor::GetLogValue() const {
 }
 
 double StarSensor::CalAngleVector_rad(const Vector<3>& vector1, const Vector<3>& vector2) {
-  math::Vector<3> vect1_normal = vector1.CalcNormalizedVector();
-  math::Vector<3> vect2_normal = vector2.CalcNormalizedVector();
-
-  double cosTheta = InnerProduct(vect1_normal, vect2_normal);  // Calc cos value
-  double theta_rad = acos(cosTheta);
+  double theta_rad = CalcAngleTwoVectors_rad(vector1, vector2);
   return theta_rad;
 }
 
-- 
2.43.0


From bbbc365011c2dced03e97b0876396ac1003a42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 23/84] fix: use the angle to the tangent of the Earth as its
 apparent size in the star sensor

---
 src/components/real/aocs/star_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 2241163..834002b 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -155,8 +155,8 @@ int StarSensor::SunJudgement(const math::Vector<3>& sun_b) {
 int StarSensor::EarthJudgement(const math::Vector<3>& earth_b) {
   math::Quaternion q_c2b = quaternion_b2c_.Conjugate();
   math::Vector<3> sight_b = q_c2b.FrameConversion(sight_direction_c_);
-  double earth_size_rad = atan2(environment::earth_equatorial_radius_m,
-                                earth_b.CalcNorm());                      // angles between sat<->earth_center & sat<->earth_edge
+  double earth_size_rad = asin(environment::earth_equatorial_radius_m /
+                               max(earth_b.CalcNorm(), environment::earth_equatorial_radius_m));  // angles between sat<->earth_center & sat<->earth_edge
   double earth_center_angle_rad = CalAngleVector_rad(earth_b, sight_b);   // angles between sat<->earth_center & sat_sight
   double earth_edge_angle_rad = earth_center_angle_rad - earth_size_rad;  // angles between sat<->earth_edge & sat_sight
   if (earth_edge_angle_rad < earth_forbidden_angle_rad_)
-- 
2.43.0


From 59b9f3f7bdaedc624959d5bf3bf7170110c1c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 24/84] fix: judge the sun sensor detection with the current
 illuminance

---
 src/components/real/aocs/sun_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 3745d99..76294d5 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -67,6 +67,7 @@ void SunSensor::Measure() {
 
   sun_direction_true_c_ = quaternion_b2c_.FrameConversion(sun_dir_b);  // Frame conversion from body to component
 
+  CalcSolarIlluminance();
   SunDetectionJudgement();  // Judge the sun is inside the FoV
 
   if (sun_detected_flag_) {
@@ -94,8 +95,6 @@ void SunSensor::Measure() {
     alpha_rad_ = 0.0;
     beta_rad_ = 0.0;
   }
-
-  CalcSolarIlluminance();
 }
 
 void SunSensor::SunDetectionJudgement() {
-- 
2.43.0


From 4afe935f79f953540d9263cbd621030af27b2509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 25/84] fix: initialize the charge current and voltage of the
 battery in its constructors

---
 src/components/real/power/battery.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/real/power/battery.cpp b/src/components/real/power/battery.cpp
index 865c17b..36864bf 100644
--- a/src/components/real/power/battery.cpp
+++ b/src/components/real/power/battery.cpp
@@ -22,7 +22,10 @@ Battery::Battery(const int prescaler, environment::ClockGenerator* clock_generat
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(component_step_time_s) {}
+      compo_step_time_s_(component_step_time_s) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_series, int number_of_parallel, double cell_capacity_Ah,
                  const std::vector<double> cell_discharge_curve_coefficients, double initial_dod, double cc_charge_c_rate, double cv_charge_voltage_V,
@@ -36,7 +39,10 @@ Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_ser
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(0.1) {}
+      compo_step_time_s_(0.1) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(const Battery& obj)
     : Component(obj),
-- 
2.43.0


From b1a99ee1e0ab6de4fbb9e76c247afa9e0910aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 26/84] fix: discharge the battery when the load exceeds its
 maximum power

---
 src/components/real/power/pcu_initial_study.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/components/real/power/pcu_initial_study.cpp b/src/components/real/power/pcu_initial_study.cpp
index 3925522..aef049d 100644
--- a/src/components/real/power/pcu_initial_study.cpp
+++ b/src/components/real/power/pcu_initial_study.cpp
@@ -90,9 +90,9 @@ void PcuInitialStudy::UpdateChargeCurrentAndBusVoltage() {
   for (auto sap : saps_) {
     power_generation += sap->GetPowerGeneration_W();
   }
-  const double current_temp =
-      (-bat_voltage + std::sqrt(bat_voltage * bat_voltage + 4.0 * battery_resistance_Ohm * (power_generation - power_consumption_W_))) /
-      (2.0 * battery_resistance_Ohm);
+  // The battery cannot supply more than the power at the matched load
+  const double discriminant = bat_voltage * bat_voltage + 4.0 * battery_resistance_Ohm * (power_generation - power_consumption_W_);
+  const double current_temp = (-bat_voltage + std::sqrt(std::max(discriminant, 0.0))) / (2.0 * battery_resistance_Ohm);
   if (current_temp >= cc_charge_current_C) {
     if (bat_voltage + cc_charge_current_C * battery_resistance_Ohm < cv_charge_voltage_V) {
       // CC Charge
-- 
2.43.0


From 42cb5104ca2a984b3af4bfc8992c2ac25256f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 27/84] fix: return zero for a time before the first line of
 the CSV scenario

---
 src/components/real/power/csv_scenario_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 54ee31a..33b1e90 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -89,8 +89,8 @@ void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std:
 double CsvScenarioInterface::GetValueFromBuffer(const std::string buffer_name, const double time_query) {
   double output;
   auto itr = buffers_.at(buffer_name).upper_bound(time_query);
+  if (itr == buffers_.at(buffer_name).begin()) return 0;
   itr--;
-  if (itr == buffers_.at(buffer_name).end()) return 0;
   output = itr->second;
   return output;
 }
-- 
2.43.0


From 826e27abe32da43444d7425a9a3a4e6f4ddb12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 28/84] fix: convert the line of sight into the antenna frames
 in the right order

---
 .../real/communication/ground_station_calculator.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index bec0c2f..18ef915 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -79,7 +79,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // GS direction on SC TX antenna frame
   math::Vector<3> sc_to_gs_i = gs_pos_i - sc_pos_i;
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
-  math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
+  math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
   double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
@@ -87,7 +87,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // SC direction on GS RX antenna frame
   math::Vector<3> gs_to_sc_ecef = dynamics.GetOrbit().GetPosition_ecef_m() - ground_station.GetPosition_ecef_m();
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
-  math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
+  math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
   double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
-- 
2.43.0


From 5ac7f8b51a96e12405a6c511fd55e83dfb4d6b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 29/84] fix: keep the antenna angles valid when the line of
 sight is along the antenna axis

---
 .../real/communication/ground_station_calculator.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index 18ef915..715ef29 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -81,7 +81,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
   math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
-  double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
+  double theta_on_sc_antenna_rad = acos(std::max(-1.0, std::min(1.0, gs_direction_on_sc_frame[2])));
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
 
   // SC direction on GS RX antenna frame
@@ -89,7 +89,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
   math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
-  double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
+  double theta_on_gs_antenna_rad = acos(std::max(-1.0, std::min(1.0, sc_direction_on_gs_frame[2])));
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
 
   // Calc CN0
-- 
2.43.0


From 53e40b2b185579b99d31a220c8b71516a6904cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 30/84] fix: tilt the thrust about an axis orthogonal to it for
 the direction error

---
 src/components/real/propulsion/simple_thruster.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 0a63653..e6b7f51 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -125,10 +125,7 @@ double SimpleThruster::CalcThrustMagnitude() {
 math::Vector<3> SimpleThruster::CalcThrustDirection() {
   math::Vector<3> thrust_dir_b_true = thrust_direction_b_;
   if (direction_noise_standard_deviation_rad_ > 0.0 + DBL_EPSILON) {
-    math::Vector<3> ex;  // Fixme: to use outer product to generate orthogonal vector
-    ex[0] = 1.0;
-    ex[1] = 0.0;
-    ex[2] = 0.0;
+    math::Vector<3> ex = math::GenerateOrthogonalUnitVector(thrust_dir_b_true);
     int flag = rand() % 2;
     double make_axis_rot_rad;
     if (flag == 0) {
-- 
2.43.0


From 49308c30d6dfc910493a8edd7c41c798fa669b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 31/84] fix: use a unit rotation axis for the direction error
 of the force and torque generators

---
 src/components/ideal/force_generator.cpp  | 2 ++
 src/components/ideal/torque_generator.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 2104ad4..f564b04 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -100,6 +100,8 @@ math::Quaternion ForceGenerator::GenerateDirectionNoiseQuaternion(math::Vector<3
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis /= norm_rotation_axis;
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index c64478b..e9f9fc3 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -74,6 +74,8 @@ math::Quaternion TorqueGenerator::GenerateDirectionNoiseQuaternion(math::Vector<
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis /= norm_rotation_axis;
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
-- 
2.43.0


From 1bf5caef48a63c8ef1125744654c166966f6e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 32/84] fix: do not truncate half of an odd number of pixels in
 the telescope

---
 src/components/real/mission/telescope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index cf17359..6a3ea80 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -106,8 +106,8 @@ void Telescope::Observe(math::Vector<2>& position_image_sensor, const math::Vect
   double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame
 
   if (abs(arg_x) < x_field_of_view_rad && abs(arg_y) < y_field_of_view_rad) {
-    position_image_sensor[0] = x_number_of_pix_ / 2 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2;
-    position_image_sensor[1] = y_number_of_pix_ / 2 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2;
+    position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2.0;
+    position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2.0;
   } else {  // Return -1 when the body is in the out of FoV
     position_image_sensor[0] = -1;
     position_image_sensor[1] = -1;
-- 
2.43.0


From 2dd82c506d5fa2b9319409eb4f942f379e21436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 33/84] fix: judge whether the ground point is on the telescope
 image with its current position

---
 src/components/real/mission/telescope.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index 6a3ea80..7e908dc 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -165,13 +165,6 @@ void Telescope::ObserveGroundPositionDeviation() {
   if (orbit_ == nullptr) {
     return;
   }
-  // Check if the ground point is in the image sensor
-  if (ground_position_x_image_sensor_ > x_number_of_pix_ || ground_position_y_image_sensor_ > y_number_of_pix_) {
-    ground_position_x_image_sensor_ = -1;
-    ground_position_y_image_sensor_ = -1;
-    return;
-  }
-
   math::Quaternion quaternion_i2b = attitude_->GetQuaternion_i2b();
   math::Vector<3> spacecraft_position_ecef_m = orbit_->GetPosition_ecef_m();
   math::Vector<3> direction_ecef = (initial_ground_position_ecef_m_ - spacecraft_position_ecef_m).CalcNormalizedVector();
@@ -185,6 +178,12 @@ void Telescope::ObserveGroundPositionDeviation() {
   ground_position_x_image_sensor_ = ground_angle_z_rad / x_fov_per_pix_;
   double ground_angle_y_rad = atan2(target_c[1], target_c[0]);
   ground_position_y_image_sensor_ = ground_angle_y_rad / y_fov_per_pix_;
+
+  // Check if the ground point is in the image sensor
+  if (ground_position_x_image_sensor_ > x_number_of_pix_ || ground_position_y_image_sensor_ > y_number_of_pix_) {
+    ground_position_x_image_sensor_ = -1;
+    ground_position_y_image_sensor_ = -1;
+  }
 }
 
 std::string Telescope::GetLogHeader() const {
-- 
2.43.0


From 5d72ade71a9c67012695b744a31ba06bec7d7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:00 +0000
Subject: [PATCH 34/84] fix: look up directions with negative azimuth in the
 antenna radiation pattern

---
 .../real/communication/antenna_radiation_pattern.cpp     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/components/real/communication/antenna_radiation_pattern.cpp b/src/components/real/communication/antenna_radiation_pattern.cpp
index b1a3bce..8daddba 100644
--- a/src/components/real/communication/antenna_radiation_pattern.cpp
+++ b/src/components/real/communication/antenna_radiation_pattern.cpp
@@ -26,6 +26,15 @@ double AntennaRadiationPattern::GetGain_dBi(const double theta_rad, const double
   // Argument check
   double theta_rad_clipped = theta_rad;
   double phi_rad_clipped = phi_rad;
+  if (phi_rad_clipped < 0.0) {
+    // Express the same direction with the angle ranges of the table
+    if (phi_max_rad_ > 1.5 * math::pi) {
+      phi_rad_clipped += math::tau;
+    } else if (theta_max_rad_ > 1.5 * math::pi) {
+      phi_rad_clipped += math::pi;
+      theta_rad_clipped = math::tau - theta_rad_clipped;
+    }
+  }
   if (theta_rad_clipped < 0.0) theta_rad_clipped = 0.0;
   if (theta_rad_clipped > theta_max_rad_) theta_rad_clipped = theta_max_rad_;
   if (phi_rad_clipped < 0.0) phi_rad_clipped = 0.0;
-- 
2.43.0


From 67713c72669774f775c27c1373eaca327da4aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:51 +0000
Subject: [PATCH 35/84] fix: telescope read the first star of an empty
 catalogue

---
 src/components/real/mission/telescope.cpp | 30 ++++++++++-------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index 7e908dc..a813d62 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -120,7 +120,7 @@ void Telescope::ObserveStars() {
   star_list_in_sight.clear();  // Clear first
   size_t count = 0;            // Counter for while loop
 
-  while (star_list_in_sight.size() < number_of_logged_stars_) {
+  while (star_list_in_sight.size() < number_of_logged_stars_ && count < hipparcos_->GetCatalogueSize()) {
     math::Vector<3> target_b = hipparcos_->GetStarDirection_b(count, quaternion_i2b);
     math::Vector<3> target_c = quaternion_b2c_.FrameConversion(target_b);
 
@@ -140,23 +140,19 @@ void Telescope::ObserveStars() {
     }
 
     count++;
+  }
 
-    // If read all catalogue, fill -1 and break the loop
-    if (count >= hipparcos_->GetCatalogueSize()) {
-      while (star_list_in_sight.size() < number_of_logged_stars_) {
-        Star star;
-        star.hipparcos_data.hipparcos_id = -1;
-        star.hipparcos_data.visible_magnitude = -1;
-        star.hipparcos_data.right_ascension_deg = -1;
-        star.hipparcos_data.declination_deg = -1;
-        star.position_image_sensor[0] = -1;
-        star.position_image_sensor[1] = -1;
-
-        star_list_in_sight.push_back(star);
-      }
-
-      break;
-    }
+  // If read all catalogue, fill -1
+  while (star_list_in_sight.size() < number_of_logged_stars_) {
+    Star star;
+    star.hipparcos_data.hipparcos_id = -1;
+    star.hipparcos_data.visible_magnitude = -1;
+    star.hipparcos_data.right_ascension_deg = -1;
+    star.hipparcos_data.declination_deg = -1;
+    star.position_image_sensor[0] = -1;
+    star.position_image_sensor[1] = -1;
+
+    star_list_in_sight.push_back(star);
   }
 }
 
-- 
2.43.0


From daaee2a503585a8fc729f3043226d8e3de0cf79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 36/84] fix: integrate the last partial step of the cantilever
 attitude with its own width, not a full step

---
 .../attitude/attitude_with_cantilever_vibration.cpp        | 5 +++--
 .../numerical_integration/numerical_integrator.hpp         | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index d07cf23..771c4b8 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -86,12 +86,13 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
 
   math::Vector<13> state = attitude_ode_.SetStateFromPhysicalQuantities(angular_velocity_b_rad_s_, angular_velocity_cantilever_rad_s_,
                                                                         quaternion_i2b_, euler_angular_cantilever_rad_);
-  numerical_integrator_.GetIntegrator()->SetState(propagation_step_s_, state);
+  numerical_integrator_.GetIntegrator()->SetState(current_propagation_time_s_, state);
+  numerical_integrator_.GetIntegrator()->SetStepWidth(propagation_step_s_);
   while (end_time_s - current_propagation_time_s_ - propagation_step_s_ > 1.0e-6) {
     numerical_integrator_.GetIntegrator()->Integrate();
     current_propagation_time_s_ += propagation_step_s_;
   }
-  numerical_integrator_.GetIntegrator()->SetState(end_time_s - current_propagation_time_s_, numerical_integrator_.GetIntegrator()->GetState());
+  numerical_integrator_.GetIntegrator()->SetStepWidth(end_time_s - current_propagation_time_s_);
   numerical_integrator_.GetIntegrator()->Integrate();
   attitude_ode_.SetPhysicalQuantitiesFromState(numerical_integrator_.GetIntegrator()->GetState(), angular_velocity_b_rad_s_,
                                                angular_velocity_cantilever_rad_s_, quaternion_i2b_, euler_angular_cantilever_rad_);
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index 461bfa2..7ca1d6c 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -50,6 +50,13 @@ class NumericalIntegrator {
     previous_state_ = state;
   }
 
+  /**
+   * @fn SetStepWidth
+   * @brief Set step width for the following integrations
+   * @param[in] step_width: Step width. The unit is depending on the independent variable
+   */
+  inline void SetStepWidth(const double step_width) { step_width_ = step_width; }
+
   /**
    * @fn GetState
    * @brief Return current state vector
-- 
2.43.0


From 2c8f759e17053442601f417879831aab0bb96cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 37/84] fix: update every cantilever inertia matrix when the
 inertia tensor of the spacecraft changes

---
 src/dynamics/attitude/attitude_with_cantilever_vibration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index 771c4b8..16fed47 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -81,6 +81,9 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
   math::Vector<3> torque_inertia_tensor_b_Nm = dot_inertia_tensor * angular_velocity_b_rad_s_;
   attitude_ode_.SetTorqueInertiaTensor_b_Nm(torque_inertia_tensor_b_Nm);
   attitude_ode_.SetInverseInertiaTensor(CalcInverseMatrix(inertia_tensor_kgm2_));
+  math::Matrix<3, 3> total_inertia_tensor_kgm2 = inertia_tensor_kgm2_ + attitude_ode_.GetInertiaTensorCantilever_kgm2();
+  attitude_ode_.SetInverseTotalInertiaTensor(CalcInverseMatrix(total_inertia_tensor_kgm2));
+  attitude_ode_.SetInverseEquivalentInertiaTensorCantilever(attitude_ode_.GetInverseInertiaTensor() * total_inertia_tensor_kgm2);
   attitude_ode_.SetTorque_b_Nm(torque_b_Nm_);
   attitude_ode_.SetAngularMomentumReactionWheel_b_Nms(angular_momentum_reaction_wheel_b_Nms_);
 
-- 
2.43.0


From b571fc50e718e1c88965a73f369a4a7e3e4082d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:46 +0000
Subject: [PATCH 38/84] fix: controlled attitude angular velocity does not jump
 when the quaternion changes its sign

---
 src/dynamics/attitude/controlled_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index e92cc13..d54f16a 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -171,6 +171,7 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     double time_diff_sec = current_time_s - previous_calc_time_s_;
     math::Quaternion prev_q_b2i = previous_quaternion_i2b_.Conjugate();
     math::Quaternion q_diff = prev_q_b2i * quaternion_i2b_;
+    if (q_diff[3] < 0.0) q_diff = -1.0 * q_diff;  // q and -q are the same attitude
     q_diff = (2.0 / time_diff_sec) * q_diff;
 
     math::Vector<3> angular_acc_b_rad_s2_;
-- 
2.43.0


From 627f444e7fb46d25476991c06e3f6a3dff1a5ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:46 +0000
Subject: [PATCH 39/84] fix: controlled attitude torque is inertia times
 angular acceleration

---
 src/dynamics/attitude/controlled_attitude.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index d54f16a..c77b525 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -177,10 +177,9 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     math::Vector<3> angular_acc_b_rad_s2_;
     for (int i = 0; i < 3; i++) {
       angular_velocity_b_rad_s_[i] = q_diff[i];
-      angular_acc_b_rad_s2_[i] = (previous_omega_b_rad_s_[i] - angular_velocity_b_rad_s_[i]) / time_diff_sec;
+      angular_acc_b_rad_s2_[i] = (angular_velocity_b_rad_s_[i] - previous_omega_b_rad_s_[i]) / time_diff_sec;
     }
-    math::Matrix<3, 3> inv_inertia_tensor = CalcInverseMatrix(inertia_tensor_kgm2_);
-    controlled_torque_b_Nm = inv_inertia_tensor * angular_acc_b_rad_s2_;
+    controlled_torque_b_Nm = inertia_tensor_kgm2_ * angular_acc_b_rad_s2_;
   } else {
     angular_velocity_b_rad_s_ = math::Vector<3>(0.0);
     controlled_torque_b_Nm = math::Vector<3>(0.0);
-- 
2.43.0


From 85cd762c8710ba6d4daf9dcfa16ca0504000dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 40/84] fix: heat load table restarts at the end of its period
 instead of extrapolating from its last interval

---
 src/dynamics/thermal/heatload.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/thermal/heatload.cpp b/src/dynamics/thermal/heatload.cpp
index 29b8cdb..c9d00ac 100644
--- a/src/dynamics/thermal/heatload.cpp
+++ b/src/dynamics/thermal/heatload.cpp
@@ -45,11 +45,11 @@ void Heatload::SetElapsedTime_s(double elapsed_time_s) {
   elapsed_time_s_ = elapsed_time_s;
   residual_elapsed_time_s_ = fmod(elapsed_time_s_, time_table_period_s_);
 
-  while (residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
+  if (residual_elapsed_time_s_ < time_table_s_[elapsed_time_idx_]) {
+    elapsed_time_idx_ = 0;  // Search again from the beginning of the table
+  }
+  while (elapsed_time_idx_ + 2 < time_table_s_.size() && residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
     elapsed_time_idx_++;
-    if (elapsed_time_idx_ > time_table_s_.size() - 1) {
-      elapsed_time_idx_ = 0;
-    }
   }
 }
 
-- 
2.43.0


From 15ce089f808636b9de725d40ef0eae4ba9226307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 41/84] fix: temperature propagation evaluates every
 Runge-Kutta stage at its own temperatures

---
 src/dynamics/thermal/temperature.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/dynamics/thermal/temperature.cpp b/src/dynamics/thermal/temperature.cpp
index 46a39b0..013aab2 100644
--- a/src/dynamics/thermal/temperature.cpp
+++ b/src/dynamics/thermal/temperature.cpp
@@ -138,9 +138,6 @@ void Temperature::CalcRungeOneStep(double time_now_s, double time_step_s, const
 
 vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperatures_K, double t,
                                                          const environment::LocalCelestialInformation* local_celestial_information, size_t node_num) {
-  // TODO: consider the following unused arguments are really needed
-  UNUSED(temperatures_K);
-
   math::Vector<3> sun_direction_b = local_celestial_information->GetPositionFromSpacecraft_b_m("SUN").CalcNormalizedVector();
   vector<double> differentials_K_s(node_num);
   for (size_t i = 0; i < node_num; i++) {
@@ -167,9 +164,9 @@ vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperat
       double conductive_heat_input_W = 0;
       double radiative_heat_input_W = 0;
       for (size_t j = 0; j < node_num; j++) {
-        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (nodes_[j].GetTemperature_K() - nodes_[i].GetTemperature_K());
-        radiative_heat_input_W += environment::stefan_boltzmann_constant_W_m2K4 * radiation_matrix_m2_[i][j] *
-                                  (pow(nodes_[j].GetTemperature_K(), 4) - pow(nodes_[i].GetTemperature_K(), 4));
+        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (temperatures_K[j] - temperatures_K[i]);
+        radiative_heat_input_W +=
+            environment::stefan_boltzmann_constant_W_m2K4 * radiation_matrix_m2_[i][j] * (pow(temperatures_K[j], 4) - pow(temperatures_K[i], 4));
       }
       double total_heat_input_W = conductive_heat_input_W + radiative_heat_input_W + total_heatload_W;
       differentials_K_s[i] = total_heat_input_W / nodes_[i].GetCapacity_J_K();
-- 
2.43.0


From 5471c55995de147bedce83289e3c826117f8b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 42/84] fix: rectify the Encke reference orbit with the state
 and the date of the same time

---
 src/dynamics/orbit/encke_orbit_propagation.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 5a1ae0d..d8e84d3 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -29,13 +29,6 @@ EnckeOrbitPropagation::~EnckeOrbitPropagation() {}
 void EnckeOrbitPropagation::Propagate(const double end_time_s, const double current_time_jd) {
   if (!is_calc_enabled_) return;
 
-  // Rectification
-  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
-  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
-  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
-    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
-  }
-
   // Update reference orbit
   reference_kepler_orbit.CalcOrbit(current_time_jd);
   reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
@@ -59,6 +52,13 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   difference_velocity_i_m_s_[2] = GetState()[5];
 
   UpdateSatOrbit();
+
+  // Rectification (the spacecraft state and current_time_jd refer to the same time here)
+  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
+  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
+  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
+    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
+  }
 }
 
 // Functions for OrdinaryDifferentialEquation
-- 
2.43.0


From 5fbf104c9c5ff6b918465db5be769df5c408912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 43/84] fix: keep the spacecraft acceleration when the Encke
 reference orbit is rectified

---
 src/dynamics/orbit/encke_orbit_propagation.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index d8e84d3..150f734 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -20,6 +20,7 @@ EnckeOrbitPropagation::EnckeOrbitPropagation(const environment::CelestialInforma
       error_tolerance_(error_tolerance),
       propagation_step_s_(propagation_step_s) {
   propagation_time_s_ = 0.0;
+  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
   Initialize(current_time_jd, position_i_m, velocity_i_m_s);
 }
 
@@ -86,9 +87,6 @@ void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>&
 
 // Private Functions
 void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {
-  // General
-  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
-
   // reference orbit
   reference_position_i_m_ = reference_position_i_m;
   reference_velocity_i_m_s_ = reference_velocity_i_m_s;
-- 
2.43.0


From d4d2a18595085d87e8210eef1e802ab1185efae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 44/84] fix: do not read beyond the end of the orbit time
 series

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 5230a18..9924935 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -76,7 +76,7 @@ size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double
 }
 
 double TimeSeriesFileOrbitPropagation::CalcEphemerisTimeData(const size_t ephemeris_time_id) const {
-  if (ephemeris_time_id > time_series_data_.size()) {
+  if (ephemeris_time_id >= time_series_data_.size()) {
     return 0;
   }
   return time_series_data_[ephemeris_time_id][0];
-- 
2.43.0


From 7d4d03323adc9e0cf64bd2e3663c52b89fd9f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 45/84] fix: start the orbit time series at its end when all
 data are in the past

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 9924935..92b749f 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -60,7 +60,7 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
 }
 
 size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double current_time_jd) {
-  size_t nearest_ephemeris_time_id = 0;
+  size_t nearest_ephemeris_time_id = time_series_data_.size();  // All data are older than the current time
 
   // Get start ephemeris time
   double start_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
-- 
2.43.0


From ce64c5aaf8266285b86d882bfd225e973d7b9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:02 +0000
Subject: [PATCH 46/84] fix: interpolate the orbit time series up to its last
 data

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 92b749f..c8416ad 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -40,6 +40,11 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   if (nearest_ephemeris_time_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_ephemeris_time_id - half_interpolation_number;
   }
+  // Use the last data when the current time is close to the end of the time series
+  if (reference_interpolation_id_ + number_of_interpolation > time_series_data_.size() &&
+      time_series_data_.size() >= static_cast<size_t>(number_of_interpolation)) {
+    reference_interpolation_id_ = time_series_data_.size() - number_of_interpolation;
+  }
 
   reference_time_ = CalcEphemerisTimeData(reference_interpolation_id_);
 
@@ -103,7 +108,7 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
       spacecraft_position_i_m_[i] = time_series_data_[0][i + 1];
       spacecraft_velocity_i_m_s_[i] = time_series_data_[0][i + 4];
     }
-  } else if (diff_s > 1e6 || reference_interpolation_id_ >= time_series_data_.size()) {
+  } else if (current_ephemris_time > time_series_data_.back()[0]) {
     if (!is_time_range_warning_displayed_) {
       std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
       is_time_range_warning_displayed_ = true;
-- 
2.43.0


From c59fcd4187646d0c0cbfad07bc1503cf77cf4111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:02 +0000
Subject: [PATCH 47/84] fix: let the orbit time series window catch up with the
 current time

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index c8416ad..5f3af6c 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -95,8 +95,8 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
   // Check interpolation update
   double current_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
   double diff_s = current_ephemris_time - reference_time_;
-  double medium_time_s = orbit_position_i_m_[0].GetTimeList()[static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0))];
-  if (diff_s > medium_time_s) {
+  const size_t medium_id = static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0));
+  while (diff_s > orbit_position_i_m_[0].GetTimeList()[medium_id] && reference_interpolation_id_ < time_series_data_.size()) {
     UpdateInterpolationInformation();
   }
   if (diff_s < 0.0) {
-- 
2.43.0


From 14460ac6610c968fe44403c58367169eb09c434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 48/84] fix: include the LVLH frame rotation in the inertial
 velocity of the relative orbit

---
 src/dynamics/orbit/relative_orbit.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/relative_orbit.cpp b/src/dynamics/orbit/relative_orbit.cpp
index 6f4b260..f42e92b 100644
--- a/src/dynamics/orbit/relative_orbit.cpp
+++ b/src/dynamics/orbit/relative_orbit.cpp
@@ -45,7 +45,12 @@ void RelativeOrbit::InitializeState(math::Vector<3> relative_position_lvlh_m, ma
   math::Quaternion q_i2lvlh = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().CalcQuaternion_i2lvlh();
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity is observed in the LVLH frame rotating with the reference satellite
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = OuterProduct(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= InnerProduct(reference_sat_position_i, reference_sat_position_i);
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) +
+                               OuterProduct(lvlh_angular_velocity_i_rad_s, q_lvlh2i.FrameConversion(relative_position_lvlh_m_)) +
+                               reference_sat_velocity_i;
 
   initial_state_[0] = relative_position_lvlh_m[0];
   initial_state_[1] = relative_position_lvlh_m[1];
@@ -116,7 +121,12 @@ void RelativeOrbit::Propagate(const double end_time_s, const double current_time
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
 
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity is observed in the LVLH frame rotating with the reference satellite
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = OuterProduct(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= InnerProduct(reference_sat_position_i, reference_sat_position_i);
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) +
+                               OuterProduct(lvlh_angular_velocity_i_rad_s, q_lvlh2i.FrameConversion(relative_position_lvlh_m_)) +
+                               reference_sat_velocity_i;
   TransformEciToEcef();
   TransformEcefToGeodetic();
 }
-- 
2.43.0


From dfe8e782cfa99c6dcbdd3466a9600e06d9cd44f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:14 +0000
Subject: [PATCH 49/84] fix: keep the calendar seconds of the simulation time
 non-negative

---
 src/environment/global/simulation_time.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index 6438e50..205c426 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -238,6 +238,7 @@ void SimulationTime::ConvJDtoCalendarDay(const double JD) {
   int year, mon, day, hr, minute;
   double sec;
   invjday(JD, year, mon, day, hr, minute, sec);
+  if (sec < 0.0) sec = 0.0;  // The rounding in invjday can make it slightly negative
   current_utc_.year = (unsigned int)(year);
   current_utc_.month = (unsigned int)(mon);
   current_utc_.day = (unsigned int)(day);
-- 
2.43.0


From b9bc051eada21a276b0d8be684ec1580640b1e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 50/84] fix: register every third shadow source of the SRP
 environment

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index c571f30..371d188 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -116,7 +116,7 @@ SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::str
   size_t number_of_third_shadow_source = conf.ReadInt(section, "number_of_third_shadow_source");
   std::vector<std::string> list = conf.ReadVectorString(section, "third_shadow_source_name", number_of_third_shadow_source);
   for (size_t i = 0; i < number_of_third_shadow_source; i++) {
-    srp_env.AddShadowSource(list[0]);
+    srp_env.AddShadowSource(list[i]);
   }
 
   return srp_env;
-- 
2.43.0


From 89c0ef8639e226ffd4f25e4df21805ea3e5e7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 51/84] fix: keep the other shadow sources at an annular
 eclipse

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 371d188..381c86b 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -89,7 +89,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     shadow_coefficient_ *= 0.0;
   } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
-    shadow_coefficient_ = 1.0 - (b * b) / (a * a);
+    shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
     double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
-- 
2.43.0


From 3aba50be8b254067e2a01a9efb22e4d5723932c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 52/84] fix: measure the deviation of the sun from the shadow
 source at the spacecraft

---
 .../local/solar_radiation_pressure_environment.cpp           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 381c86b..d240990 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -72,9 +72,8 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double sd_sun = asin(sun_radius_m_ / distance_sat_to_sun);                     // Apparent radius of the sun
   const double sd_source = asin(shadow_source_radius_m / r_sc2source_eci.CalcNorm());  // Apparent radius of the shadow source
 
-  // Angle of deviation from shadow source center to sun center
-  math::Vector<3> r_source2sun_eci = r_sc2sun_eci - r_sc2source_eci;
-  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci - r_sc2source_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm());
+  // Angle of deviation from shadow source center to sun center seen from the spacecraft
+  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci) / r_sc2source_eci.CalcNorm() / distance_sat_to_sun);
   // The angle between the center of the sun and the common chord
   const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
   // The length of the common chord of the apparent solar disk and apparent telestial disk
-- 
2.43.0


From 625e2a8b14d2323a37a82f8f72461ec5e262e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 53/84] fix: keep the shadow calculation valid when the sun is
 exactly behind the shadow source

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index d240990..fa9c46c 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -73,7 +73,8 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double sd_source = asin(shadow_source_radius_m / r_sc2source_eci.CalcNorm());  // Apparent radius of the shadow source
 
   // Angle of deviation from shadow source center to sun center seen from the spacecraft
-  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci) / r_sc2source_eci.CalcNorm() / distance_sat_to_sun);
+  const double cos_delta = InnerProduct(r_sc2source_eci, r_sc2sun_eci) / r_sc2source_eci.CalcNorm() / distance_sat_to_sun;
+  const double delta = acos(std::max(-1.0, std::min(cos_delta, 1.0)));
   // The angle between the center of the sun and the common chord
   const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
   // The length of the common chord of the apparent solar disk and apparent telestial disk
-- 
2.43.0


From 929f55b0b1f99b42605db2e82c674ac81b1c0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 54/84] fix: refuse the celestial body id behind the last
 selected body

---
 src/environment/global/celestial_information.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/celestial_information.hpp b/src/environment/global/celestial_information.hpp
index ea04e56..bcfaf7b 100644
--- a/src/environment/global/celestial_information.hpp
+++ b/src/environment/global/celestial_information.hpp
@@ -77,7 +77,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetPositionFromCenter_i_m(const unsigned int id) const {
     math::Vector<3> pos(0.0);
-    if (id > number_of_selected_bodies_) return pos;
+    if (id >= number_of_selected_bodies_) return pos;
     for (int i = 0; i < 3; i++) pos[i] = celestial_body_position_from_center_i_m_[id * 3 + i];
     return pos;
   }
@@ -112,7 +112,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetVelocityFromCenter_i_m_s(const unsigned int id) const {
     math::Vector<3> vel(0.0);
-    if (id > number_of_selected_bodies_) return vel;
+    if (id >= number_of_selected_bodies_) return vel;
     for (int i = 0; i < 3; i++) vel[i] = celestial_body_velocity_from_center_i_m_s_[id * 3 + i];
     return vel;
   }
@@ -164,7 +164,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetRadii_m(const unsigned int id) const {
     math::Vector<3> radii(0.0);
-    if (id > number_of_selected_bodies_) return radii;
+    if (id >= number_of_selected_bodies_) return radii;
     for (int i = 0; i < 3; i++) radii[i] = celestial_body_planetographic_radii_m_[id * 3 + i];
     return radii;
   }
-- 
2.43.0


From 84a6a93eaac2f4bc7ac1aa25f6706ef21de05bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 55/84] fix: copy and release the rotation models together with
 the celestial information

---
 src/environment/global/celestial_information.cpp | 7 ++++++-
 src/environment/global/moon_rotation.cpp         | 3 +++
 src/environment/global/moon_rotation.hpp         | 7 +++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/environment/global/celestial_information.cpp b/src/environment/global/celestial_information.cpp
index a8ffde6..d828107 100644
--- a/src/environment/global/celestial_information.cpp
+++ b/src/environment/global/celestial_information.cpp
@@ -74,7 +74,8 @@ CelestialInformation::CelestialInformation(const CelestialInformation& obj)
     : number_of_selected_bodies_(obj.number_of_selected_bodies_),
       inertial_frame_name_(obj.inertial_frame_name_),
       center_body_name_(obj.center_body_name_),
-      aberration_correction_setting_(obj.aberration_correction_setting_) {
+      aberration_correction_setting_(obj.aberration_correction_setting_),
+      rotation_mode_list_(obj.rotation_mode_list_) {
   unsigned int num_of_state = number_of_selected_bodies_ * 3;
 
   selected_body_ids_ = new int[number_of_selected_bodies_];
@@ -93,6 +94,9 @@ CelestialInformation::CelestialInformation(const CelestialInformation& obj)
   memcpy(celestial_body_gravity_constant_m3_s2_, obj.celestial_body_gravity_constant_m3_s2_, size_d * number_of_selected_bodies_);
   memcpy(celestial_body_mean_radius_m_, obj.celestial_body_mean_radius_m_, size_d * number_of_selected_bodies_);
   memcpy(celestial_body_planetographic_radii_m_, obj.celestial_body_planetographic_radii_m_, size_d * num_of_state);
+
+  earth_rotation_ = new EarthRotation(*obj.earth_rotation_);
+  moon_rotation_ = new MoonRotation(*obj.moon_rotation_, *this);
 }
 
 CelestialInformation::~CelestialInformation() {
@@ -103,6 +107,7 @@ CelestialInformation::~CelestialInformation() {
   delete[] celestial_body_planetographic_radii_m_;
   delete[] selected_body_ids_;
   delete earth_rotation_;
+  delete moon_rotation_;
 }
 
 void CelestialInformation::UpdateAllObjectsInformation(const SimulationTime& simulation_time) {
diff --git a/src/environment/global/moon_rotation.cpp b/src/environment/global/moon_rotation.cpp
index c2b107b..9a93aaa 100644
--- a/src/environment/global/moon_rotation.cpp
+++ b/src/environment/global/moon_rotation.cpp
@@ -17,6 +17,9 @@ MoonRotation::MoonRotation(const CelestialInformation& celestial_information, Mo
   dcm_j2000_to_mcmf_ = math::MakeIdentityMatrix<3>();
 }
 
+MoonRotation::MoonRotation(const MoonRotation& obj, const CelestialInformation& celestial_information)
+    : mode_(obj.mode_), dcm_j2000_to_mcmf_(obj.dcm_j2000_to_mcmf_), celestial_information_(celestial_information) {}
+
 void MoonRotation::Update(const SimulationTime& simulation_time) {
   if (mode_ == MoonRotationMode::kSimple) {
     math::Vector<3> moon_position_eci_m = celestial_information_.GetPositionFromSelectedBody_i_m("MOON", "EARTH");
diff --git a/src/environment/global/moon_rotation.hpp b/src/environment/global/moon_rotation.hpp
index 1c5ea0d..3cfb722 100644
--- a/src/environment/global/moon_rotation.hpp
+++ b/src/environment/global/moon_rotation.hpp
@@ -42,6 +42,13 @@ class MoonRotation {
    * @brief Constructor
    */
   MoonRotation(const CelestialInformation &celestial_information, MoonRotationMode mode = MoonRotationMode::kIdle);
+  /**
+   * @fn MoonRotation
+   * @brief Copy with another celestial information
+   * @param[in] obj: Moon rotation to be copied
+   * @param[in] celestial_information: Celestial Information to get moon orbit
+   */
+  MoonRotation(const MoonRotation &obj, const CelestialInformation &celestial_information);
 
   /**
    * @fn Update
-- 
2.43.0


From b3983f8e8cd3bcb96f4b07688311c5ee706783bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 56/84] fix: combine body rate and position in one frame for
 the body frame velocity of celestial bodies

---
 .../local/local_celestial_information.cpp     | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/environment/local/local_celestial_information.cpp b/src/environment/local/local_celestial_information.cpp
index dab63ee..e6ced8b 100644
--- a/src/environment/local/local_celestial_information.cpp
+++ b/src/environment/local/local_celestial_information.cpp
@@ -114,20 +114,11 @@ void LocalCelestialInformation::ConvertVelocityInertialToBody(const double* posi
     ri[i] = position_i[i];
   }
 
-  // convert body rate vector into that in inertial coordinate
-  math::Vector<3> wb;
-  for (int i = 0; i < 3; i++) {
-    wb[i] = angular_velocity_b[i];
-  }
-
-  // compute cross term wxr
-  math::Vector<3> wxposition_i = OuterProduct(wb, ri);
-  // compute dr/dt + wxr
-  for (int i = 0; i < 3; i++) {
-    vi[i] = vi[i] - wxposition_i[i];
-  }
-  // convert vector in inertial coordinate into that in body coordinate
-  math::Vector<3> temp_b = quaternion_i2b.FrameConversion(vi);
+  // convert vectors in inertial coordinate into those in body coordinate
+  math::Vector<3> vb = quaternion_i2b.FrameConversion(vi);
+  math::Vector<3> rb = quaternion_i2b.FrameConversion(ri);
+  // compute dr/dt - wxr in body coordinate, in which the body rate is given
+  math::Vector<3> temp_b = vb - OuterProduct(angular_velocity_b, rb);
   for (int i = 0; i < 3; i++) {
     velocity_b[i] = temp_b[i];
   }
-- 
2.43.0


From a1264731da9e4f31690dae586ed53b2f162dd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 57/84] fix: give the sun direction to the Harris-Priester
 model in the frame of the position

---
 src/environment/local/atmosphere.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 74b2323..a9a0e82 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -69,7 +69,10 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
   } else if (model_ == "HARRIS_PRIESTER") {
     // Harris-Priester
     math::Vector<3> sun_direction_eci = local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
-    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_eci);
+    // The model compares the sun direction with the ECEF position
+    math::Vector<3> sun_direction_ecef =
+        local_celestial_information_->GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef() * sun_direction_eci;
+    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_ecef);
   } else {
     // No suitable model
     return air_density_kg_m3_ = 0.0;
-- 
2.43.0


From a4572596eccb00e735233dd8d6b22482090bd25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 58/84] fix: keep the noise in the air density that the air
 drag and the log use

---
 src/environment/local/atmosphere.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index a9a0e82..9059e28 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -78,7 +78,8 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
     return air_density_kg_m3_ = 0.0;
   }
 
-  return AddNoise(air_density_kg_m3_);
+  air_density_kg_m3_ = AddNoise(air_density_kg_m3_);
+  return air_density_kg_m3_;
 }
 
 double Atmosphere::AddNoise(const double rho_kg_m3) {
-- 
2.43.0


From b2fb6323b8d2ab3626adffce047657e3ebb03c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 59/84] fix: let every spacecraft have its own geomagnetic
 noise instead of the one of the first

---
 src/environment/local/geomagnetic_field.cpp | 16 +++++-----------
 src/environment/local/geomagnetic_field.hpp |  4 ++++
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 8fff876..b2d6d7c 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -7,8 +7,6 @@
 
 #include "math_physics/geomagnetic/igrf.h"
 #include "math_physics/randomization/global_randomization.hpp"
-#include "math_physics/randomization/normal_randomization.hpp"
-#include "math_physics/randomization/random_walk.hpp"
 #include "setting_file_reader/initialize_file_access.hpp"
 
 namespace s2e::environment {
@@ -20,7 +18,9 @@ GeomagneticField::GeomagneticField(const std::string igrf_file_name, const doubl
       random_walk_standard_deviation_nT_(random_walk_srandard_deviation_nT),
       random_walk_limit_nT_(random_walk_limit_nT),
       white_noise_standard_deviation_nT_(white_noise_standard_deviation_nT),
-      igrf_file_name_(igrf_file_name) {
+      igrf_file_name_(igrf_file_name),
+      random_walk_(0.1, math::Vector<3>(random_walk_srandard_deviation_nT), math::Vector<3>(random_walk_limit_nT)),
+      white_noise_(0.0, white_noise_standard_deviation_nT, randomization::global_randomization.MakeSeed()) {
   set_file_path(igrf_file_name_.c_str());
 }
 
@@ -42,16 +42,10 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
 }
 
 void GeomagneticField::AddNoise(double* magnetic_field_array_i_nT) {
-  static math::Vector<3> standard_deviation(random_walk_standard_deviation_nT_);
-  static math::Vector<3> limit(random_walk_limit_nT_);
-  static randomization::RandomWalk<3> random_walk(0.1, standard_deviation, limit);
-
-  static randomization::NormalRand white_noise(0.0, white_noise_standard_deviation_nT_, randomization::global_randomization.MakeSeed());
-
   for (int i = 0; i < 3; ++i) {
-    magnetic_field_array_i_nT[i] += random_walk[i] + white_noise;
+    magnetic_field_array_i_nT[i] += random_walk_[i] + white_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string GeomagneticField::GetLogHeader() const {
diff --git a/src/environment/local/geomagnetic_field.hpp b/src/environment/local/geomagnetic_field.hpp
index 1f38c03..609b9c2 100644
--- a/src/environment/local/geomagnetic_field.hpp
+++ b/src/environment/local/geomagnetic_field.hpp
@@ -10,6 +10,8 @@
 #include "math_physics/geodesy/geodetic_position.hpp"
 #include "math_physics/math/quaternion.hpp"
 #include "math_physics/math/vector.hpp"
+#include "math_physics/randomization/normal_randomization.hpp"
+#include "math_physics/randomization/random_walk.hpp"
 
 namespace s2e::environment {
 
@@ -78,6 +80,8 @@ class GeomagneticField : public logger::ILoggable {
   double random_walk_limit_nT_;               //!< Limit of Random Walk [nT]
   double white_noise_standard_deviation_nT_;  //!< Standard deviation of white noise [nT]
   std::string igrf_file_name_;                //!< Path to the initialize file
+  randomization::RandomWalk<3> random_walk_;  //!< Random walk noise of this spacecraft
+  randomization::NormalRand white_noise_;     //!< White noise of this spacecraft
 
   /**
    * @fn AddNoise
-- 
2.43.0


From 05f307ee64f791daf7bebf2ade3af27a7dc3d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:12 +0000
Subject: [PATCH 60/84] fix: refuse the GNSS satellite, epoch and axis index
 behind the last one

---
 src/environment/global/gnss_satellites.cpp     | 4 ++--
 src/math_physics/gnss/sp3_file_reader.cpp      | 2 +-
 src/math_physics/orbit/interpolation_orbit.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 25724b5..34471ce 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -77,7 +77,7 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
 }
 
 math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
 
   time_system::EpochTime target_time;
 
@@ -95,7 +95,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
 }
 
 double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return 0.0;
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return 0.0;
 
   time_system::EpochTime target_time;
 
diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 2ae1366..65f162c 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -16,7 +16,7 @@ namespace s2e::gnss {
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
-  if (epoch_id > epoch_.size()) {
+  if (epoch_id >= epoch_.size()) {
     time_system::DateTime zero;
     return zero;
   }
diff --git a/src/math_physics/orbit/interpolation_orbit.hpp b/src/math_physics/orbit/interpolation_orbit.hpp
index 8391357..5de2d3f 100644
--- a/src/math_physics/orbit/interpolation_orbit.hpp
+++ b/src/math_physics/orbit/interpolation_orbit.hpp
@@ -69,7 +69,7 @@ class InterpolationOrbit {
    * @note return id=2 data when the input axis is over 3.
    */
   inline std::vector<double> GetPositionDataList(const size_t axis) const {
-    if (axis > 3) {
+    if (axis > 2) {
       return interpolation_position_[2].GetDependentVariables();
     }
     return interpolation_position_[axis].GetDependentVariables();
-- 
2.43.0


From 23167702aeeef24163e2c9eb55d17d474af9ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:12 +0000
Subject: [PATCH 61/84] fix: have no GNSS satellites when they are disabled or
 without a matching SP3 file

---
 src/environment/global/gnss_satellites.cpp | 2 +-
 src/environment/global/gnss_satellites.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 34471ce..2896a67 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -58,7 +58,7 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
 }
 
 void GnssSatellites::Update(const SimulationTime& simulation_time) {
-  if (!IsCalcEnabled()) return;
+  if (!IsCalcEnabled() || orbit_.empty()) return;
 
   // Get time
   UTC current_utc = simulation_time.GetCurrentUtc();
diff --git a/src/environment/global/gnss_satellites.hpp b/src/environment/global/gnss_satellites.hpp
index 065dc58..9a10f77 100644
--- a/src/environment/global/gnss_satellites.hpp
+++ b/src/environment/global/gnss_satellites.hpp
@@ -116,8 +116,8 @@ class GnssSatellites : public logger::ILoggable {
   bool is_calc_enabled_ = false;  //!< Flag to manage the GNSS satellite position calculation
 
   std::vector<gnss::Sp3FileReader> sp3_files_;   //!< List of SP3 files
-  size_t number_of_calculated_gnss_satellites_;  //!< Number of calculated GNSS satellites
-  size_t sp3_file_id_;                           //!< Current SP3 file ID
+  size_t number_of_calculated_gnss_satellites_ = 0;  //!< Number of calculated GNSS satellites
+  size_t sp3_file_id_ = 0;                           //!< Current SP3 file ID
   time_system::EpochTime reference_time_;        //!< Reference start time of the SP3 handling
   size_t reference_interpolation_id_ = 0;        //!< Reference epoch ID of the interpolation
   time_system::EpochTime current_epoch_time_;    //!< The last updated time
-- 
2.43.0


From 33352bdeaf2d57b0b5405fd742e22c4dc56054ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:12 +0000
Subject: [PATCH 62/84] fix: do not read GNSS orbits behind the last SP3 file

---
 src/environment/global/gnss_satellites.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 2896a67..d0921cc 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -6,6 +6,7 @@
 #include "gnss_satellites.hpp"
 
 #include <math_physics/gnss/igs_product_name_handling.hpp>
+#include <algorithm>
 #include <math_physics/gnss/sp3_file_reader.hpp>
 
 #include "environment/global/physical_constants.hpp"
@@ -39,6 +40,11 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   if (nearest_epoch_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_epoch_id - half_interpolation_number;
   }
+  // Use the last data when the start time is close to the end of the last file
+  const size_t number_of_epoch = initial_sp3_file.GetNumberOfEpoch();
+  if (sp3_file_id_ + 1 >= sp3_files_.size() && number_of_epoch >= kNumberOfInterpolation) {
+    reference_interpolation_id_ = std::min(reference_interpolation_id_, number_of_epoch - kNumberOfInterpolation);
+  }
   reference_time_ = time_system::EpochTime(initial_sp3_file.GetEpochData(reference_interpolation_id_));
 
   // Initialize orbit
@@ -128,6 +134,8 @@ bool GnssSatellites::GetCurrentSp3File(Sp3FileReader& current_sp3_file, const ti
 }
 
 bool GnssSatellites::UpdateInterpolationInformation() {
+  if (sp3_file_id_ >= sp3_files_.size()) return false;  // No more data
+
   Sp3FileReader sp3_file = sp3_files_[sp3_file_id_];
 
   for (size_t gnss_id = 0; gnss_id < number_of_calculated_gnss_satellites_; gnss_id++) {
-- 
2.43.0


From b87366725e0bbd8514b349a2ec0bbbddc332fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:12 +0000
Subject: [PATCH 63/84] fix: let the GNSS interpolation window catch up with
 the current time

---
 src/environment/global/gnss_satellites.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index d0921cc..3e6bb9b 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -74,9 +74,8 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
 
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-  double medium_time_s = orbit_[0].GetTimeList()[4];
-  if (diff_s > medium_time_s) {
-    UpdateInterpolationInformation();
+  while (diff_s > orbit_[0].GetTimeList()[kNumberOfInterpolation / 2]) {
+    if (!UpdateInterpolationInformation()) break;
   }
 
   return;
-- 
2.43.0


From 8464b906d1e58b2e2fcc9d94c5722ce5fbe2cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:48 +0000
Subject: [PATCH 64/84] fix: keep surface forces valid when the surface faces
 the source exactly

---
 src/disturbances/surface_force.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/surface_force.cpp b/src/disturbances/surface_force.cpp
index 391a782..4c3f242 100644
--- a/src/disturbances/surface_force.cpp
+++ b/src/disturbances/surface_force.cpp
@@ -5,6 +5,9 @@
 
 #include "surface_force.hpp"
 
+#include <algorithm>
+#include <cmath>
+
 #include "../math_physics/math/vector.hpp"
 
 namespace s2e::disturbances {
@@ -52,7 +55,7 @@ void SurfaceForce::CalcTheta(math::Vector<3>& input_direction_b) {
 
   for (size_t i = 0; i < surfaces_.size(); i++) {
     cos_theta_[i] = InnerProduct(surfaces_[i].GetNormal_b(), input_b_normal);
-    sin_theta_[i] = sqrt(1.0 - cos_theta_[i] * cos_theta_[i]);
+    sin_theta_[i] = sqrt(std::max(0.0, 1.0 - cos_theta_[i] * cos_theta_[i]));  // The cosine can exceed one slightly
   }
 }
 
-- 
2.43.0


From 20f06356b85ea4c7929cd38163a59f7672c37433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:48 +0000
Subject: [PATCH 65/84] fix: use the mass of a molecule instead of the molar
 weight in grams for the air drag speed ratio

---
 src/disturbances/air_drag.cpp                 | 4 ++--
 src/environment/global/physical_constants.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index 2c92540..cbcc075 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -64,8 +64,8 @@ void AirDrag::CalcCnCt(const math::Vector<3>& velocity_b_m_s) {
   double velocity_norm_m_s = velocity_b_m_s.CalcNorm();
 
   // Re-emitting speed
-  double speed =
-      sqrt(molecular_weight_g_mol_ * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
+  const double molecular_mass_kg = molecular_weight_g_mol_ * 1e-3 / environment::avogadro_constant_1_mol;
+  double speed = sqrt(molecular_mass_kg * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
   // CalcTheta(vel_b);
   for (size_t i = 0; i < surfaces_.size(); i++) {
     double speed_n = speed * cos_theta_[i];
diff --git a/src/environment/global/physical_constants.hpp b/src/environment/global/physical_constants.hpp
index c97259e..5e1d6e8 100644
--- a/src/environment/global/physical_constants.hpp
+++ b/src/environment/global/physical_constants.hpp
@@ -21,6 +21,7 @@ using enable_if_float = std::enable_if_t<std::is_floating_point_v<T>, T>;
 inline namespace physics {
 DEFINE_PHYSICAL_CONSTANT(speed_of_light_m_s, 299792458.0L)                   //!< Speed of light in vacuum [m/s]
 DEFINE_PHYSICAL_CONSTANT(boltzmann_constant_J_K, 1.380649e-23L)              //!< Boltzmann constant [J/K]
+DEFINE_PHYSICAL_CONSTANT(avogadro_constant_1_mol, 6.02214076e23L)            //!< Avogadro constant [1/mol]
 DEFINE_PHYSICAL_CONSTANT(stefan_boltzmann_constant_W_m2K4, 5.670374419e-8L)  //!< Stefan-Boltzmann constant [W/m2K4]
 DEFINE_PHYSICAL_CONSTANT(absolute_zero_degC, -273.15L)                       //!< Absolute zero [degC]
 DEFINE_PHYSICAL_CONSTANT(solar_constant_W_m2, 1.366e3L)                      //!< Solar constant [W/m2]
-- 
2.43.0


From f6a16948241c2764713f940cc2908d3b31bd7ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:48 +0000
Subject: [PATCH 66/84] fix: let every spacecraft have its own residual
 magnetic moment noise instead of the one of the first

---
 src/disturbances/magnetic_disturbance.cpp | 18 +++++++-----------
 src/disturbances/magnetic_disturbance.hpp |  4 ++++
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/disturbances/magnetic_disturbance.cpp b/src/disturbances/magnetic_disturbance.cpp
index ea00292..a207afc 100644
--- a/src/disturbances/magnetic_disturbance.cpp
+++ b/src/disturbances/magnetic_disturbance.cpp
@@ -10,13 +10,15 @@
 
 #include "../logger/log_utility.hpp"
 #include "../math_physics/randomization/global_randomization.hpp"
-#include "../math_physics/randomization/normal_randomization.hpp"
-#include "../math_physics/randomization/random_walk.hpp"
 
 namespace s2e::disturbances {
 
 MagneticDisturbance::MagneticDisturbance(const spacecraft::ResidualMagneticMoment& rmm_params, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, true), residual_magnetic_moment_(rmm_params) {
+    : Disturbance(is_calculation_enabled, true),
+      residual_magnetic_moment_(rmm_params),
+      random_walk_(0.1, math::Vector<3>(rmm_params.GetRandomWalkStandardDeviation_Am2()),
+                   math::Vector<3>(rmm_params.GetRandomWalkLimit_Am2())),  // [FIXME] step width is constant
+      white_noise_(0.0, rmm_params.GetRandomNoiseStandardDeviation_Am2(), randomization::global_randomization.MakeSeed()) {
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
 }
 
@@ -33,17 +35,11 @@ void MagneticDisturbance::Update(const environment::LocalEnvironment& local_envi
 }
 
 void MagneticDisturbance::CalcRMM() {
-  static math::Vector<3> random_walk_std_dev(residual_magnetic_moment_.GetRandomWalkStandardDeviation_Am2());
-  static math::Vector<3> random_walk_limit(residual_magnetic_moment_.GetRandomWalkLimit_Am2());
-  static randomization::RandomWalk<3> random_walk(0.1, random_walk_std_dev, random_walk_limit);  // [FIXME] step width is constant
-  static randomization::NormalRand normal_random(0.0, residual_magnetic_moment_.GetRandomNoiseStandardDeviation_Am2(),
-                                                 randomization::global_randomization.MakeSeed());
-
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
   for (int i = 0; i < 3; ++i) {
-    rmm_b_Am2_[i] += random_walk[i] + normal_random;
+    rmm_b_Am2_[i] += random_walk_[i] + white_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string MagneticDisturbance::GetLogHeader() const {
diff --git a/src/disturbances/magnetic_disturbance.hpp b/src/disturbances/magnetic_disturbance.hpp
index f51b392..5e465a0 100644
--- a/src/disturbances/magnetic_disturbance.hpp
+++ b/src/disturbances/magnetic_disturbance.hpp
@@ -10,6 +10,8 @@
 
 #include "../logger/loggable.hpp"
 #include "../math_physics/math/vector.hpp"
+#include "../math_physics/randomization/normal_randomization.hpp"
+#include "../math_physics/randomization/random_walk.hpp"
 #include "../simulation/spacecraft/structure/residual_magnetic_moment.hpp"
 #include "disturbance.hpp"
 
@@ -54,6 +56,8 @@ class MagneticDisturbance : public Disturbance {
 
   math::Vector<3> rmm_b_Am2_;                                           //!< True RMM of the spacecraft in the body frame [Am2]
   const spacecraft::ResidualMagneticMoment& residual_magnetic_moment_;  //!< RMM parameters
+  randomization::RandomWalk<3> random_walk_;                            //!< Random walk of the RMM of this spacecraft
+  randomization::NormalRand white_noise_;                               //!< White noise of the RMM of this spacecraft
 
   /**
    * @fn CalcRMM
-- 
2.43.0


From c5b3afdbb672296dc7aa3f63c9f984f20807b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:48 +0000
Subject: [PATCH 67/84] fix: limit the degree of the gravity field to that of
 its coefficients

---
 src/disturbances/geopotential.cpp        | 2 +-
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index cb6ba22..73b6ddc 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -45,7 +45,7 @@ Geopotential::Geopotential(const int degree, const std::string file_path, const
     }
   }
   // Initialize GravityPotential
-  geopotential_ = gravity::GravityPotential(degree, c_, s_);
+  geopotential_ = gravity::GravityPotential(degree_, c_, s_);
 }
 
 bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 182b447..e225917 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -48,7 +48,7 @@ LunarGravityField::LunarGravityField(const int degree, const std::string file_pa
     }
   }
   // Initialize GravityPotential
-  lunar_potential_ = gravity::GravityPotential(degree, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
+  lunar_potential_ = gravity::GravityPotential(degree_, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
 }
 
 bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
-- 
2.43.0


From 2fd12cdbb3e2cdd79a6596d4f88022e4f6818aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:56 +0000
Subject: [PATCH 68/84] fix: compose the relative attitude from the reference
 body frame to the target body frame

---
 src/simulation/multiple_spacecraft/relative_information.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 3aed97e..aeb3226 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -121,7 +121,7 @@ math::Quaternion RelativeInformation::CalcRelativeAttitudeQuaternion(const size_
   // ECI frame(i) -> Target SC body frame(main_sat)
   math::Quaternion q_target_i2b = dynamics_database_.at(target_spacecraft_id)->GetAttitude().GetQuaternion_i2b();
 
-  return q_target_i2b * q_reference_b2i;
+  return q_reference_b2i * q_target_i2b;
 }
 
 math::Vector<3> RelativeInformation::CalcRelativePosition_rtn_m(const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
-- 
2.43.0


From cbffb715a6a9e024027af94410f8fed17702d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:48 +0000
Subject: [PATCH 69/84] fix: make the uniformly randomized quaternion uniform
 by using the half angle of the rotation from the x axis

---
 .../initialize_monte_carlo_parameters.cpp                 | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 967b92b..48527ae 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -248,7 +248,6 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   x_axis[0] = 1.0;
 
   // A direction vector converted from the X-axis by a quaternion may follows the uniform distribution in full sphere.
-  math::Quaternion first_cnv;
   math::Vector<3> x_axis_cnvd;
   double theta = acos(1 - (1 - (-1)) * InitializedMonteCarloParameters::Generate1dUniform(0.0, 1.0));
   double phi = InitializedMonteCarloParameters::Generate1dUniform(0, math::tau);
@@ -256,12 +255,7 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   x_axis_cnvd[1] = sin(theta) * sin(phi);
   x_axis_cnvd[2] = cos(theta);
 
-  double cos_angle_between = InnerProduct(x_axis, x_axis_cnvd);
-  math::Vector<3> op = OuterProduct(x_axis, x_axis_cnvd);
-  for (int i = 0; i < 3; i++) {
-    first_cnv[i] = op[i];
-  }
-  first_cnv[3] = cos_angle_between;
+  math::Quaternion first_cnv(x_axis, x_axis_cnvd);
 
   // Generate randomized rotation angle around the X-axis
   double rotation_angle = InitializedMonteCarloParameters::Generate1dUniform(0.0, math::tau);
-- 
2.43.0


From 011e2374f063e6510c15c2420165ba1873c4fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 70/84] fix: velocity mode of an SP3 file is given by the third
 character of its first line

---
 src/math_physics/gnss/sp3_file_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 65f162c..57bce65 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -162,7 +162,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   // Read contents
   if (line[2] == 'P') {
     header_.mode_ = Sp3Mode::kPosition;
-  } else if (line[3] == 'V') {
+  } else if (line[2] == 'V') {
     header_.mode_ = Sp3Mode::kVelocity;
   } else {
     header_.mode_ = Sp3Mode::kOther;
-- 
2.43.0


From 2bce6917f8a06949d880f413881939f0bfb15d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 71/84] fix: do not access a second epoch and satellite which
 an SP3 file may not have

---
 src/math_physics/gnss/sp3_file_reader.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 57bce65..f8a0f59 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -116,12 +116,6 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
     }
   }
 
-  // Test
-  time_system::DateTime test = epoch_[0];
-  test = epoch_[1];
-  std::vector<Sp3PositionClock> test_p = position_clock_[0];
-  test_p = position_clock_[1];
-
   sp3_file.close();
   return true;
 }
-- 
2.43.0


From dee3f50f3624acb471cff45ae9fb97198aa0e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 72/84] fix: columns of the velocity standard deviations in an
 SP3 file, which may be blank

---
 src/math_physics/gnss/sp3_file_reader.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index f8a0f59..ed6f4fb 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -386,13 +386,21 @@ Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line
   velocity_clock_rate.clock_rate_ = stod(line.substr(46, 14));
 
   // Standard deviations
-  if (line.size() > 60) {
+  if (line.size() > 61) {
     math::Vector<3> velocity_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
-      velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 2, 2));
+      try {
+        velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
+      } catch (const std::invalid_argument&) {
+        velocity_standard_deviation[axis] = 0.0;
+      }
     }
     velocity_clock_rate.velocity_standard_deviation_ = velocity_standard_deviation;
-    velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    try {
+      velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    } catch (const std::invalid_argument&) {
+      velocity_clock_rate.clock_rate_standard_deviation_ = 0.0;
+    }
   }
 
   return velocity_clock_rate;
-- 
2.43.0


From fd8e3e38fe60724b316bea8a5cd04b50b57aa022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 73/84] fix: SP3 records whose trailing blank columns are
 omitted

---
 src/math_physics/gnss/sp3_file_reader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index ed6f4fb..7307b9f 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -304,6 +304,10 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
 Sp3PositionClock Sp3FileReader::DecodePositionClockData(std::string line) {
   Sp3PositionClock position_clock;
 
+  // Columns left blank at the end of a line may be omitted
+  const size_t kLineLength = 80;
+  if (line.size() < kLineLength) line.resize(kLineLength, ' ');
+
   // Satellite ID
   position_clock.satellite_id_ = line.substr(1, 3);
 
@@ -374,6 +378,10 @@ Sp3PositionClockCorrelation Sp3FileReader::DecodePositionClockCorrelation(std::s
 Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line) {
   Sp3VelocityClockRate velocity_clock_rate;
 
+  // Columns left blank at the end of a line may be omitted
+  const size_t kLineLength = 80;
+  if (line.size() < kLineLength) line.resize(kLineLength, ' ');
+
   // Satellite ID
   velocity_clock_rate.satellite_id_ = line.substr(1, 3);
 
-- 
2.43.0


From 811e6764f5fe4a309986dfdfd7cc782ad73ec59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:19 +0000
Subject: [PATCH 74/84] fix: no star is made from the end of the Hipparcos
 catalogue file

---
 src/environment/global/hipparcos_catalogue.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/hipparcos_catalogue.cpp b/src/environment/global/hipparcos_catalogue.cpp
index 8888085..eea0027 100644
--- a/src/environment/global/hipparcos_catalogue.cpp
+++ b/src/environment/global/hipparcos_catalogue.cpp
@@ -32,11 +32,10 @@ bool HipparcosCatalogue::ReadContents(const std::string& file_name, const char d
 
   std::string title;
   ifs >> title;  // Skip title
-  while (!ifs.eof()) {
+  std::string line;
+  while (ifs >> line) {
     HipparcosData hipparcos_data;
 
-    std::string line;
-    ifs >> line;
     std::replace(line.begin(), line.end(), delimiter, ' ');  // Convert delimiter as space for stringstream
     std::istringstream streamline(line);
 
-- 
2.43.0


From 977e1e6f91a96a8307a00e2e84bceff3876ff842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:19 +0000
Subject: [PATCH 75/84] fix: do not use coefficients which a geopotential file
 does not contain

---
 src/disturbances/geopotential.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index 73b6ddc..59af493 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -62,7 +62,10 @@ bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
     std::string line;
     getline(coeff_file, line);
     std::istringstream streamline(line);
-    streamline >> n >> m >> c_nm_norm >> s_nm_norm;
+    if (!(streamline >> n >> m >> c_nm_norm >> s_nm_norm) || n < 0 || n > (int)degree_ || m < 0 || m > n) {
+      std::cerr << "File format error: Geopotential\n";
+      return false;
+    }
 
     c_[n][m] = c_nm_norm;
     s_[n][m] = s_nm_norm;
-- 
2.43.0


From 62da0d6822f66c2e20e372610d82ed87b0d374d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:23 +0000
Subject: [PATCH 76/84] fix: blank lines in a WINGS operation file

---
 .../real/communication/wings_command_sender_to_c2a.cpp         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/components/real/communication/wings_command_sender_to_c2a.cpp b/src/components/real/communication/wings_command_sender_to_c2a.cpp
index ae3989f..0d4a008 100644
--- a/src/components/real/communication/wings_command_sender_to_c2a.cpp
+++ b/src/components/real/communication/wings_command_sender_to_c2a.cpp
@@ -53,6 +53,9 @@ void WingsCommandSenderToC2a::ExecuteCommandLine(const std::string line) {
     tokens.push_back(token);
   }
 
+  // Nothing is left in a line of blanks
+  if (tokens.empty()) return;
+
   // Handle WINGS commands
   if (tokens[0].find("wait_sec") == 0) {
     // wait process
-- 
2.43.0


From ab41d35a4bc8c98da0283b568b3be045f38f91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:50 +0000
Subject: [PATCH 77/84] fix: read the initial orbit from the section the caller
 names

---
 src/dynamics/orbit/initialize_orbit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/orbit/initialize_orbit.cpp b/src/dynamics/orbit/initialize_orbit.cpp
index e039adb..32c7f08 100644
--- a/src/dynamics/orbit/initialize_orbit.cpp
+++ b/src/dynamics/orbit/initialize_orbit.cpp
@@ -31,7 +31,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize RK4 orbit propagator
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -91,7 +91,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize orbit for Encke's method
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -116,7 +116,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
 
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
-- 
2.43.0


From c6784acf9c17a7f825d0119b2a756ada787a89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:27 +0000
Subject: [PATCH 78/84] fix: read each ground station from its own settings
 file

---
 src/simulation/ground_station/ground_station.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulation/ground_station/ground_station.cpp b/src/simulation/ground_station/ground_station.cpp
index 2c06c7b..0adc0d1 100644
--- a/src/simulation/ground_station/ground_station.cpp
+++ b/src/simulation/ground_station/ground_station.cpp
@@ -27,7 +27,9 @@ GroundStation::GroundStation(const simulation::SimulationConfiguration* configur
 GroundStation::~GroundStation() {}
 
 void GroundStation::Initialize(const simulation::SimulationConfiguration* configuration, const unsigned int ground_station_id) {
-  std::string gs_ini_path = configuration->ground_station_file_list_[0];
+  // A station without its own file is described in the first file
+  const size_t file_index = (ground_station_id < configuration->ground_station_file_list_.size()) ? ground_station_id : 0;
+  std::string gs_ini_path = configuration->ground_station_file_list_[file_index];
   auto conf = setting_file_reader::IniAccess(gs_ini_path);
 
   const char* section_base = "GROUND_STATION_";
-- 
2.43.0


From 53c7858813a1dadf89f1a4b483c78b4dcbddfead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:48 +0000
Subject: [PATCH 79/84] fix: the degree of a geomagnetic coefficient file is
 that of its own terms

---
 src/math_physics/geomagnetic/igrf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 939625b..c5822ef 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -428,17 +428,17 @@ void gigrf(int gen, double year) {
   for (i = 0, n = 1; n <= maxod; n++) {
     vgh[0][n] = cb[i];
     vght[0][n] = cv[i];
-    i++;
     if ((cb[i] != 0.) || (cv[i] != 0.)) k = n;
+    i++;
     for (m = 1; m <= n; m++) {
       vgh[m][n] = cb[i];
       vght[m][n] = cv[i];
-      i++;
       if ((cb[i] != 0.) || (cv[i] != 0.)) k = n;
+      i++;
       vgh[n][m - 1] = cb[i];
       vght[n][m - 1] = cv[i];
-      i++;
       if ((cb[i] != 0.) || (cv[i] != 0.)) k = n;
+      i++;
     }
   }
   maxod = k;
-- 
2.43.0


From d4ad01943b383dfad938eff4099cca1209ef6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:51 +0000
Subject: [PATCH 80/84] fix: reading an ANTEX file ends at the end of the file

---
 src/math_physics/gnss/antex_file_reader.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 4a3c74f..768b7a0 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -90,8 +90,7 @@ void AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
   AntexSatelliteData antex_data;
 
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
+  while (std::getline(antex_file, line)) {
 
     // Type and Serial No.
     if (line.find("TYPE / SERIAL NO") == ANTEX_LINE_TYPE_POSITION) {
@@ -121,12 +120,10 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
   std::vector<AntexPhaseCenterData> phase_center_data_list;
 
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
+  while (std::getline(antex_file, line)) {
 
     // End antenna data
     if (line.find("END OF ANTENNA") == ANTEX_LINE_TYPE_POSITION) {
-      antex_data.SetPhaseCenterData(phase_center_data_list);
       break;
     }
     // Grid angle definition
@@ -153,6 +150,7 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
       phase_center_data_list.push_back(phase_center_data);
     }
   }
+  antex_data.SetPhaseCenterData(phase_center_data_list);
 
   return antex_data;
 }
@@ -160,8 +158,7 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
 AntexPhaseCenterData AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_file, const AntexGridDefinition grid_information) {
   AntexPhaseCenterData phase_center_data;
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
+  while (std::getline(antex_file, line)) {
 
     // End antenna data
     if (line.find("END OF FREQUENCY") == ANTEX_LINE_TYPE_POSITION) {
-- 
2.43.0


From 8e86cb82cb198bc50164d9cd61f321305daa655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:51 +0000
Subject: [PATCH 81/84] fix: reading a Bias-SINEX file ends at the end of the
 file

---
 .../gnss/bias_sinex_file_reader.cpp            | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index b8a203c..d59db6e 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -74,8 +74,7 @@ bool BiasSinexFileReader::ReadFile(const std::string file_name) {
 
 void BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-FILE/REFERENCE") == 0) {
       break;
@@ -86,8 +85,7 @@ void BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
 
 void BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-FILE/COMMENT") == 0) {
       break;
@@ -98,8 +96,7 @@ void BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
 
 void BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-INPUT/ACKNOWLEDGMENTS") == 0) {
       break;
@@ -110,8 +107,7 @@ void BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_fil
 
 void BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/DESCRIPTION") == 0) {
       break;
@@ -122,8 +118,7 @@ void BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
 
 void BiasSinexFileReader::ReadBiasReceiverInformation(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/RECEIVER_INFORMATION") == 0) {
       break;
@@ -135,8 +130,7 @@ void BiasSinexFileReader::ReadBiasReceiverInformation(std::ifstream& bias_sinex_
 void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
   std::string line;
 
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/SOLUTION") == 0) {
       break;
-- 
2.43.0


From 147ad1f6c0b11ec16e45737ced1ba92484e2b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:51 +0000
Subject: [PATCH 82/84] fix: the last column of a Bias-SINEX line is read

---
 src/math_physics/gnss/bias_sinex_file_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index d59db6e..eab999e 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -187,12 +187,12 @@ void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
     solution_data.SetBiasStandardDeviation(std::stod(line.substr(read_point, read_size)));
     read_point += read_size + 1;
 
-    if (read_point + 21 < line.size()) {
+    if (read_point + 21 <= line.size()) {
       read_size = 21;
       solution_data.SetSlope_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
     }
-    if (read_point + 12 < line.size()) {
+    if (read_point + 12 <= line.size()) {
       read_size = 12;
       solution_data.SetSlopeStandardDeviation_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
-- 
2.43.0


From 7d8825a0ea40f33709321d9832800c123e8a9f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:23 +0000
Subject: [PATCH 83/84] fix: I2C access to an unconnected port of the on-board
 computer is refused

---
 src/components/real/cdh/on_board_computer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index 56a0a32..9f39c08 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -95,6 +95,7 @@ int OnBoardComputer::I2cCloseComPort(int port_id) {
 int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -103,6 +104,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
 int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -110,6 +112,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
 }
 int OnBoardComputer::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
-- 
2.43.0


From 18f0e20799036c152c9d7b44b4199c6d4bca622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:23 +0000
Subject: [PATCH 84/84] fix: I2C access to an unconnected port of the C2A
 on-board computer is refused

---
 src/components/real/cdh/on_board_computer_with_c2a.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/components/real/cdh/on_board_computer_with_c2a.cpp b/src/components/real/cdh/on_board_computer_with_c2a.cpp
index 407c393..028286d 100644
--- a/src/components/real/cdh/on_board_computer_with_c2a.cpp
+++ b/src/components/real/cdh/on_board_computer_with_c2a.cpp
@@ -156,12 +156,14 @@ int ObcWithC2a::I2cCloseComPort(int port_id) {
 
 int ObcWithC2a::I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->WriteCommand(i2c_address, data, length);
   return 0;
 }
 
 int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
 
   if (length == 1) {
     i2c_port->WriteRegister(i2c_address, data[0]);
@@ -175,6 +177,7 @@ int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, c
 
 int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address);
   }
@@ -184,6 +187,7 @@ int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, un
 int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                           const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -192,6 +196,7 @@ int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_a
 int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                          const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -199,6 +204,7 @@ int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_ad
 }
 int ObcWithC2a::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
-- 
2.43.0

