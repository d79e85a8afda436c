From 67d22505a31f7a58ea895f956741b70ba69bacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 01/83] fix: initialise the timer count of ClockGenerator

---
 src/environment/global/clock_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/global/clock_generator.hpp b/src/environment/global/clock_generator.hpp
index 87361d7..f3192c2 100644
--- a/src/environment/global/clock_generator.hpp
+++ b/src/environment/global/clock_generator.hpp
@@ -56,7 +56,7 @@ class ClockGenerator {
 
  private:
   std::vector<components::ITickable*> components_;  //!< Component list fot tick
-  unsigned int timer_count_;                        //!< Timer count TODO: change to long?
+  unsigned int timer_count_ = 0;                    //!< Timer count TODO: change to long?
 };
 
 }  // namespace s2e::environment
-- 
2.43.0


From 3bc9ed440cdd9a2608510fe7e61cfef983554875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 02/83] fix: update the local celestial information also when
 only the orbit is propagated

With an attitude update period longer than the orbit update period the solar radiation pressure
environment and the third body gravity used stale celestial positions, all zero before the first
attitude update, so that the orbit became NaN.
---
 src/environment/local/local_environment.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/local_environment.cpp b/src/environment/local/local_environment.cpp
index 5a1768d..0a200e6 100644
--- a/src/environment/local/local_environment.cpp
+++ b/src/environment/local/local_environment.cpp
@@ -57,10 +57,14 @@ void LocalEnvironment::Update(const dynamics::Dynamics* dynamics, const Simulati
   auto& orbit = dynamics->GetOrbit();
   auto& attitude = dynamics->GetAttitude();
 
-  // Update local environments that depend on the attitude (and the position)
-  if (simulation_time->GetAttitudePropagateFlag()) {
+  // Update the celestial information, which both the attitude dependent and the position dependent environments use
+  if (simulation_time->GetAttitudePropagateFlag() || simulation_time->GetOrbitPropagateFlag()) {
     celestial_information_->UpdateAllObjectsInformation(orbit.GetPosition_i_m(), orbit.GetVelocity_i_m_s(), attitude.GetQuaternion_i2b(),
                                                         attitude.GetAngularVelocity_b_rad_s());
+  }
+
+  // Update local environments that depend on the attitude (and the position)
+  if (simulation_time->GetAttitudePropagateFlag()) {
     geomagnetic_field_->CalcMagneticField(simulation_time->GetCurrentDecimalYear(), simulation_time->GetCurrentSiderealTime(),
                                           orbit.GetGeodeticPosition(), attitude.GetQuaternion_i2b());
   }
-- 
2.43.0


From 3dc77b25908f3099db8c51dbd57f63ccc126db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 03/83] fix: initialise the switch state of PowerPort

is_on_ was indeterminate until the first SetVoltage_V, so a component could run without power.
---
 src/components/ports/power_port.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/ports/power_port.cpp b/src/components/ports/power_port.cpp
index 5671b94..9f9d2d7 100644
--- a/src/components/ports/power_port.cpp
+++ b/src/components/ports/power_port.cpp
@@ -12,8 +12,8 @@
 namespace s2e::components {
 
 PowerPort::PowerPort() : kPortId(-1), current_limit_A_(10.0), minimum_voltage_V_(3.3), assumed_power_consumption_W_(0.0) {
-  is_on_ = true;  // power on to work the component
   Initialize();
+  is_on_ = true;  // power on to work the component
 }
 
 PowerPort::PowerPort(const int port_id, const double current_limit_A)
@@ -35,6 +35,7 @@ void PowerPort::Initialize(void) {
   UNUSED(kPortId);  // TODO: consider delete this variable
   voltage_V_ = 0.0f;
   current_consumption_A_ = 0.0f;
+  is_on_ = false;
 }
 
 bool PowerPort::Update(void) {
-- 
2.43.0


From d3f694f49d7d2bd4904cd87205c838ef2c6c948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 04/83] fix: I2C register access of OnBoardComputer

The read passed the I2C address and the register address in the wrong order, and both the read and
the write used the same register for every byte. ObcWithC2a already does it like this.
---
 src/components/real/cdh/on_board_computer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index c661fc6..4d3602a 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -95,16 +95,16 @@ int OnBoardComputer::I2cCloseComPort(int port_id) {
 int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
-  for (int i = 0; i < length; i++) {
-    i2c_port->WriteRegister(i2c_address, register_address, data[i]);
+  for (unsigned char i = 0; i < length; i++) {
+    i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
   return 0;
 }
 int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
-  for (int i = 0; i < length; i++) {
-    data[i] = i2c_port->ReadRegister(register_address, i2c_address);
+  for (unsigned char i = 0; i < length; i++) {
+    data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
   return 0;
 }
-- 
2.43.0


From 51825dd395001a6851468ee02ff20499e505a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 05/83] fix: I2C functions of the on board computers on a port
 that is not connected

They dereferenced a null pointer; return -1 as the UART and GPIO functions do.
---
 src/components/real/cdh/on_board_computer.cpp          | 3 +++
 src/components/real/cdh/on_board_computer_with_c2a.cpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index 4d3602a..aee624c 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -95,6 +95,7 @@ int OnBoardComputer::I2cCloseComPort(int port_id) {
 int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -103,6 +104,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
 int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -110,6 +112,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
 }
 int OnBoardComputer::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
diff --git a/src/components/real/cdh/on_board_computer_with_c2a.cpp b/src/components/real/cdh/on_board_computer_with_c2a.cpp
index 407c393..028286d 100644
--- a/src/components/real/cdh/on_board_computer_with_c2a.cpp
+++ b/src/components/real/cdh/on_board_computer_with_c2a.cpp
@@ -156,12 +156,14 @@ int ObcWithC2a::I2cCloseComPort(int port_id) {
 
 int ObcWithC2a::I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->WriteCommand(i2c_address, data, length);
   return 0;
 }
 
 int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
 
   if (length == 1) {
     i2c_port->WriteRegister(i2c_address, data[0]);
@@ -175,6 +177,7 @@ int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, c
 
 int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address);
   }
@@ -184,6 +187,7 @@ int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, un
 int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                           const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -192,6 +196,7 @@ int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_a
 int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                          const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -199,6 +204,7 @@ int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_ad
 }
 int ObcWithC2a::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
-- 
2.43.0


From 9245f8a8bc705bc0c72e9f47c0277a6dd3d7c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 06/83] fix: check the telemetry size against the TX buffer

UartCommunicationWithObc::SendTelemetry compared with the RX buffer size, so that it read past the
TX buffer when TX is smaller and refused valid telemetry when TX is larger.
---
 src/components/base/uart_communication_with_obc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 74a7f92..1243825 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -161,8 +161,8 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
 int UartCommunicationWithObc::SendTelemetry(const unsigned int offset) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   int tlm_size = GenerateTelemetry();
-  if (offset > rx_buffer_size_) return -1;
-  if (offset + tlm_size > rx_buffer_size_) return -1;
+  if (offset > tx_buffer_size_) return -1;
+  if (offset + tlm_size > tx_buffer_size_) return -1;
 
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-- 
2.43.0


From 4a773be5a7923c44a6185b0e007ff0a09f2d05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 07/83] fix: ReceiveCommand with an offset or without a
 connected port

With an offset the received data was written past the end of rx_buffer_, and a sum of offset and
rec_size beyond the unsigned range passed the size check; the error code of a port which is not
connected was passed to ParseCommand as the size of a command.
---
 src/components/base/uart_communication_with_obc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 1243825..84d6000 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -139,17 +139,19 @@ void UartCommunicationWithObc::InitializeObcComBase() {
 int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const unsigned int rec_size) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   if (offset > rx_buffer_size_) return -1;
-  if (offset + rec_size > rx_buffer_size_) return -1;
-  rx_buffer_.resize(rec_size);
+  if (rec_size > rx_buffer_size_ - offset) return -1;
+  rx_buffer_.resize(offset + rec_size);
 
   int ret;
   switch (simulation_mode_) {
     case SimulationMode::kSils:
       ret = obc_->ReceivedByCompo(sils_port_id_, &rx_buffer_.front(), offset, rec_size);
+      if (ret < 0) return ret;
       if (ret == 0) return 0;  // No read data
       return ParseCommand(ret);
     case SimulationMode::kHils:
       ret = hils_port_manager_->UartReceive(hils_port_id_, &rx_buffer_.front(), offset, rec_size);
+      if (ret < 0) return ret;
       if (ret == 0) return 0;  // No read data
       return ParseCommand(ret);
     default:
-- 
2.43.0


From 74a9f00891df399ca3a5cb11beca8ac3376f3482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 08/83] fix: initialise the charge current and the voltage of
 Battery

Only the copy constructor did, so a battery constructed directly started with indeterminate values.
---
 src/components/real/power/battery.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/real/power/battery.cpp b/src/components/real/power/battery.cpp
index 865c17b..36864bf 100644
--- a/src/components/real/power/battery.cpp
+++ b/src/components/real/power/battery.cpp
@@ -22,7 +22,10 @@ Battery::Battery(const int prescaler, environment::ClockGenerator* clock_generat
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(component_step_time_s) {}
+      compo_step_time_s_(component_step_time_s) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_series, int number_of_parallel, double cell_capacity_Ah,
                  const std::vector<double> cell_discharge_curve_coefficients, double initial_dod, double cc_charge_c_rate, double cv_charge_voltage_V,
@@ -36,7 +39,10 @@ Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_ser
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(0.1) {}
+      compo_step_time_s_(0.1) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(const Battery& obj)
     : Component(obj),
-- 
2.43.0


From 14f22bb2f1e8fa8306421ac6616669514ae79216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 09/83] fix: CsvScenarioInterface query before the first row

The iterator was decremented at begin(), which is undefined and may return the value of another row.
---
 src/components/real/power/csv_scenario_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 54ee31a..33b1e90 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -89,8 +89,8 @@ void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std:
 double CsvScenarioInterface::GetValueFromBuffer(const std::string buffer_name, const double time_query) {
   double output;
   auto itr = buffers_.at(buffer_name).upper_bound(time_query);
+  if (itr == buffers_.at(buffer_name).begin()) return 0;
   itr--;
-  if (itr == buffers_.at(buffer_name).end()) return 0;
   output = itr->second;
   return output;
 }
-- 
2.43.0


From 1466b3f2f576605558e2b8530c7375f07069b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 10/83] fix: CsvScenarioInterface kept the rows of the
 previously read scenario

The buffers are static, so reading another scenario merged its rows with the old ones.
---
 src/components/real/power/csv_scenario_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 33b1e90..09d194d 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -31,6 +31,7 @@ void CsvScenarioInterface::Initialize(const std::string file_name) {
   std::vector<std::vector<double>> data;
   data = ReadCsvData(csv_path, 1);
 
+  buffers_.clear();
   for (auto itr = buffer_line_id_.begin(); itr != buffer_line_id_.end(); itr++) {
     StoreBuffer(itr->first, data);
   }
-- 
2.43.0


From b85b401d55573232ff1c71e2a48c4d07f8b7e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 11/83] fix: annular eclipse discarded the shadow of the other
 bodies

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index c571f30..ecb1344 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -89,7 +89,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     shadow_coefficient_ *= 0.0;
   } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
-    shadow_coefficient_ = 1.0 - (b * b) / (a * a);
+    shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
     double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
-- 
2.43.0


From 9abaf5c42e22090fa1aa6cd36b75241dc3f54961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 12/83] fix: only the first of the third shadow sources was
 used

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index ecb1344..381c86b 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -116,7 +116,7 @@ SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::str
   size_t number_of_third_shadow_source = conf.ReadInt(section, "number_of_third_shadow_source");
   std::vector<std::string> list = conf.ReadVectorString(section, "third_shadow_source_name", number_of_third_shadow_source);
   for (size_t i = 0; i < number_of_third_shadow_source; i++) {
-    srp_env.AddShadowSource(list[0]);
+    srp_env.AddShadowSource(list[i]);
   }
 
   return srp_env;
-- 
2.43.0


From db842272c35310d7497c7eecd645139612c57ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 13/83] fix: shadow coefficient of aligned and touching discs

---
 .../local/solar_radiation_pressure_environment.cpp    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 381c86b..3a2667d 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -74,7 +74,8 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
 
   // Angle of deviation from shadow source center to sun center
   math::Vector<3> r_source2sun_eci = r_sc2sun_eci - r_sc2source_eci;
-  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci - r_sc2source_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm());
+  const double cos_delta = InnerProduct(r_sc2source_eci, r_sc2sun_eci - r_sc2source_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm();
+  const double delta = acos(std::max(-1.0, std::min(cos_delta, 1.0)));  // Limited since rounding errors may exceed 1 in alignment
   // The angle between the center of the sun and the common chord
   const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
   // The length of the common chord of the apparent solar disk and apparent telestial disk
@@ -84,15 +85,17 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double b = sd_source;
   const double c = delta;
 
-  if (c < fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
+  if (c <= fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
   {
     shadow_coefficient_ *= 0.0;
-  } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
+  } else if (c <= fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
     shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
-    double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
+    const double cos_sun = std::max(-1.0, std::min(x / a, 1.0));
+    const double cos_source = std::max(-1.0, std::min((c - x) / b, 1.0));
+    double A = a * a * acos(cos_sun) + b * b * acos(cos_source) - c * y;  // The area of the occulted segment of the apparent solar disk
     shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);
   } else {  // no occultation takes place
     if (c < (a + b)) {
-- 
2.43.0


From 5663855670864c5f943896580488bbff4508256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 14/83] fix: reject the body index just past the selected
 celestial bodies

---
 src/environment/global/celestial_information.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/celestial_information.hpp b/src/environment/global/celestial_information.hpp
index ea04e56..bcfaf7b 100644
--- a/src/environment/global/celestial_information.hpp
+++ b/src/environment/global/celestial_information.hpp
@@ -77,7 +77,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetPositionFromCenter_i_m(const unsigned int id) const {
     math::Vector<3> pos(0.0);
-    if (id > number_of_selected_bodies_) return pos;
+    if (id >= number_of_selected_bodies_) return pos;
     for (int i = 0; i < 3; i++) pos[i] = celestial_body_position_from_center_i_m_[id * 3 + i];
     return pos;
   }
@@ -112,7 +112,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetVelocityFromCenter_i_m_s(const unsigned int id) const {
     math::Vector<3> vel(0.0);
-    if (id > number_of_selected_bodies_) return vel;
+    if (id >= number_of_selected_bodies_) return vel;
     for (int i = 0; i < 3; i++) vel[i] = celestial_body_velocity_from_center_i_m_s_[id * 3 + i];
     return vel;
   }
@@ -164,7 +164,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetRadii_m(const unsigned int id) const {
     math::Vector<3> radii(0.0);
-    if (id > number_of_selected_bodies_) return radii;
+    if (id >= number_of_selected_bodies_) return radii;
     for (int i = 0; i < 3; i++) radii[i] = celestial_body_planetographic_radii_m_[id * 3 + i];
     return radii;
   }
-- 
2.43.0


From 80d5fc1322334bd42592b0a70f70df95373dc82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 15/83] fix: frame of the angular velocity in the body frame
 velocity of celestial bodies

---
 src/environment/local/local_celestial_information.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/local_celestial_information.cpp b/src/environment/local/local_celestial_information.cpp
index dab63ee..c82738d 100644
--- a/src/environment/local/local_celestial_information.cpp
+++ b/src/environment/local/local_celestial_information.cpp
@@ -120,8 +120,10 @@ void LocalCelestialInformation::ConvertVelocityInertialToBody(const double* posi
     wb[i] = angular_velocity_b[i];
   }
 
+  math::Vector<3> wi = quaternion_i2b.InverseFrameConversion(wb);
+
   // compute cross term wxr
-  math::Vector<3> wxposition_i = OuterProduct(wb, ri);
+  math::Vector<3> wxposition_i = OuterProduct(wi, ri);
   // compute dr/dt + wxr
   for (int i = 0; i < 3; i++) {
     vi[i] = vi[i] - wxposition_i[i];
-- 
2.43.0


From c22aeb8f3cc4753599c1f214f7444e5a7b60489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 16/83] fix: SLIP decoding of a truncated escape and of an
 empty frame with header

---
 src/utilities/slip.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities/slip.cpp b/src/utilities/slip.cpp
index b1f0fbb..842d4a9 100644
--- a/src/utilities/slip.cpp
+++ b/src/utilities/slip.cpp
@@ -27,6 +27,10 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
   while (1) {
     fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
     if (fesc_itr == out.end()) break;
+    if (fesc_itr + 1 == out.end()) {
+      out.erase(fesc_itr);
+      break;
+    }
     // convert
     if (*(fesc_itr + 1) == kSlipTfend_) {
       *(fesc_itr + 1) = kSlipFend_;
@@ -43,6 +47,7 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
 }
 
 std::vector<uint8_t> decode_slip_with_header(const std::vector<uint8_t> in) {
+  if (in.empty()) return in;
   std::vector<uint8_t> in_without_header = in;
   in_without_header.erase(in_without_header.begin(), in_without_header.begin() + 1);
   return decode_slip(in_without_header);
-- 
2.43.0


From 3aeb736cd8e14462da914b2be78a01b0b95503ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 17/83] fix: endian_memcpy of zero bytes wrote one byte

---
 src/utilities/endian.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utilities/endian.cpp b/src/utilities/endian.cpp
index 6aa2111..f8d801f 100644
--- a/src/utilities/endian.cpp
+++ b/src/utilities/endian.cpp
@@ -15,9 +15,10 @@ void *endian_memcpy(void *dst, const void *src, size_t size) {
   uint8_t *dst_ = (uint8_t *)dst;
   size_t i;
 
-  if (size > 0) {
-    size--;
+  if (size == 0) {
+    return dst;
   }
+  size--;
 
   for (i = 0; i <= size; i++) {
     *(dst_ + (size - i)) = *(src_ + i);
-- 
2.43.0


From 7040fef52660d3d0d7db4fbe4cef136baada7600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 18/83] fix: blank lines and indented comments in WINGS
 operation files

---
 src/setting_file_reader/wings_operation_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/setting_file_reader/wings_operation_file.cpp b/src/setting_file_reader/wings_operation_file.cpp
index 78efa4d..a8dc527 100644
--- a/src/setting_file_reader/wings_operation_file.cpp
+++ b/src/setting_file_reader/wings_operation_file.cpp
@@ -32,6 +32,8 @@ WingsOperationFile::WingsOperationFile(const std::string file_path) {
     if (comment_position != std::string::npos) {
       line = line.substr(0, comment_position);
     }
+    // Ignore blank line
+    if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
     // add line
     if (line.length() > 2) {
       lines_.push_back(line);
-- 
2.43.0


From f40e8cc18488ce6ff45c7e9013936730afb62f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 19/83] fix: position in the heat load table after the first
 period

---
 src/dynamics/thermal/heatload.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/thermal/heatload.cpp b/src/dynamics/thermal/heatload.cpp
index 29b8cdb..7da7006 100644
--- a/src/dynamics/thermal/heatload.cpp
+++ b/src/dynamics/thermal/heatload.cpp
@@ -45,11 +45,12 @@ void Heatload::SetElapsedTime_s(double elapsed_time_s) {
   elapsed_time_s_ = elapsed_time_s;
   residual_elapsed_time_s_ = fmod(elapsed_time_s_, time_table_period_s_);
 
-  while (residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
+  // Search from the head again when a new period of the table starts
+  if (residual_elapsed_time_s_ < time_table_s_[elapsed_time_idx_]) {
+    elapsed_time_idx_ = 0;
+  }
+  while (elapsed_time_idx_ + 2 < time_table_s_.size() && residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
     elapsed_time_idx_++;
-    if (elapsed_time_idx_ > time_table_s_.size() - 1) {
-      elapsed_time_idx_ = 0;
-    }
   }
 }
 
-- 
2.43.0


From a3041d6c43ecf1c05bac9126cb306bce659e907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 20/83] fix: a disabled logger copied initialize files into the
 working directory

---
 src/logger/logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logger/logger.cpp b/src/logger/logger.cpp
index 3bc823c..188eb9e 100644
--- a/src/logger/logger.cpp
+++ b/src/logger/logger.cpp
@@ -94,6 +94,7 @@ fs::path Logger::CreateDirectory(const fs::path &data_path, const std::string &t
 
 void Logger::CopyFileToLogDirectory(const fs::path &ini_file_name) {
   if (is_ini_save_enabled_ == false) return;
+  if (directory_path_.empty()) return;  // The log directory is not created when the logger is disabled
   // Copy files to the directory
   fs::path to_file_name = directory_path_ / ini_file_name.filename();
 
-- 
2.43.0


From d320603c02222ab155af5a5eae7e7413c6609ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 21/83] fix: Monte-Carlo seed set before the first parameter,
 and values kept from the previous seed

---
 .../initialize_monte_carlo_parameters.cpp                  | 7 ++++++-
 .../initialize_monte_carlo_parameters.hpp                  | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 967b92b..ce2f128 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -13,6 +13,7 @@ namespace s2e::simulation {
 
 random_device InitializedMonteCarloParameters::randomizer_;
 mt19937 InitializedMonteCarloParameters::mt_;
+bool InitializedMonteCarloParameters::is_seed_set_ = false;
 uniform_real_distribution<>* InitializedMonteCarloParameters::uniform_distribution_;
 normal_distribution<>* InitializedMonteCarloParameters::normal_distribution_;
 
@@ -20,7 +21,7 @@ InitializedMonteCarloParameters::InitializedMonteCarloParameters() {
   // Generate object when the first execution
   static bool initial_setup_done = false;
   if (!initial_setup_done) {
-    SetSeed();
+    if (!InitializedMonteCarloParameters::is_seed_set_) SetSeed();  // Keep the seed set by users
     InitializedMonteCarloParameters::uniform_distribution_ = new uniform_real_distribution<>(0.0, 1.0);
     InitializedMonteCarloParameters::normal_distribution_ = new normal_distribution<>(0.0, 1.0);
     initial_setup_done = true;
@@ -31,11 +32,15 @@ InitializedMonteCarloParameters::InitializedMonteCarloParameters() {
 }
 
 void InitializedMonteCarloParameters::SetSeed(unsigned long seed, bool is_deterministic) {
+  InitializedMonteCarloParameters::is_seed_set_ = true;
   if (is_deterministic) {
     InitializedMonteCarloParameters::mt_.seed(seed);
   } else {
     InitializedMonteCarloParameters::mt_.seed(InitializedMonteCarloParameters::randomizer_());
   }
+  // Discard the values the distributions keep from the previous seed
+  if (InitializedMonteCarloParameters::uniform_distribution_ != nullptr) InitializedMonteCarloParameters::uniform_distribution_->reset();
+  if (InitializedMonteCarloParameters::normal_distribution_ != nullptr) InitializedMonteCarloParameters::normal_distribution_->reset();
 }
 
 void InitializedMonteCarloParameters::GetRandomizedScalar(double& destination) const {
diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
index e4bc346..57ade91 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
@@ -92,6 +92,7 @@ class InitializedMonteCarloParameters {
   RandomizationType randomization_type_;                           //!< Randomization type
   static std::random_device randomizer_;                           //!< Non-deterministic random number generator with time information
   static std::mt19937 mt_;                                         //!< Deterministic random number generator
+  static bool is_seed_set_;                                        //!< Flag to express the seed is already set
   static std::uniform_real_distribution<>* uniform_distribution_;  //!< Uniform random number generator
   static std::normal_distribution<>* normal_distribution_;         //!< Normal random number generator
 
-- 
2.43.0


From c7ed59871cb5dd1c42aec3845ae9aa84c4095631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 22/83] fix: uniform randomization of quaternion

---
 .../initialize_monte_carlo_parameters.cpp                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index ce2f128..69ab4b5 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -266,7 +266,8 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   for (int i = 0; i < 3; i++) {
     first_cnv[i] = op[i];
   }
-  first_cnv[3] = cos_angle_between;
+  first_cnv[3] = 1.0 + cos_angle_between;  // Proportional to the quaternion of the rotation by the angle between the two vectors
+  first_cnv.Normalize();
 
   // Generate randomized rotation angle around the X-axis
   double rotation_angle = InitializedMonteCarloParameters::Generate1dUniform(0.0, math::tau);
-- 
2.43.0


From 6877d8439953a7f26ce14997b8106f1130fc416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 23/83] fix: normal random values after seeding again

---
 ...nimal_standard_linear_congruential_generator_with_shuffle.cpp | 1 +
 src/math_physics/randomization/normal_randomization.hpp          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
index 3bdd51d..b011b1c 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
@@ -13,6 +13,7 @@ MinimalStandardLcgWithShuffle::MinimalStandardLcgWithShuffle(const long seed) :
 
 void MinimalStandardLcgWithShuffle::InitSeed(const long seed) {
   minimal_lcg_.Initialize(seed);
+  table_position_ = 0;
   Initialize();
 }
 
diff --git a/src/math_physics/randomization/normal_randomization.hpp b/src/math_physics/randomization/normal_randomization.hpp
index b230680..9cf7725 100644
--- a/src/math_physics/randomization/normal_randomization.hpp
+++ b/src/math_physics/randomization/normal_randomization.hpp
@@ -94,6 +94,7 @@ class NormalRand {
     average_ = average;
     standard_deviation_ = standard_deviation;
     randomizer_.InitSeed(seed);
+    is_empty_ = true;  // Discard the value generated with the previous seed
   }
 
  private:
-- 
2.43.0


From 1018febf083507c7176fb20152fb8f7f1fed849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 24/83] fix: output torque of a reaction wheel after loss of
 power

---
 src/components/real/aocs/reaction_wheel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 9cdbac4..29ae9c0 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -92,7 +92,11 @@ void ReactionWheel::MainRoutine(const int time_count) {
   CalcTorque();
 }
 
-void ReactionWheel::PowerOffRoutine() { drive_flag_ = 0; }
+void ReactionWheel::PowerOffRoutine() {
+  drive_flag_ = 0;
+  generated_angular_acceleration_rad_s2_ = 0.0;
+  output_torque_b_Nm_ *= 0.0;
+}
 
 // Jitter calculation
 void ReactionWheel::FastUpdate() {
-- 
2.43.0


From 49eb1409b4afbf26e1fc1b2068640528f49d6655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 25/83] fix: reaction wheels shared a single jitter

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39965a6..39aa76a 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -209,7 +209,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
   ReactionWheelOde ode_angular_velocity_;  //!< Reaction Wheel OrdinaryDifferentialEquation
 
   // RW jitter
-  ReactionWheelJitter& rw_jitter_;     //!< RW jitter
+  ReactionWheelJitter rw_jitter_;      //!< RW jitter
   bool is_calculated_jitter_ = false;  //!< Flag for calculation of jitter
   bool is_logged_jitter_ = false;      //!< Flag for log output of jitter
 
-- 
2.43.0


From d99c971848013da339aaddc4c2bd9675470cd109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 26/83] fix: noise of the magnetorquer accumulated in its
 command

---
 src/components/real/aocs/magnetorquer.cpp | 2 ++
 src/components/real/aocs/magnetorquer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 0ee096e..2dd5e6a 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -67,12 +67,14 @@ void Magnetorquer::MainRoutine(const int time_count) {
 
 void Magnetorquer::PowerOffRoutine() {
   torque_b_Nm_ *= 0.0;
+  target_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_b_Am2_ *= 0.0;
 }
 
 math::Vector<kMtqDimension> Magnetorquer::CalcOutputTorque(void) {
   for (size_t i = 0; i < kMtqDimension; ++i) {
+    output_magnetic_moment_c_Am2_[i] = target_magnetic_moment_c_Am2_[i];
     // Limit Check
     if (output_magnetic_moment_c_Am2_[i] > max_magnetic_moment_c_Am2_[i]) {
       output_magnetic_moment_c_Am2_[i] = max_magnetic_moment_c_Am2_[i];
diff --git a/src/components/real/aocs/magnetorquer.hpp b/src/components/real/aocs/magnetorquer.hpp
index 0ef0a5e..479028b 100644
--- a/src/components/real/aocs/magnetorquer.hpp
+++ b/src/components/real/aocs/magnetorquer.hpp
@@ -108,7 +108,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
    * @fn SetOutputMagneticMoment_c_Am2
    * @brief Set output magnetic moment in the component frame [Am2]
    */
-  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { output_magnetic_moment_c_Am2_ = mag_moment_c; };
+  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { target_magnetic_moment_c_Am2_ = mag_moment_c; };
 
   /**
    * @fn SetOutputMagneticMoment_b_Am2
@@ -126,6 +126,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
   const int component_id_ = 0;                                     //!< Actuator ID
   const double kConvertNanoT2T = 1.0e-9;                           //!< Constant to convert nT to T
   math::Vector<kMtqDimension> torque_b_Nm_{0.0};                   //!< Output torque in the body fixed frame [Nm]
+  math::Vector<kMtqDimension> target_magnetic_moment_c_Am2_{0.0};  //!< Target output magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_c_Am2_{0.0};  //!< Output output magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_b_Am2_{0.0};  //!< Output output magnetic moment in the body fixed frame [Am2]
   math::Quaternion quaternion_b2c_{0.0, 0.0, 0.0, 1.0};            //!< Quaternion from body frame to component frame
-- 
2.43.0


From 1e1405eefe0a83d53d1b67d3a078e89cff4b6b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 27/83] fix: geodetic altitude at and near the poles

---
 src/math_physics/geodesy/geodetic_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/geodesy/geodetic_position.cpp b/src/math_physics/geodesy/geodetic_position.cpp
index b72aa18..29670f0 100644
--- a/src/math_physics/geodesy/geodetic_position.cpp
+++ b/src/math_physics/geodesy/geodetic_position.cpp
@@ -44,7 +44,7 @@ void GeodeticPosition::UpdateFromEcef(const math::Vector<3> position_ecef_m) {
     lat_tmp_rad = AcTan(position_ecef_m[2] + earth_radius_m * c * e2 * sin(phi), r_m);
   } while (fabs(lat_tmp_rad - phi) >= 1E-10);
 
-  altitude_m_ = r_m / cos(lat_tmp_rad) - c * earth_radius_m;
+  altitude_m_ = r_m * cos(lat_tmp_rad) + position_ecef_m[2] * sin(lat_tmp_rad) - earth_radius_m * sqrt(1.0 - e2 * sin(lat_tmp_rad) * sin(lat_tmp_rad));
 
   if (lat_tmp_rad > math::pi_2) lat_tmp_rad -= math::tau;
 
-- 
2.43.0


From c9750ee5996a64c8f4c1614093cccdc8e06f0758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 28/83] fix: output delay of the star sensor

---
 src/components/real/aocs/star_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 1ce9315..5bb620f 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -74,7 +74,7 @@ void StarSensor::Initialize() {
 
   // Decide delay buffer size
   max_delay_ = int(output_delay_ * 2 / step_time_s_);
-  if (max_delay_ <= 0) max_delay_ = 1;
+  if (max_delay_ <= (int)output_delay_) max_delay_ = (int)output_delay_ + 1;  // The present value and the delayed ones
   vector<math::Quaternion> temp(max_delay_);
   delay_buffer_ = temp;
   // Initialize delay buffer
@@ -97,7 +97,7 @@ Quaternion StarSensor::Measure(const environment::LocalCelestialInformation* loc
   if (update_count_ == 0) {
     int hist = buffer_position_ - output_delay_ - 1;
     if (hist < 0) {
-      hist = max_delay_ - 1;
+      hist += max_delay_;
     }
     measured_quaternion_i2c_ = delay_buffer_[hist];
   }
-- 
2.43.0


From d1c81cc3eddea5c70cc2f6a2921f80a5b6096cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:23 +0000
Subject: [PATCH 29/83] fix: angle of a direction exactly on the axis

---
 src/components/real/aocs/star_sensor.cpp            | 3 ++-
 src/components/real/aocs/sun_sensor.cpp             | 5 +++--
 src/math_physics/math/vector_template_functions.hpp | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 5bb620f..c6e11a0 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -5,6 +5,7 @@
 
 #include "star_sensor.hpp"
 
+#include <algorithm>
 #include <environment/global/physical_constants.hpp>
 #include <logger/log_utility.hpp>
 #include <math_physics/math/constants.hpp>
@@ -208,7 +209,7 @@ double StarSensor::CalAngleVector_rad(const Vector<3>& vector1, const Vector<3>&
   math::Vector<3> vect2_normal = vector2.CalcNormalizedVector();
 
   double cosTheta = InnerProduct(vect1_normal, vect2_normal);  // Calc cos value
-  double theta_rad = acos(cosTheta);
+  double theta_rad = acos(std::max(std::min(cosTheta, 1.0), -1.0));
   return theta_rad;
 }
 
diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 3745d99..1cef183 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -5,6 +5,7 @@
 
 #include "sun_sensor.hpp"
 
+#include <algorithm>
 #include <logger/log_utility.hpp>
 #include <math_physics/math/constants.hpp>
 #include <math_physics/randomization/global_randomization.hpp>
@@ -101,7 +102,7 @@ void SunSensor::Measure() {
 void SunSensor::SunDetectionJudgement() {
   math::Vector<3> sun_direction_c = sun_direction_true_c_.CalcNormalizedVector();
 
-  double sun_angle_ = acos(sun_direction_c[2]);
+  double sun_angle_ = acos(std::max(std::min(sun_direction_c[2], 1.0), -1.0));
 
   if (solar_illuminance_W_m2_ < intensity_lower_threshold_percent_ / 100.0 * srp_environment_->GetSolarConstant_W_m2()) {
     sun_detected_flag_ = false;
@@ -116,7 +117,7 @@ void SunSensor::SunDetectionJudgement() {
 
 void SunSensor::CalcSolarIlluminance() {
   math::Vector<3> sun_direction_c = sun_direction_true_c_.CalcNormalizedVector();
-  double sun_angle_ = acos(sun_direction_c[2]);
+  double sun_angle_ = acos(std::max(std::min(sun_direction_c[2], 1.0), -1.0));
 
   if (sun_angle_ > math::pi_2) {
     solar_illuminance_W_m2_ = 0.0;
diff --git a/src/math_physics/math/vector_template_functions.hpp b/src/math_physics/math/vector_template_functions.hpp
index 9b99003..7ef6c6f 100644
--- a/src/math_physics/math/vector_template_functions.hpp
+++ b/src/math_physics/math/vector_template_functions.hpp
@@ -6,6 +6,7 @@
 #ifndef S2E_LIBRARY_MATH_VECTOR_TFS_HPP_
 #define S2E_LIBRARY_MATH_VECTOR_TFS_HPP_
 
+#include <algorithm>
 #include <cmath>
 
 namespace s2e::math {
@@ -143,7 +144,7 @@ Vector<N, double> Vector<N, T>::CalcNormalizedVector() const {
 template <size_t N>
 double CalcAngleTwoVectors_rad(const Vector<N, double>& v1, const Vector<N, double>& v2) {
   double cos = InnerProduct(v1, v2) / (v1.CalcNorm() * v2.CalcNorm());
-  return acos(cos);
+  return acos(std::max(std::min(cos, 1.0), -1.0));
 }
 
 }  // namespace s2e::math
-- 
2.43.0


From ce1ee1df9c235666403438e7d55f6fd382d989e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 30/83] fix: end of line at the end of the star catalogue

---
 src/environment/global/hipparcos_catalogue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/global/hipparcos_catalogue.cpp b/src/environment/global/hipparcos_catalogue.cpp
index 8888085..1b09bec 100644
--- a/src/environment/global/hipparcos_catalogue.cpp
+++ b/src/environment/global/hipparcos_catalogue.cpp
@@ -36,7 +36,7 @@ bool HipparcosCatalogue::ReadContents(const std::string& file_name, const char d
     HipparcosData hipparcos_data;
 
     std::string line;
-    ifs >> line;
+    if (!(ifs >> line)) break;
     std::replace(line.begin(), line.end(), delimiter, ' ');  // Convert delimiter as space for stringstream
     std::istringstream streamline(line);
 
-- 
2.43.0


From efb7b051ec7bedc0dddc643841d3b9372b96db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 31/83] fix: stars in the telescope with an empty catalogue

---
 src/components/real/mission/telescope.cpp | 30 ++++++++++-------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index cf17359..888cd75 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -120,7 +120,7 @@ void Telescope::ObserveStars() {
   star_list_in_sight.clear();  // Clear first
   size_t count = 0;            // Counter for while loop
 
-  while (star_list_in_sight.size() < number_of_logged_stars_) {
+  while (star_list_in_sight.size() < number_of_logged_stars_ && count < hipparcos_->GetCatalogueSize()) {
     math::Vector<3> target_b = hipparcos_->GetStarDirection_b(count, quaternion_i2b);
     math::Vector<3> target_c = quaternion_b2c_.FrameConversion(target_b);
 
@@ -140,23 +140,19 @@ void Telescope::ObserveStars() {
     }
 
     count++;
+  }
 
-    // If read all catalogue, fill -1 and break the loop
-    if (count >= hipparcos_->GetCatalogueSize()) {
-      while (star_list_in_sight.size() < number_of_logged_stars_) {
-        Star star;
-        star.hipparcos_data.hipparcos_id = -1;
-        star.hipparcos_data.visible_magnitude = -1;
-        star.hipparcos_data.right_ascension_deg = -1;
-        star.hipparcos_data.declination_deg = -1;
-        star.position_image_sensor[0] = -1;
-        star.position_image_sensor[1] = -1;
-
-        star_list_in_sight.push_back(star);
-      }
-
-      break;
-    }
+  // If read all catalogue, fill -1
+  while (star_list_in_sight.size() < number_of_logged_stars_) {
+    Star star;
+    star.hipparcos_data.hipparcos_id = -1;
+    star.hipparcos_data.visible_magnitude = -1;
+    star.hipparcos_data.right_ascension_deg = -1;
+    star.hipparcos_data.declination_deg = -1;
+    star.position_image_sensor[0] = -1;
+    star.position_image_sensor[1] = -1;
+
+    star_list_in_sight.push_back(star);
   }
 }
 
-- 
2.43.0


From 5bf8e4543114ff65b894101cce673fe432758d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 32/83] fix: heat from the Earth on a face looking exactly at
 it

---
 src/dynamics/thermal/node.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/thermal/node.cpp b/src/dynamics/thermal/node.cpp
index c6189e5..873b042 100644
--- a/src/dynamics/thermal/node.cpp
+++ b/src/dynamics/thermal/node.cpp
@@ -5,6 +5,7 @@
 
 #include "node.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <environment/global/physical_constants.hpp>
@@ -54,7 +55,8 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
   math::Vector<3> vec_b = (sat2sun_direction_b - sat2earth_direction_b).CalcNormalizedVector();
 
   const double cos_theta = InnerProduct(vec_a, vec_b);
-  const double lamda = acos(InnerProduct(sat2earth_direction_b, normal_vector_b_));
+  // The inner product of two unit vectors can exceed the range of acos by rounding
+  const double lamda = acos(std::max(std::min(InnerProduct(sat2earth_direction_b, normal_vector_b_), 1.0), -1.0));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -98,7 +100,8 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
 double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, double earth_infrared_W_m2) {
   math::Vector<3> earth_direction_b = earth_position_b_m.CalcNormalizedVector();
 
-  const double lamda = acos(InnerProduct(earth_direction_b, normal_vector_b_));
+  // The inner product of two unit vectors can exceed the range of acos by rounding
+  const double lamda = acos(std::max(std::min(InnerProduct(earth_direction_b, normal_vector_b_), 1.0), -1.0));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
-- 
2.43.0


From 0c1ed54677cddd0224a790de83ee0263150f7d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 33/83] fix: frame of the antennas in the link calculation

---
 .../real/communication/ground_station_calculator.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index bec0c2f..18ef915 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -79,7 +79,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // GS direction on SC TX antenna frame
   math::Vector<3> sc_to_gs_i = gs_pos_i - sc_pos_i;
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
-  math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
+  math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
   double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
@@ -87,7 +87,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // SC direction on GS RX antenna frame
   math::Vector<3> gs_to_sc_ecef = dynamics.GetOrbit().GetPosition_ecef_m() - ground_station.GetPosition_ecef_m();
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
-  math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
+  math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
   double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
-- 
2.43.0


From 2857b2e9ac3fb496d87997629f3f1da5c29dad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 34/83] fix: gain of an antenna pointed exactly at the other
 end

---
 .../real/communication/ground_station_calculator.cpp        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index 18ef915..17333c1 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -5,6 +5,7 @@
 
 #include "ground_station_calculator.hpp"
 
+#include <algorithm>
 #include <environment/global/physical_constants.hpp>
 #include <math_physics/math/constants.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
@@ -81,7 +82,8 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
   math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
-  double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
+  // An element of a unit vector can exceed the range of acos by rounding
+  double theta_on_sc_antenna_rad = acos(std::max(std::min(gs_direction_on_sc_frame[2], 1.0), -1.0));
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
 
   // SC direction on GS RX antenna frame
@@ -89,7 +91,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
   math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
-  double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
+  double theta_on_gs_antenna_rad = acos(std::max(std::min(sc_direction_on_gs_frame[2], 1.0), -1.0));
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
 
   // Calc CN0
-- 
2.43.0


From 4cf3c8c54478271a8ff2c9a61a052a933bc20ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 35/83] fix: attitude propagation over no time

---
 src/dynamics/attitude/attitude_rk4.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/attitude/attitude_rk4.cpp b/src/dynamics/attitude/attitude_rk4.cpp
index e432e66..62ed992 100644
--- a/src/dynamics/attitude/attitude_rk4.cpp
+++ b/src/dynamics/attitude/attitude_rk4.cpp
@@ -41,7 +41,10 @@ void AttitudeRk4::SetParameters(const simulation::MonteCarloSimulationExecutor&
 void AttitudeRk4::Propagate(const double end_time_s) {
   if (!is_calc_enabled_) return;
 
-  math::Matrix<3, 3> dot_inertia_tensor = (1.0 / (end_time_s - current_propagation_time_s_)) * (inertia_tensor_kgm2_ - previous_inertia_tensor_kgm2_);
+  math::Matrix<3, 3> dot_inertia_tensor(0.0);
+  if (end_time_s > current_propagation_time_s_) {
+    dot_inertia_tensor = (1.0 / (end_time_s - current_propagation_time_s_)) * (inertia_tensor_kgm2_ - previous_inertia_tensor_kgm2_);
+  }
   torque_inertia_tensor_change_b_Nm_ = dot_inertia_tensor * angular_velocity_b_rad_s_;
   inverse_inertia_tensor_ = CalcInverseMatrix(inertia_tensor_kgm2_);
 
-- 
2.43.0


From a699bc8394a2a64e9c3985566936230b274dc176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 36/83] fix: last integration step of the attitude with
 cantilever vibration

---
 .../attitude/attitude_with_cantilever_vibration.cpp        | 5 +++--
 .../numerical_integration/numerical_integrator.hpp         | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index d07cf23..771c4b8 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -86,12 +86,13 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
 
   math::Vector<13> state = attitude_ode_.SetStateFromPhysicalQuantities(angular_velocity_b_rad_s_, angular_velocity_cantilever_rad_s_,
                                                                         quaternion_i2b_, euler_angular_cantilever_rad_);
-  numerical_integrator_.GetIntegrator()->SetState(propagation_step_s_, state);
+  numerical_integrator_.GetIntegrator()->SetState(current_propagation_time_s_, state);
+  numerical_integrator_.GetIntegrator()->SetStepWidth(propagation_step_s_);
   while (end_time_s - current_propagation_time_s_ - propagation_step_s_ > 1.0e-6) {
     numerical_integrator_.GetIntegrator()->Integrate();
     current_propagation_time_s_ += propagation_step_s_;
   }
-  numerical_integrator_.GetIntegrator()->SetState(end_time_s - current_propagation_time_s_, numerical_integrator_.GetIntegrator()->GetState());
+  numerical_integrator_.GetIntegrator()->SetStepWidth(end_time_s - current_propagation_time_s_);
   numerical_integrator_.GetIntegrator()->Integrate();
   attitude_ode_.SetPhysicalQuantitiesFromState(numerical_integrator_.GetIntegrator()->GetState(), angular_velocity_b_rad_s_,
                                                angular_velocity_cantilever_rad_s_, quaternion_i2b_, euler_angular_cantilever_rad_);
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index 461bfa2..f2da3f8 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -50,6 +50,13 @@ class NumericalIntegrator {
     previous_state_ = state;
   }
 
+  /**
+   * @fn SetStepWidth
+   * @brief Set step width of the following integrations
+   * @param [in] step_width: Step width
+   */
+  inline void SetStepWidth(const double step_width) { step_width_ = step_width; }
+
   /**
    * @fn GetState
    * @brief Return current state vector
-- 
2.43.0


From 5340628e9240b5f622b55e67ac8fdfdf8138bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 37/83] fix: altitude of the target of the earth surface
 pointing

---
 src/dynamics/attitude/initialize_attitude.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 2119bae..25b5f8e 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -41,7 +41,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
     double latitude_deg, longitude_deg, altitude_m;
     latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
     longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
-    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
+    altitude_m = ini_file_ca.ReadDouble(section_ca_, "target_position_altitude_m");
     geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);
 
     Attitude* attitude_temp = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b,
@@ -96,7 +96,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
     double latitude_deg, longitude_deg, altitude_m;
     latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
     longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
-    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
+    altitude_m = ini_file_ca.ReadDouble(section_ca_, "target_position_altitude_m");
     geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);
 
     attitude = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b, inertia_tensor_kgm2,
-- 
2.43.0


From 72c9d3b26b45d417dbe996df3c7387184532acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 38/83] fix: temporary attitude left in the list of simulation
 objects

---
 src/dynamics/attitude/initialize_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 25b5f8e..ca75dae 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -48,6 +48,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
                                                      inertia_tensor_kgm2, target_position, local_celestial_information, orbit, mc_name_temp);
     attitude_temp->Propagate(step_width_s);
     quaternion_i2b = attitude_temp->GetQuaternion_i2b();
+    delete attitude_temp;
     omega_b = math::Vector<3>(0.0);
     torque_b = math::Vector<3>(0.0);
   } else {
-- 
2.43.0


From 1e2affdf903902704360b228914725fcfbb47e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 39/83] fix: sign of the angular velocity of the controlled
 attitude

---
 src/dynamics/attitude/controlled_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index e92cc13..158f1dd 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -171,6 +171,7 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     double time_diff_sec = current_time_s - previous_calc_time_s_;
     math::Quaternion prev_q_b2i = previous_quaternion_i2b_.Conjugate();
     math::Quaternion q_diff = prev_q_b2i * quaternion_i2b_;
+    if (q_diff[3] < 0.0) q_diff = -1.0 * q_diff;  // Both quaternions express the same rotation. Take the shorter one.
     q_diff = (2.0 / time_diff_sec) * q_diff;
 
     math::Vector<3> angular_acc_b_rad_s2_;
-- 
2.43.0


From c0af05444c6b5045fd39ebeedfbca01e967a47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 40/83] fix: length of the directions set to the controlled
 attitude

---
 src/dynamics/attitude/controlled_attitude.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/controlled_attitude.hpp b/src/dynamics/attitude/controlled_attitude.hpp
index bd3db14..16873f3 100644
--- a/src/dynamics/attitude/controlled_attitude.hpp
+++ b/src/dynamics/attitude/controlled_attitude.hpp
@@ -89,12 +89,16 @@ class ControlledAttitude : public Attitude {
    * @fn SetMainTargetDirection_b
    * @brief Set main target direction on the body fixed frame
    */
-  inline void SetMainTargetDirection_b(math::Vector<3> main_target_direction_b) { main_target_direction_b_ = main_target_direction_b; }
+  inline void SetMainTargetDirection_b(math::Vector<3> main_target_direction_b) {
+    main_target_direction_b_ = main_target_direction_b.CalcNormalizedVector();
+  }
   /**
    * @fn SetSubTargetDirection_b
    * @brief Set sub target direction on the body fixed frame
    */
-  inline void SetSubTargetDirection_b(math::Vector<3> sub_target_direction_b) { sub_target_direction_b_ = sub_target_direction_b; }
+  inline void SetSubTargetDirection_b(math::Vector<3> sub_target_direction_b) {
+    sub_target_direction_b_ = sub_target_direction_b.CalcNormalizedVector();
+  }
 
   /**
    * @fn Propagate
-- 
2.43.0


From 3538ca8b4b5d9f1947a0b9b0d70b8faadb64e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:35 +0000
Subject: [PATCH 41/83] fix: length of the directions of a controlled attitude
 that starts inertially stabilized

---
 src/dynamics/attitude/controlled_attitude.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 158f1dd..83d771d 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -33,6 +33,8 @@ ControlledAttitude::~ControlledAttitude() {}
 void ControlledAttitude::Initialize(void) {
   if (main_mode_ >= AttitudeControlMode::kNoControl) is_calc_enabled_ = false;
   if (sub_mode_ >= AttitudeControlMode::kNoControl) is_calc_enabled_ = false;
+  main_target_direction_b_ = main_target_direction_b_.CalcNormalizedVector();
+  sub_target_direction_b_ = sub_target_direction_b_.CalcNormalizedVector();
   if (main_mode_ == AttitudeControlMode::kInertialStabilize) {
   } else  // Pointing control
   {
@@ -43,8 +45,6 @@ void ControlledAttitude::Initialize(void) {
       return;
     }
     // pointing direction check
-    main_target_direction_b_ = main_target_direction_b_.CalcNormalizedVector();
-    sub_target_direction_b_ = sub_target_direction_b_.CalcNormalizedVector();
     double tmp = InnerProduct(main_target_direction_b_, sub_target_direction_b_);
     tmp = std::abs(tmp);
     if (tmp > cos(kMinDirectionAngle_rad)) {
-- 
2.43.0


From b9a8bfc6adc96e8812c62664f5fc68349d82ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 42/83] fix: quadrant of the node in the orbital elements from
 position and velocity

---
 src/math_physics/orbit/orbital_elements.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/orbital_elements.cpp b/src/math_physics/orbit/orbital_elements.cpp
index d02a324..33bab84 100644
--- a/src/math_physics/orbit/orbital_elements.cpp
+++ b/src/math_physics/orbit/orbital_elements.cpp
@@ -54,7 +54,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
     // We cannot define raan when i = 0
     raan_rad_ = 0.0;
   } else {
-    raan_rad_ = asin(h[0] / sqrt(h[0] * h[0] + h[1] * h[1]));
+    raan_rad_ = atan2(h[0], -h[1]);
   }
   // position in plane
   double x_p_m = position_i_m[0] * cos(raan_rad_) + position_i_m[1] * sin(raan_rad_);
-- 
2.43.0


From 9ef0e562e18e9a376d41dcf0c79ed304742ce71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:55 +0000
Subject: [PATCH 43/83] fix: start of the iteration that solves Kepler's
 equation

---
 src/math_physics/orbit/kepler_orbit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/kepler_orbit.cpp b/src/math_physics/orbit/kepler_orbit.cpp
index 2f49fd5..929472a 100644
--- a/src/math_physics/orbit/kepler_orbit.cpp
+++ b/src/math_physics/orbit/kepler_orbit.cpp
@@ -87,7 +87,7 @@ double KeplerOrbit::SolveKeplerFirstOrder(const double eccentricity, const doubl
 double KeplerOrbit::SolveKeplerNewtonMethod(const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad,
                                             const int iteration_limit) {
   double u_prev_rad = mean_anomaly_rad;
-  double u_rad = 0.0;
+  double u_rad = mean_anomaly_rad;
 
   for (int i = 0; i < iteration_limit; i++) {
     u_rad -= (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
-- 
2.43.0


From 3aa093f083916a6103a6d38273b7e5a1a79fa070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:42 +0000
Subject: [PATCH 44/83] fix: time of the renewal of the reference orbit in
 Encke's method

---
 src/dynamics/orbit/encke_orbit_propagation.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 5a1ae0d..c58ca4c 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -20,6 +20,7 @@ EnckeOrbitPropagation::EnckeOrbitPropagation(const environment::CelestialInforma
       error_tolerance_(error_tolerance),
       propagation_step_s_(propagation_step_s) {
   propagation_time_s_ = 0.0;
+  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
   Initialize(current_time_jd, position_i_m, velocity_i_m_s);
 }
 
@@ -29,13 +30,6 @@ EnckeOrbitPropagation::~EnckeOrbitPropagation() {}
 void EnckeOrbitPropagation::Propagate(const double end_time_s, const double current_time_jd) {
   if (!is_calc_enabled_) return;
 
-  // Rectification
-  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
-  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
-  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
-    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
-  }
-
   // Update reference orbit
   reference_kepler_orbit.CalcOrbit(current_time_jd);
   reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
@@ -59,6 +53,13 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   difference_velocity_i_m_s_[2] = GetState()[5];
 
   UpdateSatOrbit();
+
+  // Rectification
+  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
+  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
+  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
+    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
+  }
 }
 
 // Functions for OrdinaryDifferentialEquation
@@ -86,9 +87,6 @@ void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>&
 
 // Private Functions
 void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {
-  // General
-  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
-
   // reference orbit
   reference_position_i_m_ = reference_position_i_m;
   reference_velocity_i_m_s_ = reference_velocity_i_m_s;
-- 
2.43.0


From dd58180f85f468385a178ac60f1facbdd134f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 45/83] fix: relative information when some spacecraft have
 left

---
 .../relative_information.cpp                  | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 3aed97e..4b36adf 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -12,8 +12,10 @@ RelativeInformation::RelativeInformation() {}
 RelativeInformation::~RelativeInformation() {}
 
 void RelativeInformation::Update() {
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < dynamics_database_.size(); reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
       // Position
       math::Vector<3> target_sat_pos_i = dynamics_database_.at(target_spacecraft_id)->GetOrbit().GetPosition_i_m();
       math::Vector<3> reference_sat_pos_i = dynamics_database_.at(reference_spacecraft_id)->GetOrbit().GetPosition_i_m();
@@ -51,28 +53,28 @@ void RelativeInformation::RemoveDynamicsInfo(const size_t spacecraft_id) {
 
 std::string RelativeInformation::GetLogHeader() const {
   std::string str_tmp = "";
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_position_list_i_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_position_list_i_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m/s", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_position_list_i_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_position_list_i_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m/s", 3);
@@ -84,25 +86,25 @@ std::string RelativeInformation::GetLogHeader() const {
 
 std::string RelativeInformation::GetLogValue() const {
   std::string str_tmp = "";
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_position_list_i_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(GetRelativePosition_i_m(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_position_list_i_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(GetRelativeVelocity_i_m_s(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_position_list_i_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(GetRelativePosition_rtn_m(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_position_list_i_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(GetRelativeVelocity_rtn_m_s(target_spacecraft_id, reference_spacecraft_id));
     }
@@ -157,7 +159,8 @@ math::Vector<3> RelativeInformation::CalcRelativeVelocity_rtn_m_s(const size_t t
 }
 
 void RelativeInformation::ResizeLists() {
-  size_t size = dynamics_database_.size();
+  // The IDs are not always consecutive since spacecraft can be removed
+  size_t size = dynamics_database_.empty() ? 0 : dynamics_database_.rbegin()->first + 1;
   relative_position_list_i_m_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
   relative_velocity_list_i_m_s_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
   relative_distance_list_m_.assign(size, std::vector<double>(size, 0.0));
-- 
2.43.0


From 5dfc0c76477b95b6679bb14dc6e7677e2a67f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 46/83] fix: order of the quaternions in the relative attitude

---
 src/simulation/multiple_spacecraft/relative_information.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 4b36adf..3ef9d3d 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -123,7 +123,7 @@ math::Quaternion RelativeInformation::CalcRelativeAttitudeQuaternion(const size_
   // ECI frame(i) -> Target SC body frame(main_sat)
   math::Quaternion q_target_i2b = dynamics_database_.at(target_spacecraft_id)->GetAttitude().GetQuaternion_i2b();
 
-  return q_target_i2b * q_reference_b2i;
+  return q_reference_b2i * q_target_i2b;
 }
 
 math::Vector<3> RelativeInformation::CalcRelativePosition_rtn_m(const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
-- 
2.43.0


From 06b947fd2fe2cb2c24db1625be504304482eb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 47/83] fix: inertial velocity of the relative orbit

---
 src/dynamics/orbit/relative_orbit.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/relative_orbit.cpp b/src/dynamics/orbit/relative_orbit.cpp
index 6f4b260..4430193 100644
--- a/src/dynamics/orbit/relative_orbit.cpp
+++ b/src/dynamics/orbit/relative_orbit.cpp
@@ -45,7 +45,12 @@ void RelativeOrbit::InitializeState(math::Vector<3> relative_position_lvlh_m, ma
   math::Quaternion q_i2lvlh = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().CalcQuaternion_i2lvlh();
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity in the LVLH frame does not include the rotation of the frame
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = OuterProduct(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= InnerProduct(reference_sat_position_i, reference_sat_position_i);
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) +
+                               OuterProduct(lvlh_angular_velocity_i_rad_s, spacecraft_position_i_m_ - reference_sat_position_i) +
+                               reference_sat_velocity_i;
 
   initial_state_[0] = relative_position_lvlh_m[0];
   initial_state_[1] = relative_position_lvlh_m[1];
@@ -116,7 +121,12 @@ void RelativeOrbit::Propagate(const double end_time_s, const double current_time
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
 
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity in the LVLH frame does not include the rotation of the frame
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = OuterProduct(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= InnerProduct(reference_sat_position_i, reference_sat_position_i);
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) +
+                               OuterProduct(lvlh_angular_velocity_i_rad_s, spacecraft_position_i_m_ - reference_sat_position_i) +
+                               reference_sat_velocity_i;
   TransformEciToEcef();
   TransformEcefToGeodetic();
 }
-- 
2.43.0


From ccfc3c0fdb72bc46a9fc7d40182905a4175179db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:10 +0000
Subject: [PATCH 48/83] fix: degree given to the gravity potential

---
 src/disturbances/geopotential.cpp        | 4 ++--
 src/disturbances/lunar_gravity_field.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index cb6ba22..aa79929 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -20,7 +20,7 @@ namespace s2e::disturbances {
 // #define DEBUG_GEOPOTENTIAL
 
 Geopotential::Geopotential(const int degree, const std::string file_path, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, false), degree_(degree) {
+    : Disturbance(is_calculation_enabled, false), degree_(degree > 0 ? degree : 0) {
   // Initialize
   acceleration_ecef_m_s2_ = math::Vector<3>(0.0);
   debug_pos_ecef_m_ = math::Vector<3>(0.0);
@@ -45,7 +45,7 @@ Geopotential::Geopotential(const int degree, const std::string file_path, const
     }
   }
   // Initialize GravityPotential
-  geopotential_ = gravity::GravityPotential(degree, c_, s_);
+  geopotential_ = gravity::GravityPotential(degree_, c_, s_);
 }
 
 bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 182b447..cf763d3 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -20,7 +20,7 @@ namespace s2e::disturbances {
 // #define DEBUG_LUNAR_GRAVITY_FIELD
 
 LunarGravityField::LunarGravityField(const int degree, const std::string file_path, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, false), degree_(degree) {
+    : Disturbance(is_calculation_enabled, false), degree_(degree > 0 ? degree : 0) {
   // Initialize
   acceleration_mcmf_m_s2_ = math::Vector<3>(0.0);
   debug_pos_mcmf_m_ = math::Vector<3>(0.0);
@@ -48,7 +48,7 @@ LunarGravityField::LunarGravityField(const int degree, const std::string file_pa
     }
   }
   // Initialize GravityPotential
-  lunar_potential_ = gravity::GravityPotential(degree, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
+  lunar_potential_ = gravity::GravityPotential(degree_, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
 }
 
 bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
-- 
2.43.0


From cee0b21f584d15de9c63e66c2fc023e6dd650cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:20 +0000
Subject: [PATCH 49/83] fix: rotation of the Moon in the lunar gravity field

---
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index cf763d3..332032f 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -89,7 +89,7 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
 }
 
 void LunarGravityField::Update(const environment::LocalEnvironment &local_environment, const dynamics::Dynamics &dynamics) {
-  const environment::CelestialInformation global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
+  const environment::CelestialInformation &global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
   math::Matrix<3, 3> dcm_mci2mcmf_ = global_celestial_information.GetMoonRotation().GetDcmJ2000ToMcmf();
 
   math::Vector<3> spacecraft_position_mci_m = dynamics.GetOrbit().GetPosition_i_m();
-- 
2.43.0


From 5c01c2d149fa118f059e20ef8fc6a399195995b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:21 +0000
Subject: [PATCH 50/83] fix: noise of the geomagnetic field shared by all
 spacecraft

---
 src/environment/local/geomagnetic_field.cpp | 14 ++++----------
 src/environment/local/geomagnetic_field.hpp |  4 ++++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 8fff876..1f35355 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -7,8 +7,6 @@
 
 #include "math_physics/geomagnetic/igrf.h"
 #include "math_physics/randomization/global_randomization.hpp"
-#include "math_physics/randomization/normal_randomization.hpp"
-#include "math_physics/randomization/random_walk.hpp"
 #include "setting_file_reader/initialize_file_access.hpp"
 
 namespace s2e::environment {
@@ -20,6 +18,8 @@ GeomagneticField::GeomagneticField(const std::string igrf_file_name, const doubl
       random_walk_standard_deviation_nT_(random_walk_srandard_deviation_nT),
       random_walk_limit_nT_(random_walk_limit_nT),
       white_noise_standard_deviation_nT_(white_noise_standard_deviation_nT),
+      random_walk_(0.1, math::Vector<3>(random_walk_srandard_deviation_nT), math::Vector<3>(random_walk_limit_nT)),
+      white_noise_(0.0, white_noise_standard_deviation_nT, randomization::global_randomization.MakeSeed()),
       igrf_file_name_(igrf_file_name) {
   set_file_path(igrf_file_name_.c_str());
 }
@@ -42,16 +42,10 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
 }
 
 void GeomagneticField::AddNoise(double* magnetic_field_array_i_nT) {
-  static math::Vector<3> standard_deviation(random_walk_standard_deviation_nT_);
-  static math::Vector<3> limit(random_walk_limit_nT_);
-  static randomization::RandomWalk<3> random_walk(0.1, standard_deviation, limit);
-
-  static randomization::NormalRand white_noise(0.0, white_noise_standard_deviation_nT_, randomization::global_randomization.MakeSeed());
-
   for (int i = 0; i < 3; ++i) {
-    magnetic_field_array_i_nT[i] += random_walk[i] + white_noise;
+    magnetic_field_array_i_nT[i] += random_walk_[i] + white_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string GeomagneticField::GetLogHeader() const {
diff --git a/src/environment/local/geomagnetic_field.hpp b/src/environment/local/geomagnetic_field.hpp
index 1f38c03..c4ac7a0 100644
--- a/src/environment/local/geomagnetic_field.hpp
+++ b/src/environment/local/geomagnetic_field.hpp
@@ -10,6 +10,8 @@
 #include "math_physics/geodesy/geodetic_position.hpp"
 #include "math_physics/math/quaternion.hpp"
 #include "math_physics/math/vector.hpp"
+#include "math_physics/randomization/normal_randomization.hpp"
+#include "math_physics/randomization/random_walk.hpp"
 
 namespace s2e::environment {
 
@@ -77,6 +79,8 @@ class GeomagneticField : public logger::ILoggable {
   double random_walk_standard_deviation_nT_;  //!< Standard deviation of Random Walk [nT]
   double random_walk_limit_nT_;               //!< Limit of Random Walk [nT]
   double white_noise_standard_deviation_nT_;  //!< Standard deviation of white noise [nT]
+  randomization::RandomWalk<3> random_walk_;  //!< Random walk noise
+  randomization::NormalRand white_noise_;     //!< White noise
   std::string igrf_file_name_;                //!< Path to the initialize file
 
   /**
-- 
2.43.0


From ccc656e4aa0d8ce2741d2f5e9ee670e5a9a06590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:17 +0000
Subject: [PATCH 51/83] fix: air density at exactly 1000 km in the simple model

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index f616f67..7b89adf 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -15,7 +15,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   double base_rho_kg_m3;
 
   // scale_height_km values: Ref "ミッション解析と軌道設計の基礎" (in Japanese)
-  if (altitude_km > 1000.0) {
+  if (altitude_km >= 1000.0) {
     scale_height_km = 268.0;
     base_height_km = 1000.0;
     base_rho_kg_m3 = 3.019E-15;
-- 
2.43.0


From 0447428d5870482dc77e4831c59243cea8dea396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 52/83] fix: air density outside the table of the
 Harris-Priester model

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 6973caf..56b25ba 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -55,8 +55,9 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
   auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
   auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
-  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second;
-  if (min_density_itr == harris_priester_min_density_table.end()) return (min_density_itr->second + max_density_itr->second) / 2.0;
+  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second * 1e-12;
+  if (min_density_itr == harris_priester_min_density_table.end())
+    return (prev(min_density_itr)->second + prev(max_density_itr)->second) / 2.0 * 1e-12;
   min_density_itr = prev(min_density_itr);
   max_density_itr = prev(max_density_itr);
 
-- 
2.43.0


From ac092463ddaf4023fd6adf50727e135d2872a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 53/83] fix: frame of the Sun direction in the Harris-Priester
 model

---
 src/environment/local/atmosphere.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 74b2323..4f9466c 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -68,8 +68,10 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
                                         manual_average_f107_, manual_ap_);
   } else if (model_ == "HARRIS_PRIESTER") {
     // Harris-Priester
-    math::Vector<3> sun_direction_eci = local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
-    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_eci);
+    const CelestialInformation& celestial_information = local_celestial_information_->GetGlobalInformation();
+    math::Vector<3> sun_direction_eci = celestial_information.GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
+    math::Vector<3> sun_direction_ecef = celestial_information.GetEarthRotation().GetDcmJ2000ToEcef() * sun_direction_eci;
+    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_ecef);
   } else {
     // No suitable model
     return air_density_kg_m3_ = 0.0;
-- 
2.43.0


From 210e1cef1855631a9daf73f871db2c249d5f8630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:54 +0000
Subject: [PATCH 54/83] fix: noise of the air density lost

---
 src/environment/local/atmosphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 4f9466c..9824213 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -77,7 +77,7 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
     return air_density_kg_m3_ = 0.0;
   }
 
-  return AddNoise(air_density_kg_m3_);
+  return air_density_kg_m3_ = AddNoise(air_density_kg_m3_);
 }
 
 double Atmosphere::AddNoise(const double rho_kg_m3) {
-- 
2.43.0


From 9d7a3337635b4e4904ee11aff9249f3624e95840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:59 +0000
Subject: [PATCH 55/83] fix: molecular mass in the air drag

---
 src/disturbances/air_drag.cpp                 | 4 ++--
 src/environment/global/physical_constants.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index 2c92540..b32351c 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -64,8 +64,8 @@ void AirDrag::CalcCnCt(const math::Vector<3>& velocity_b_m_s) {
   double velocity_norm_m_s = velocity_b_m_s.CalcNorm();
 
   // Re-emitting speed
-  double speed =
-      sqrt(molecular_weight_g_mol_ * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
+  const double molecular_mass_kg = molecular_weight_g_mol_ * 1e-3 / environment::avogadro_constant_mol;
+  double speed = sqrt(molecular_mass_kg * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
   // CalcTheta(vel_b);
   for (size_t i = 0; i < surfaces_.size(); i++) {
     double speed_n = speed * cos_theta_[i];
diff --git a/src/environment/global/physical_constants.hpp b/src/environment/global/physical_constants.hpp
index c97259e..343ebc6 100644
--- a/src/environment/global/physical_constants.hpp
+++ b/src/environment/global/physical_constants.hpp
@@ -21,6 +21,7 @@ using enable_if_float = std::enable_if_t<std::is_floating_point_v<T>, T>;
 inline namespace physics {
 DEFINE_PHYSICAL_CONSTANT(speed_of_light_m_s, 299792458.0L)                   //!< Speed of light in vacuum [m/s]
 DEFINE_PHYSICAL_CONSTANT(boltzmann_constant_J_K, 1.380649e-23L)              //!< Boltzmann constant [J/K]
+DEFINE_PHYSICAL_CONSTANT(avogadro_constant_mol, 6.02214076e23L)              //!< Avogadro constant [1/mol]
 DEFINE_PHYSICAL_CONSTANT(stefan_boltzmann_constant_W_m2K4, 5.670374419e-8L)  //!< Stefan-Boltzmann constant [W/m2K4]
 DEFINE_PHYSICAL_CONSTANT(absolute_zero_degC, -273.15L)                       //!< Absolute zero [degC]
 DEFINE_PHYSICAL_CONSTANT(solar_constant_W_m2, 1.366e3L)                      //!< Solar constant [W/m2]
-- 
2.43.0


From 4292d67f2d687c1272fc5e61198164e58261e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:47 +0000
Subject: [PATCH 56/83] fix: noise of the residual magnetic moment shared by
 all spacecraft

---
 src/disturbances/magnetic_disturbance.cpp | 18 +++++++-----------
 src/disturbances/magnetic_disturbance.hpp |  4 ++++
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/disturbances/magnetic_disturbance.cpp b/src/disturbances/magnetic_disturbance.cpp
index ea00292..09ed080 100644
--- a/src/disturbances/magnetic_disturbance.cpp
+++ b/src/disturbances/magnetic_disturbance.cpp
@@ -10,13 +10,15 @@
 
 #include "../logger/log_utility.hpp"
 #include "../math_physics/randomization/global_randomization.hpp"
-#include "../math_physics/randomization/normal_randomization.hpp"
-#include "../math_physics/randomization/random_walk.hpp"
 
 namespace s2e::disturbances {
 
 MagneticDisturbance::MagneticDisturbance(const spacecraft::ResidualMagneticMoment& rmm_params, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, true), residual_magnetic_moment_(rmm_params) {
+    : Disturbance(is_calculation_enabled, true),
+      residual_magnetic_moment_(rmm_params),
+      random_walk_(0.1, math::Vector<3>(rmm_params.GetRandomWalkStandardDeviation_Am2()),
+                   math::Vector<3>(rmm_params.GetRandomWalkLimit_Am2())),  // [FIXME] step width is constant
+      random_noise_(0.0, rmm_params.GetRandomNoiseStandardDeviation_Am2(), randomization::global_randomization.MakeSeed()) {
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
 }
 
@@ -33,17 +35,11 @@ void MagneticDisturbance::Update(const environment::LocalEnvironment& local_envi
 }
 
 void MagneticDisturbance::CalcRMM() {
-  static math::Vector<3> random_walk_std_dev(residual_magnetic_moment_.GetRandomWalkStandardDeviation_Am2());
-  static math::Vector<3> random_walk_limit(residual_magnetic_moment_.GetRandomWalkLimit_Am2());
-  static randomization::RandomWalk<3> random_walk(0.1, random_walk_std_dev, random_walk_limit);  // [FIXME] step width is constant
-  static randomization::NormalRand normal_random(0.0, residual_magnetic_moment_.GetRandomNoiseStandardDeviation_Am2(),
-                                                 randomization::global_randomization.MakeSeed());
-
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
   for (int i = 0; i < 3; ++i) {
-    rmm_b_Am2_[i] += random_walk[i] + normal_random;
+    rmm_b_Am2_[i] += random_walk_[i] + random_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string MagneticDisturbance::GetLogHeader() const {
diff --git a/src/disturbances/magnetic_disturbance.hpp b/src/disturbances/magnetic_disturbance.hpp
index f51b392..294d6d7 100644
--- a/src/disturbances/magnetic_disturbance.hpp
+++ b/src/disturbances/magnetic_disturbance.hpp
@@ -10,6 +10,8 @@
 
 #include "../logger/loggable.hpp"
 #include "../math_physics/math/vector.hpp"
+#include "../math_physics/randomization/normal_randomization.hpp"
+#include "../math_physics/randomization/random_walk.hpp"
 #include "../simulation/spacecraft/structure/residual_magnetic_moment.hpp"
 #include "disturbance.hpp"
 
@@ -54,6 +56,8 @@ class MagneticDisturbance : public Disturbance {
 
   math::Vector<3> rmm_b_Am2_;                                           //!< True RMM of the spacecraft in the body frame [Am2]
   const spacecraft::ResidualMagneticMoment& residual_magnetic_moment_;  //!< RMM parameters
+  randomization::RandomWalk<3> random_walk_;                            //!< Random walk of the RMM
+  randomization::NormalRand random_noise_;                              //!< White noise of the RMM
 
   /**
    * @fn CalcRMM
-- 
2.43.0


From 1309d48b5414a2c64164dea3926a886412e91a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:16 +0000
Subject: [PATCH 57/83] fix: surface force undefined when the light comes
 straight onto a face

---
 src/disturbances/surface_force.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/surface_force.cpp b/src/disturbances/surface_force.cpp
index 391a782..ab2726a 100644
--- a/src/disturbances/surface_force.cpp
+++ b/src/disturbances/surface_force.cpp
@@ -5,6 +5,8 @@
 
 #include "surface_force.hpp"
 
+#include <algorithm>
+
 #include "../math_physics/math/vector.hpp"
 
 namespace s2e::disturbances {
@@ -52,7 +54,7 @@ void SurfaceForce::CalcTheta(math::Vector<3>& input_direction_b) {
 
   for (size_t i = 0; i < surfaces_.size(); i++) {
     cos_theta_[i] = InnerProduct(surfaces_[i].GetNormal_b(), input_b_normal);
-    sin_theta_[i] = sqrt(1.0 - cos_theta_[i] * cos_theta_[i]);
+    sin_theta_[i] = sqrt(std::max(0.0, 1.0 - cos_theta_[i] * cos_theta_[i]));  // The cosine can exceed 1 by rounding
   }
 }
 
-- 
2.43.0


From 57a22cc59d7da20d485b7075000050551ad1ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:25 +0000
Subject: [PATCH 58/83] fix: sum of two epochs whose fractions add up to
 exactly one second

---
 src/math_physics/time_system/epoch_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index cee1a40..017e390 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -57,7 +57,7 @@ bool EpochTime::operator<(const EpochTime& right_side) const {
 EpochTime EpochTime::operator+(const EpochTime& right_side) const {
   time_t time_s = this->time_s_ + right_side.GetTime_s();
   double fraction_s = this->fraction_s_ + right_side.GetFraction_s();
-  if (fraction_s > 1.0) {
+  if (fraction_s >= 1.0) {
     fraction_s -= 1.0;
     time_s += 1;
   }
-- 
2.43.0


From e6718c54537a3759ca9bef2f92460c58a3fe72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:20 +0000
Subject: [PATCH 59/83] fix: SP3 files with velocities taken for an unknown
 mode

---
 src/math_physics/gnss/sp3_file_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 2ae1366..eeca26e 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -162,7 +162,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   // Read contents
   if (line[2] == 'P') {
     header_.mode_ = Sp3Mode::kPosition;
-  } else if (line[3] == 'V') {
+  } else if (line[2] == 'V') {
     header_.mode_ = Sp3Mode::kVelocity;
   } else {
     header_.mode_ = Sp3Mode::kOther;
-- 
2.43.0


From 1bf6a7834472992d86f9d4466e0fdf47cd7d7cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:20 +0000
Subject: [PATCH 60/83] fix: reading past the end of SP3 data for an epoch or
 record that is not there

---
 src/math_physics/gnss/sp3_file_reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index eeca26e..0ad5672 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -16,7 +16,7 @@ namespace s2e::gnss {
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
-  if (epoch_id > epoch_.size()) {
+  if (epoch_id >= epoch_.size()) {
     time_system::DateTime zero;
     return zero;
   }
@@ -31,6 +31,9 @@ Sp3PositionClock Sp3FileReader::GetPositionClock(const size_t epoch_id, const si
   if (satellite_id >= position_clock_.size()) {
     return zero;
   }
+  if (epoch_id >= position_clock_[satellite_id].size()) {
+    return zero;
+  }
 
   return position_clock_[satellite_id][epoch_id];
 }
-- 
2.43.0


From e972e7465be2eb1b190b0f204014652ccc76c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:20 +0000
Subject: [PATCH 61/83] fix: test code left in the SP3 reader reads data of
 files with a single epoch or satellite out of bounds

---
 src/math_physics/gnss/sp3_file_reader.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 0ad5672..17459ea 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -119,12 +119,6 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
     }
   }
 
-  // Test
-  time_system::DateTime test = epoch_[0];
-  test = epoch_[1];
-  std::vector<Sp3PositionClock> test_p = position_clock_[0];
-  test_p = position_clock_[1];
-
   sp3_file.close();
   return true;
 }
-- 
2.43.0


From 0a11b0cde1612faf3997dce61530ae1e4346ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:20 +0000
Subject: [PATCH 62/83] fix: columns of velocity standard deviations in SP3
 files, which may be blank

---
 src/math_physics/gnss/sp3_file_reader.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 17459ea..cf9e6b4 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -392,10 +392,18 @@ Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line
   if (line.size() > 60) {
     math::Vector<3> velocity_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
-      velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 2, 2));
+      try {
+        velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
+      } catch (const std::invalid_argument&) {
+        velocity_standard_deviation[axis] = 0.0;
+      }
     }
     velocity_clock_rate.velocity_standard_deviation_ = velocity_standard_deviation;
-    velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    try {
+      velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    } catch (const std::invalid_argument&) {
+      velocity_clock_rate.clock_rate_standard_deviation_ = 0.0;
+    }
   }
 
   return velocity_clock_rate;
-- 
2.43.0


From 7b955d0b663bfd2a3e15f69d3d4ba68b8ed4db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:20 +0000
Subject: [PATCH 63/83] fix: endless loop on bias SINEX files that break off

---
 .../gnss/bias_sinex_file_reader.cpp            | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index b8a203c..d59db6e 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -74,8 +74,7 @@ bool BiasSinexFileReader::ReadFile(const std::string file_name) {
 
 void BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-FILE/REFERENCE") == 0) {
       break;
@@ -86,8 +85,7 @@ void BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
 
 void BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-FILE/COMMENT") == 0) {
       break;
@@ -98,8 +96,7 @@ void BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
 
 void BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-INPUT/ACKNOWLEDGMENTS") == 0) {
       break;
@@ -110,8 +107,7 @@ void BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_fil
 
 void BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/DESCRIPTION") == 0) {
       break;
@@ -122,8 +118,7 @@ void BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
 
 void BiasSinexFileReader::ReadBiasReceiverInformation(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/RECEIVER_INFORMATION") == 0) {
       break;
@@ -135,8 +130,7 @@ void BiasSinexFileReader::ReadBiasReceiverInformation(std::ifstream& bias_sinex_
 void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
   std::string line;
 
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/SOLUTION") == 0) {
       break;
-- 
2.43.0


From 4c446ae523ba816ef4548a4b6f5623aea8cdb25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:20 +0000
Subject: [PATCH 64/83] fix: endless loop on ANTEX files that break off

---
 src/math_physics/gnss/antex_file_reader.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 4a3c74f..5c9c16c 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -90,9 +90,7 @@ void AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
   AntexSatelliteData antex_data;
 
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
-
+  while (std::getline(antex_file, line)) {
     // Type and Serial No.
     if (line.find("TYPE / SERIAL NO") == ANTEX_LINE_TYPE_POSITION) {
       std::string antenna_type = line.substr(0, 20);
@@ -121,9 +119,7 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
   std::vector<AntexPhaseCenterData> phase_center_data_list;
 
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
-
+  while (std::getline(antex_file, line)) {
     // End antenna data
     if (line.find("END OF ANTENNA") == ANTEX_LINE_TYPE_POSITION) {
       antex_data.SetPhaseCenterData(phase_center_data_list);
@@ -160,9 +156,7 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
 AntexPhaseCenterData AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_file, const AntexGridDefinition grid_information) {
   AntexPhaseCenterData phase_center_data;
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
-
+  while (std::getline(antex_file, line)) {
     // End antenna data
     if (line.find("END OF FREQUENCY") == ANTEX_LINE_TYPE_POSITION) {
       phase_center_data.SetFrequencyName(line.substr(3, 3));
-- 
2.43.0


From 384ff6ff9f73ac65666a114b53e61f0e39853d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:37 +0000
Subject: [PATCH 65/83] fix: columns of the slope and its standard deviation in
 bias SINEX files

---
 src/math_physics/gnss/bias_sinex_file_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index d59db6e..5556747 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -185,15 +185,15 @@ void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
 
     read_size = 12;
     solution_data.SetBiasStandardDeviation(std::stod(line.substr(read_point, read_size)));
-    read_point += read_size + 1;
+    read_point += read_size;  // The field itself is 11 characters, some agencies write 12
 
-    if (read_point + 21 < line.size()) {
+    if (read_point + 21 <= line.size()) {
       read_size = 21;
       solution_data.SetSlope_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
     }
-    if (read_point + 12 < line.size()) {
-      read_size = 12;
+    if (read_point + 11 <= line.size()) {
+      read_size = 11;
       solution_data.SetSlopeStandardDeviation_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
     }
-- 
2.43.0


From 3a7ce4c4a8df578314e866785612f21ed588e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:04 +0000
Subject: [PATCH 66/83] fix: SP3 lines whose trailing blanks are left out

---
 src/math_physics/gnss/sp3_file_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index cf9e6b4..8bf6194 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -306,6 +306,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
 
 Sp3PositionClock Sp3FileReader::DecodePositionClockData(std::string line) {
   Sp3PositionClock position_clock;
+  if (line.size() < 80) line.resize(80, ' ');  // Trailing blanks may be left out
 
   // Satellite ID
   position_clock.satellite_id_ = line.substr(1, 3);
@@ -376,6 +377,7 @@ Sp3PositionClockCorrelation Sp3FileReader::DecodePositionClockCorrelation(std::s
 
 Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line) {
   Sp3VelocityClockRate velocity_clock_rate;
+  if (line.size() < 80) line.resize(80, ' ');  // Trailing blanks may be left out
 
   // Satellite ID
   velocity_clock_rate.satellite_id_ = line.substr(1, 3);
-- 
2.43.0


From c539fb459d0b203cbc7e753b6312bb222a95ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 67/83] fix: orbit of a time series lags behind steps longer
 than the interval of the series

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 5230a18..97883da 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -91,8 +91,9 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
   double current_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
   double diff_s = current_ephemris_time - reference_time_;
   double medium_time_s = orbit_position_i_m_[0].GetTimeList()[static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0))];
-  if (diff_s > medium_time_s) {
+  while (diff_s > medium_time_s && reference_interpolation_id_ < time_series_data_.size()) {
     UpdateInterpolationInformation();
+    medium_time_s = orbit_position_i_m_[0].GetTimeList()[static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0))];
   }
   if (diff_s < 0.0) {
     if (!is_time_range_warning_displayed_) {
-- 
2.43.0


From 8217792a4c2d64dadf2120ca4dffe5b298175724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 68/83] fix: orbit of a time series frozen at its last row long
 before its end

---
 .../orbit/time_series_file_orbit_propagation.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 97883da..145e61b 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -33,6 +33,12 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   setting_file_reader::IniAccess time_series_file(time_series_file_path);
   time_series_file.ReadCsvDoubleWithHeader(time_series_data_, 7, 1, 0);
 
+  if (time_series_data_.size() < (size_t)number_of_interpolation) {
+    std::cout << "[WARNING] Time series file orbit propagation: Number of data is smaller than the number of interpolation." << std::endl;
+    number_of_interpolation = (int)time_series_data_.size();
+    number_of_interpolation_ = number_of_interpolation;
+  }
+
   // Get general info
   size_t nearest_ephemeris_time_id = SearchNearestEphemerisTimeId(current_time_jd);
 
@@ -40,6 +46,10 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   if (nearest_ephemeris_time_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_ephemeris_time_id - half_interpolation_number;
   }
+  // All the samples have to be inside the time series
+  if (reference_interpolation_id_ + number_of_interpolation > time_series_data_.size()) {
+    reference_interpolation_id_ = time_series_data_.size() - number_of_interpolation;
+  }
 
   reference_time_ = CalcEphemerisTimeData(reference_interpolation_id_);
 
@@ -60,7 +70,7 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
 }
 
 size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double current_time_jd) {
-  size_t nearest_ephemeris_time_id = 0;
+  size_t nearest_ephemeris_time_id = time_series_data_.size() - 1;
 
   // Get start ephemeris time
   double start_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
@@ -76,7 +86,7 @@ size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double
 }
 
 double TimeSeriesFileOrbitPropagation::CalcEphemerisTimeData(const size_t ephemeris_time_id) const {
-  if (ephemeris_time_id > time_series_data_.size()) {
+  if (ephemeris_time_id >= time_series_data_.size()) {
     return 0;
   }
   return time_series_data_[ephemeris_time_id][0];
@@ -104,7 +114,7 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
       spacecraft_position_i_m_[i] = time_series_data_[0][i + 1];
       spacecraft_velocity_i_m_s_[i] = time_series_data_[0][i + 4];
     }
-  } else if (diff_s > 1e6 || reference_interpolation_id_ >= time_series_data_.size()) {
+  } else if (current_ephemris_time > time_series_data_.back()[0]) {
     if (!is_time_range_warning_displayed_) {
       std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
       is_time_range_warning_displayed_ = true;
-- 
2.43.0


From 0f6c387da54f2e71708fabb2f5d4b9eb781b901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 69/83] fix: reading GNSS satellites that do not exist, or when
 there is no data of any

---
 src/environment/global/gnss_satellites.cpp | 5 +++--
 src/environment/global/gnss_satellites.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 25724b5..1cd4e44 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -59,6 +59,7 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
 
 void GnssSatellites::Update(const SimulationTime& simulation_time) {
   if (!IsCalcEnabled()) return;
+  if (number_of_calculated_gnss_satellites_ == 0) return;
 
   // Get time
   UTC current_utc = simulation_time.GetCurrentUtc();
@@ -77,7 +78,7 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
 }
 
 math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
 
   time_system::EpochTime target_time;
 
@@ -95,7 +96,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
 }
 
 double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return 0.0;
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return 0.0;
 
   time_system::EpochTime target_time;
 
diff --git a/src/environment/global/gnss_satellites.hpp b/src/environment/global/gnss_satellites.hpp
index 065dc58..9a10f77 100644
--- a/src/environment/global/gnss_satellites.hpp
+++ b/src/environment/global/gnss_satellites.hpp
@@ -116,8 +116,8 @@ class GnssSatellites : public logger::ILoggable {
   bool is_calc_enabled_ = false;  //!< Flag to manage the GNSS satellite position calculation
 
   std::vector<gnss::Sp3FileReader> sp3_files_;   //!< List of SP3 files
-  size_t number_of_calculated_gnss_satellites_;  //!< Number of calculated GNSS satellites
-  size_t sp3_file_id_;                           //!< Current SP3 file ID
+  size_t number_of_calculated_gnss_satellites_ = 0;  //!< Number of calculated GNSS satellites
+  size_t sp3_file_id_ = 0;                           //!< Current SP3 file ID
   time_system::EpochTime reference_time_;        //!< Reference start time of the SP3 handling
   size_t reference_interpolation_id_ = 0;        //!< Reference epoch ID of the interpolation
   time_system::EpochTime current_epoch_time_;    //!< The last updated time
-- 
2.43.0


From ae22f139163e5ebef6bf8266884a17874ae1e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 70/83] fix: GNSS satellites read past the last SP3 file and
 lag behind steps longer than its interval

---
 src/environment/global/gnss_satellites.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 1cd4e44..d29cf78 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -39,6 +39,10 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   if (nearest_epoch_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_epoch_id - half_interpolation_number;
   }
+  // All the samples have to be inside the files
+  if (sp3_file_id_ + 1 == sp3_files_.size() && reference_interpolation_id_ + kNumberOfInterpolation > initial_sp3_file.GetNumberOfEpoch()) {
+    reference_interpolation_id_ = initial_sp3_file.GetNumberOfEpoch() > kNumberOfInterpolation ? initial_sp3_file.GetNumberOfEpoch() - kNumberOfInterpolation : 0;
+  }
   reference_time_ = time_system::EpochTime(initial_sp3_file.GetEpochData(reference_interpolation_id_));
 
   // Initialize orbit
@@ -70,8 +74,9 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   double medium_time_s = orbit_[0].GetTimeList()[4];
-  if (diff_s > medium_time_s) {
-    UpdateInterpolationInformation();
+  while (diff_s > medium_time_s) {
+    if (!UpdateInterpolationInformation()) break;
+    medium_time_s = orbit_[0].GetTimeList()[4];
   }
 
   return;
@@ -129,6 +134,7 @@ bool GnssSatellites::GetCurrentSp3File(Sp3FileReader& current_sp3_file, const ti
 }
 
 bool GnssSatellites::UpdateInterpolationInformation() {
+  if (sp3_file_id_ >= sp3_files_.size()) return false;
   Sp3FileReader sp3_file = sp3_files_[sp3_file_id_];
 
   for (size_t gnss_id = 0; gnss_id < number_of_calculated_gnss_satellites_; gnss_id++) {
-- 
2.43.0


From 9952516a0e45856b74def33ebcd27f67d460e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 71/83] fix: void sample in the first interpolation of GNSS
 satellites over two SP3 files that share an epoch

---
 src/environment/global/gnss_satellites.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index d29cf78..0e85c56 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -54,8 +54,9 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   clock_.assign(number_of_calculated_gnss_satellites_, math::Interpolation(temp, temp));
 
   // Initialize interpolation
-  for (size_t i = 0; i < kNumberOfInterpolation; i++) {
-    UpdateInterpolationInformation();
+  // (the last epoch of a file may be the first one of the next, which is taken only once)
+  while (orbit_[0].GetTimeList().front() < 0.0) {
+    if (!UpdateInterpolationInformation()) break;
   }
 
   return;
-- 
2.43.0


From 69c72a2ffb497558db93a914976124c1b163c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 72/83] fix: GNSS satellites vanish 1e6 s after the start of
 the simulation

---
 src/environment/global/gnss_satellites.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 0e85c56..e06c02c 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -95,7 +95,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
   }
 
   double diff_s = target_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-  if (diff_s < 0.0 || diff_s > 1e6) return math::Vector<3>(0.0);
+  if (diff_s < 0.0 || diff_s - orbit_[gnss_satellite_id].GetTimeList().back() > 1e6) return math::Vector<3>(0.0);
 
   const double kOrbitalPeriodCorrection_s = 24 * 60 * 60 * 1.003;  // See http://acc.igs.org/orbits/orbit-interp_gpssoln03.pdf
   return orbit_[gnss_satellite_id].CalcPositionWithTrigonometric(diff_s, math::tau / kOrbitalPeriodCorrection_s);
@@ -113,7 +113,7 @@ double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_sys
   }
 
   double diff_s = target_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-  if (diff_s < 0.0 || diff_s > 1e6) return 0.0;
+  if (diff_s < 0.0 || diff_s - orbit_[gnss_satellite_id].GetTimeList().back() > 1e6) return 0.0;
 
   return clock_[gnss_satellite_id].CalcPolynomial(diff_s) * 1e-6;
 }
-- 
2.43.0


From 99b823ed9e4a117d01a1a3dfd36b210debdb36c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:30 +0000
Subject: [PATCH 73/83] fix: Euler angles of an attitude at exactly 90 degrees
 of pitch lose the rotation

---
 src/math_physics/math/quaternion.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/math/quaternion.cpp b/src/math_physics/math/quaternion.cpp
index d2f28f0..77f2430 100644
--- a/src/math_physics/math/quaternion.cpp
+++ b/src/math_physics/math/quaternion.cpp
@@ -187,9 +187,16 @@ Quaternion Quaternion::ConvertFromDcm(const Matrix<3, 3> dcm) {
 Vector<3> Quaternion::ConvertToEuler(void) const {
   auto dcm = this->ConvertToDcm();
   Vector<3> euler;
-  euler[0] = atan2(dcm[1][2], dcm[2][2]);
-  euler[1] = atan2(-dcm[0][2], sqrt(dcm[1][2] * dcm[1][2] + dcm[2][2] * dcm[2][2]));
-  euler[2] = atan2(dcm[0][1], dcm[0][0]);
+  const double cos_pitch = sqrt(dcm[1][2] * dcm[1][2] + dcm[2][2] * dcm[2][2]);
+  euler[1] = atan2(-dcm[0][2], cos_pitch);
+  if (cos_pitch < 1.0e-12) {
+    // Gimbal lock: only the sum or difference of the other two angles is defined
+    euler[0] = atan2(-dcm[2][1], dcm[1][1]);
+    euler[2] = 0.0;
+  } else {
+    euler[0] = atan2(dcm[1][2], dcm[2][2]);
+    euler[2] = atan2(dcm[0][1], dcm[0][0]);
+  }
   return euler;
 }
 
-- 
2.43.0


From 11a46e17caccd6ed5a6cdbc5eed2ec28a237c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:41 +0000
Subject: [PATCH 74/83] fix: rotation between opposite vectors fails when
 rounding hides that they are opposite

---
 src/math_physics/math/quaternion.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/math_physics/math/quaternion.cpp b/src/math_physics/math/quaternion.cpp
index 77f2430..033d495 100644
--- a/src/math_physics/math/quaternion.cpp
+++ b/src/math_physics/math/quaternion.cpp
@@ -34,19 +34,20 @@ Quaternion::Quaternion(const Vector<3>& vector_before, const Vector<3>& vector_a
   // outer product (rotation rotation_axis for converting vector_before to vector_after)
   Vector<3> op = OuterProduct(normalized_v_before, normalized_v_after);
 
-  if (ip > 1.0 - DBL_EPSILON) {  // if theta=0, then rotation is not need
+  const double op_norm = op.CalcNorm();
+  const double parallel_threshold = 1.0e-14;  // Below this, the outer product is nothing but rounding errors
+  if (op_norm < parallel_threshold && ip > 0.0) {  // if theta=0, then rotation is not need
     quaternion_[0] = 0.0;
     quaternion_[1] = 0.0;
     quaternion_[2] = 0.0;
     quaternion_[3] = 1.0;
-  } else if (ip < -1.0 + DBL_EPSILON) {
+  } else if (op_norm < parallel_threshold) {
     // if theta=180deg, the rotation rotation_axis can't be defined, so rotate vector_before manually
     Vector<3> rotation_axis = GenerateOrthogonalUnitVector(vector_before);
     quaternion_[0] = rotation_axis[0], quaternion_[1] = rotation_axis[1], quaternion_[2] = rotation_axis[2], quaternion_[3] = 0.0;
   } else {
-    assert(op.CalcNorm() > 0.0);
-    Vector<3> rotation_axis = 1.0 / op.CalcNorm() * op;
-    double rotation_angle = acos(ip);
+    Vector<3> rotation_axis = 1.0 / op_norm * op;
+    double rotation_angle = atan2(op_norm, ip);
     quaternion_[0] = rotation_axis[0] * sin(0.5 * rotation_angle);
     quaternion_[1] = rotation_axis[1] * sin(0.5 * rotation_angle);
     quaternion_[2] = rotation_axis[2] * sin(0.5 * rotation_angle);
-- 
2.43.0


From 13d3b7d44e22810d0bbe0ddf845518a57b26760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:01 +0000
Subject: [PATCH 75/83] fix: direction error of ideal generators too small, and
 changing the magnitude, as its axis is not normalized

---
 src/components/ideal/force_generator.cpp  | 1 +
 src/components/ideal/torque_generator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 2104ad4..5ba0535 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -101,6 +101,7 @@ math::Quaternion ForceGenerator::GenerateDirectionNoiseQuaternion(math::Vector<3
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
   }
+  rotation_axis = rotation_axis.CalcNormalizedVector();
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
   math::Quaternion error_quaternion(rotation_axis, error_angle_rad);
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index c64478b..ffc561b 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -75,6 +75,7 @@ math::Quaternion TorqueGenerator::GenerateDirectionNoiseQuaternion(math::Vector<
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
   }
+  rotation_axis = rotation_axis.CalcNormalizedVector();
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
   math::Quaternion error_quaternion(rotation_axis, error_angle_rad);
-- 
2.43.0


From 65474dc6b3ed2daaa8dc821bdb032ef5be4087e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:01 +0000
Subject: [PATCH 76/83] fix: ideal generators and attitude observers all share
 the same noise

---
 src/components/ideal/attitude_observer.cpp | 7 +++++--
 src/components/ideal/force_generator.cpp   | 5 +++--
 src/components/ideal/torque_generator.cpp  | 5 +++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/components/ideal/attitude_observer.cpp b/src/components/ideal/attitude_observer.cpp
index a77c1b4..dcbcd53 100644
--- a/src/components/ideal/attitude_observer.cpp
+++ b/src/components/ideal/attitude_observer.cpp
@@ -6,14 +6,17 @@
 #include "attitude_observer.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
 
 AttitudeObserver::AttitudeObserver(const int prescaler, environment::ClockGenerator* clock_generator, const double standard_deviation_rad,
                                    const dynamics::attitude::Attitude& attitude)
-    : Component(prescaler, clock_generator), angle_noise_(0.0, standard_deviation_rad), attitude_(attitude) {
-  direction_noise_.SetParameters(0.0, 1.0);
+    : Component(prescaler, clock_generator),
+      angle_noise_(0.0, standard_deviation_rad, randomization::global_randomization.MakeSeed()),
+      attitude_(attitude) {
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 void AttitudeObserver::MainRoutine(const int time_count) {
diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 5ba0535..ccb03e2 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -6,6 +6,7 @@
 #include "force_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -14,10 +15,10 @@ namespace s2e::components {
 ForceGenerator::ForceGenerator(const int prescaler, environment::ClockGenerator* clock_generator, const double magnitude_error_standard_deviation_N,
                                const double direction_error_standard_deviation_rad, const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_N),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_N, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 ForceGenerator::~ForceGenerator() {}
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index ffc561b..71dd9c2 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -6,6 +6,7 @@
 #include "torque_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -15,10 +16,10 @@ TorqueGenerator::TorqueGenerator(const int prescaler, environment::ClockGenerato
                                  const double magnitude_error_standard_deviation_Nm, const double direction_error_standard_deviation_rad,
                                  const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 TorqueGenerator::~TorqueGenerator() {}
-- 
2.43.0


From b2aff545c825859e8fea433d4ca5c36559bc96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:31 +0000
Subject: [PATCH 77/83] fix: interpolation between two states with the width of
 the step to come

---
 .../dormand_prince_5_implementation.hpp                     | 2 +-
 .../embedded_runge_kutta_implementation.hpp                 | 1 +
 .../numerical_integration/numerical_integrator.hpp          | 3 ++-
 .../runge_kutta_fehlberg_implementation.hpp                 | 6 +++---
 .../numerical_integration/runge_kutta_template.hpp          | 1 +
 5 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/math_physics/numerical_integration/dormand_prince_5_implementation.hpp b/src/math_physics/numerical_integration/dormand_prince_5_implementation.hpp
index 8a5bbb5..3d7dbab 100644
--- a/src/math_physics/numerical_integration/dormand_prince_5_implementation.hpp
+++ b/src/math_physics/numerical_integration/dormand_prince_5_implementation.hpp
@@ -128,7 +128,7 @@ math::Vector<N> DormandPrince5<N>::CalcInterpolationState(const double sigma) co
 
   math::Vector<N> interpolation_state = this->previous_state_;
   for (size_t i = 0; i < this->number_of_stages_; i++) {
-    interpolation_state = interpolation_state + (sigma * this->step_width_ * interpolation_weights[i]) * this->slope_[i];
+    interpolation_state = interpolation_state + (sigma * this->previous_step_width_ * interpolation_weights[i]) * this->slope_[i];
   }
 
   return interpolation_state;
diff --git a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
index f4e794a..5d8c0f9 100644
--- a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
+++ b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
@@ -14,6 +14,7 @@ void EmbeddedRungeKutta<N>::Integrate() {
   this->CalcSlope();
 
   this->previous_state_ = this->current_state_;
+  this->previous_step_width_ = this->step_width_;
   math::Vector<N> lower_current_state = this->current_state_;   //!< eta in the equation
   math::Vector<N> higher_current_state = this->current_state_;  //!< eta_hat in the equation
   for (size_t i = 0; i < this->number_of_stages_; i++) {
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index f2da3f8..b39a0cf 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -27,7 +27,7 @@ class NumericalIntegrator {
    * @param [in] ode: Ordinary differential equation
    */
   inline NumericalIntegrator(const double step_width, const InterfaceOde<N>& ode)
-      : step_width_(step_width), ode_(ode), current_independent_variable_(0.0), current_state_(0.0), previous_state_(0.0) {}
+      : step_width_(step_width), ode_(ode), current_independent_variable_(0.0), current_state_(0.0), previous_state_(0.0), previous_step_width_(step_width) {}
   /**
    * @fn ~NumericalIntegrator
    * @brief Destructor
@@ -80,6 +80,7 @@ class NumericalIntegrator {
   double current_independent_variable_;  //!< Latest value of independent variable
   math::Vector<N> current_state_;        //!< Latest state vector
   math::Vector<N> previous_state_;       //!< Previous state vector
+  double previous_step_width_;           //!< Step width between the previous and the current state
 };
 
 }  // namespace s2e::numerical_integration
diff --git a/src/math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp b/src/math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp
index c988703..0fe460f 100644
--- a/src/math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp
+++ b/src/math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp
@@ -67,16 +67,16 @@ template <size_t N>
 math::Vector<N> RungeKuttaFehlberg<N>::CalcInterpolationState(const double sigma) const {
   // Calc k7 (slope after state update)
   math::Vector<N> state_7 =
-      this->previous_state_ + this->step_width_ * (1.0 / 6.0 * this->slope_[0] + 1.0 / 6.0 * this->slope_[4] + 2.0 / 3.0 * this->slope_[5]);
+      this->previous_state_ + this->previous_step_width_ * (1.0 / 6.0 * this->slope_[0] + 1.0 / 6.0 * this->slope_[4] + 2.0 / 3.0 * this->slope_[5]);
   math::Vector<N> k7 = this->ode_.DerivativeFunction(this->current_independent_variable_, state_7);
 
   std::vector<double> interpolation_weights = CalcInterpolationWeights(sigma);
 
   math::Vector<N> interpolation_state = this->previous_state_;
   for (size_t i = 0; i < this->number_of_stages_; i++) {
-    interpolation_state = interpolation_state + (sigma * this->step_width_ * interpolation_weights[i]) * this->slope_[i];
+    interpolation_state = interpolation_state + (sigma * this->previous_step_width_ * interpolation_weights[i]) * this->slope_[i];
   }
-  interpolation_state = interpolation_state + sigma * this->step_width_ * (interpolation_weights[6] * k7);
+  interpolation_state = interpolation_state + sigma * this->previous_step_width_ * (interpolation_weights[6] * k7);
   return interpolation_state;
 }
 
diff --git a/src/math_physics/numerical_integration/runge_kutta_template.hpp b/src/math_physics/numerical_integration/runge_kutta_template.hpp
index 0a34a74..19cdfcd 100644
--- a/src/math_physics/numerical_integration/runge_kutta_template.hpp
+++ b/src/math_physics/numerical_integration/runge_kutta_template.hpp
@@ -14,6 +14,7 @@ void RungeKutta<N>::Integrate() {
   CalcSlope();
 
   this->previous_state_ = this->current_state_;
+  this->previous_step_width_ = this->step_width_;
   for (size_t i = 0; i < number_of_stages_; i++) {
     this->current_state_ = this->current_state_ + weights_[i] * this->step_width_ * slope_[i];
   }
-- 
2.43.0


From 0f963e489a33e4bcf8394898a4215c4e747e3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:31 +0000
Subject: [PATCH 78/83] fix: step width infinite after a step without error

---
 .../embedded_runge_kutta_implementation.hpp                | 4 +++-
 .../numerical_integration/numerical_integrator.hpp         | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
index 5d8c0f9..2296583 100644
--- a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
+++ b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
@@ -5,6 +5,8 @@
 #ifndef S2E_LIBRARY_NUMERICAL_INTEGRATION_EMBEDDED_RUNGE_KUTTA_IMPLEMENTATION_HPP_
 #define S2E_LIBRARY_NUMERICAL_INTEGRATION_EMBEDDED_RUNGE_KUTTA_IMPLEMENTATION_HPP_
 
+#include <cmath>
+
 #include "embedded_runge_kutta.hpp"
 
 namespace s2e::numerical_integration {
@@ -34,7 +36,7 @@ void EmbeddedRungeKutta<N>::Integrate() {
 template <size_t N>
 void EmbeddedRungeKutta<N>::ControlStepWidth(const double error_tolerance) {
   double updated_step_width = pow(error_tolerance / local_truncation_error_, 1.0 / ((double)(this->approximation_order_ + 1))) * this->step_width_;
-  if (updated_step_width <= 0.0) return;  // TODO: Error handling
+  if (!std::isfinite(updated_step_width) || updated_step_width <= 0.0) return;  // TODO: Error handling
   this->step_width_ = updated_step_width;
 }
 
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index b39a0cf..0121072 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -27,7 +27,12 @@ class NumericalIntegrator {
    * @param [in] ode: Ordinary differential equation
    */
   inline NumericalIntegrator(const double step_width, const InterfaceOde<N>& ode)
-      : step_width_(step_width), ode_(ode), current_independent_variable_(0.0), current_state_(0.0), previous_state_(0.0), previous_step_width_(step_width) {}
+      : step_width_(step_width),
+        ode_(ode),
+        current_independent_variable_(0.0),
+        current_state_(0.0),
+        previous_state_(0.0),
+        previous_step_width_(step_width) {}
   /**
    * @fn ~NumericalIntegrator
    * @brief Destructor
-- 
2.43.0


From 95c9c87818529a3835135f73a0b5396e7f45e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:31 +0000
Subject: [PATCH 79/83] fix: keep the last valid orbit when SGP4 reports an
 error

---
 src/dynamics/orbit/sgp4_orbit_propagation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/sgp4_orbit_propagation.cpp b/src/dynamics/orbit/sgp4_orbit_propagation.cpp
index 6916441..6455dec 100644
--- a/src/dynamics/orbit/sgp4_orbit_propagation.cpp
+++ b/src/dynamics/orbit/sgp4_orbit_propagation.cpp
@@ -58,7 +58,11 @@ void Sgp4OrbitPropagation::Propagate(const double end_time_s, const double curre
   sgp4(gravity_constant_setting_, sgp4_data_, elapse_time_min, position_i_km, velocity_i_km_s);
 
   // Error in SGP4
-  if (sgp4_data_.error > 0) printf("# *** error: time:= %f *** code = %3d\n", sgp4_data_.t, sgp4_data_.error);
+  if (sgp4_data_.error > 0) {
+    // The position and velocity are not available or invalid (e.g., decayed satellite), so the last valid state is kept
+    printf("# *** error: time:= %f *** code = %3d\n", sgp4_data_.t, sgp4_data_.error);
+    return;
+  }
 
   for (int i = 0; i < 3; ++i) {
     spacecraft_position_i_m_[i] = position_i_km[i] * 1000.0;
-- 
2.43.0


From de417d813e563a67ed7f63fbf77dc704f796ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:26 +0000
Subject: [PATCH 80/83] fix: use the horizon angle of the Earth in the star
 sensor exclusion check

---
 src/components/real/aocs/star_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index c6e11a0..12d5296 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -156,8 +156,8 @@ int StarSensor::SunJudgement(const math::Vector<3>& sun_b) {
 int StarSensor::EarthJudgement(const math::Vector<3>& earth_b) {
   math::Quaternion q_c2b = quaternion_b2c_.Conjugate();
   math::Vector<3> sight_b = q_c2b.FrameConversion(sight_direction_c_);
-  double earth_size_rad = atan2(environment::earth_equatorial_radius_m,
-                                earth_b.CalcNorm());                      // angles between sat<->earth_center & sat<->earth_edge
+  double earth_size_rad = asin(std::min(environment::earth_equatorial_radius_m / earth_b.CalcNorm(),
+                                        1.0));                            // angles between sat<->earth_center & sat<->earth_edge
   double earth_center_angle_rad = CalAngleVector_rad(earth_b, sight_b);   // angles between sat<->earth_center & sat_sight
   double earth_edge_angle_rad = earth_center_angle_rad - earth_size_rad;  // angles between sat<->earth_edge & sat_sight
   if (earth_edge_angle_rad < earth_forbidden_angle_rad_)
-- 
2.43.0


From 136224c12bb112a951aac6ab39f3a970fe74c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:27 +0000
Subject: [PATCH 81/83] fix: reload the magnetic field coefficients when the
 file or the period of the model changes

---
 src/environment/local/geomagnetic_field.cpp |  1 +
 src/math_physics/geomagnetic/igrf.cpp       | 12 ++++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 1f35355..6e122ff 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -32,6 +32,7 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
   const double lon_rad = position.GetLongitude_rad();
   const double alt_m = position.GetAltitude_m();
 
+  set_file_path(igrf_file_name_.c_str());  // The coefficient file is shared by all instances
   double magnetic_field_array_i_nT[3];
   IgrfCalc(decimal_year, lat_rad, lon_rad, alt_m, sidereal_day, magnetic_field_array_i_nT);
   AddNoise(magnetic_field_array_i_nT);
diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 939625b..9ef6961 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -84,6 +84,8 @@ static double vgh[MxOD + 1][MxOD + 1], vght[MxOD + 1][MxOD + 1];
 
 // coeff file path
 static char coeff_file[256];
+static char loaded_coeff_file[256];              // File the present coefficients were read from
+static double valid_from = 0.0, valid_to = 0.0;  // Period of the present coefficients [decimal year]
 
 static void fcalc(void);
 
@@ -417,6 +419,10 @@ void gigrf(int gen, double year) {
       exit(1);
     }
   }
+  fclose(fp);
+  strcpy(loaded_coeff_file, coeff_file);
+  valid_from = (l == 2) ? -HUGE_VAL : (l == ncol) ? yr2 : yr1;
+  valid_to = (l == ncol) ? HUGE_VAL : yr2;
   if (l == ncol)
     tzero = yr2;
   else {
@@ -466,14 +472,12 @@ int TransMagaxisToECI(const double *mag, double *pos, double lonrad, double thet
 // IGRFの計算を実行するメインルーチン
 // Output	:	mag[3]	ECI座標での磁界の値[nT]
 void IgrfCalc(double decyear, double latrad, double lonrad, double alt, double side, double *mag) {
-  static bool first_flg = true;
-
-  if (first_flg == true) {
+  // Read the coefficients when the file was changed or another period has begun
+  if (strcmp(loaded_coeff_file, coeff_file) != 0 || decyear < valid_from || decyear >= valid_to) {
     // gigrf(10,decyear);	//ファイル読み込み
     // gigrf(11, decyear);
     // gigrf(12, decyear);
     gigrf(13, decyear);
-    first_flg = false;
   }
   tyear(decyear);  // 実行年の設定
   igrfc(latrad * RAD2DEG, lonrad * RAD2DEG, alt,
-- 
2.43.0


From 5d49940ca5a472489d8ea2b26de1d887e4e52e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:22 +0000
Subject: [PATCH 82/83] fix: latitude of GNSS satellites below the antenna
 plane in the GNSS receiver

---
 src/components/real/aocs/gnss_receiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/gnss_receiver.cpp b/src/components/real/aocs/gnss_receiver.cpp
index 8acf578..354c95e 100644
--- a/src/components/real/aocs/gnss_receiver.cpp
+++ b/src/components/real/aocs/gnss_receiver.cpp
@@ -173,7 +173,7 @@ void GnssReceiver::SetGnssInfo(const math::Vector<3> antenna_to_satellite_i_m, c
   double distance_m = antenna_to_satellite_i_m.CalcNorm();
   double longitude_rad = AcTan(antenna_to_satellite_direction_c[1], antenna_to_satellite_direction_c[0]);
   double latitude_rad =
-      AcTan(antenna_to_satellite_direction_c[2], sqrt(pow(antenna_to_satellite_direction_c[0], 2.0) + pow(antenna_to_satellite_direction_c[1], 2.0)));
+      atan2(antenna_to_satellite_direction_c[2], sqrt(pow(antenna_to_satellite_direction_c[0], 2.0) + pow(antenna_to_satellite_direction_c[1], 2.0)));
 
   GnssInfo gnss_info_new = {gnss_system_id, latitude_rad, longitude_rad, distance_m};
   gnss_information_list_.push_back(gnss_info_new);
-- 
2.43.0


From 69c5d96c888a9fafacc6fafc33ef932af509d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:14 +0000
Subject: [PATCH 83/83] fix: surface forces after surfaces were added to the
 structure

---
 src/disturbances/surface_force.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disturbances/surface_force.cpp b/src/disturbances/surface_force.cpp
index ab2726a..27d24f0 100644
--- a/src/disturbances/surface_force.cpp
+++ b/src/disturbances/surface_force.cpp
@@ -23,6 +23,12 @@ SurfaceForce::SurfaceForce(const std::vector<spacecraft::Surface>& surfaces, con
 }
 
 math::Vector<3> SurfaceForce::CalcTorqueForce(math::Vector<3>& input_direction_b, double item) {
+  // Surfaces can be added or removed during the simulation
+  normal_coefficients_.resize(surfaces_.size(), 0.0);
+  tangential_coefficients_.resize(surfaces_.size(), 0.0);
+  cos_theta_.resize(surfaces_.size(), 0.0);
+  sin_theta_.resize(surfaces_.size(), 0.0);
+
   CalcTheta(input_direction_b);
   CalcCoefficients(input_direction_b, item);
 
-- 
2.43.0

