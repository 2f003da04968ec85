From 3f224561dcfd426ac0a019030523b468b649cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 01/17] fix: reopen only banks that were active when leaving
 active power-down

DDR5, LPDDR4, LPDDR5 and LPDDR6 decided which banks to reopen on PDXA by
comparing the end of a bank's last active interval with the start of the
power-down. A precharged bank whose refresh (or precharge) ended exactly at
the power-down entry was reopened as well. Use the bank state, as DDR4 does.
---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index 2d27b3f..fe70f9e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -257,7 +257,7 @@ void DDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestam
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index f55157b..9acf224 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -193,7 +193,7 @@ void LPDDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index ba15dc9..263740b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -254,7 +254,7 @@ void LPDDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 4b67fd8..e0aabda 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -248,7 +248,7 @@ void LPDDR6Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         rank.cycles.powerDownAct.close_interval(exitTime);
         rank.cycles.act.start_interval(exitTime);
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 bank.cycles.act.start_interval(exitTime);
             }
         }
-- 
2.43.0


From 9de73eb244e5323a30a0ccefab167de6d4b167ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 02/17] fix: bus statistics across disable and enable: an empty
 burst storage ends at the last (re)start, pending statistics are dropped

---
 src/DRAMPower/DRAMPower/util/bus.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/bus.h b/src/DRAMPower/DRAMPower/util/bus.h
index 14e1ec3..7cd6149 100644
--- a/src/DRAMPower/DRAMPower/util/bus.h
+++ b/src/DRAMPower/DRAMPower/util/bus.h
@@ -91,14 +91,16 @@ private:
 
 	void advance_stats(timestamp_t virtual_timestamp, stats_t& stats) const {
 		// Advance counters to new timestamp
-		timestamp_t burstStorageEndTime = this->burst_storage.endTime();
+		// An empty burst storage (nothing loaded since the start or the last enable) ends at last_load
+		const bool hasBurst = !this->burst_storage.empty();
+		timestamp_t burstStorageEndTime = hasBurst ? this->burst_storage.endTime() : this->last_load;
 		// Burst storage
 		timestamp_t lastburstEnd = std::min(burstStorageEndTime, virtual_timestamp);
 		for (timestamp_t t = this->last_load; 0 != lastburstEnd && t < lastburstEnd - 1; ++t) {
 			stats += diff(this->at(t), this->at(t + 1)); // Last: (virtual_timestamp - 2, virtual_timestamp - 1)
 		}
 		// Burst to idle
-		if (virtual_timestamp > burstStorageEndTime && burstStorageEndTime > 0) {
+		if (virtual_timestamp > burstStorageEndTime && hasBurst) {
 			// Burst to idle
 			stats += diff(this->at(burstStorageEndTime - 1), this->at(burstStorageEndTime));
 		}
@@ -201,6 +203,7 @@ public:
 
 		add_previous_stats(this->virtual_disable_timestamp);
 		// Clear pending stats
+		this->pending_stats.clear();
 		this->burst_storage.clear();
 
 		this->last_load = this->virtual_disable_timestamp;
-- 
2.43.0


From 80d0f14dad9bd0422513929d834d9a151f711fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 03/17] fix: a DBI reset before a non-seamless burst no longer
 adds a beat to the DBI pins' new burst

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 +++-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 +++-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6845467..7ea4b64 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -32,7 +32,9 @@ namespace DRAMPower {
         , m_writeDQS(memSpec.dataRate, true)
         , m_clock(2, false)
         , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength,
-            [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+            [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+            // The reset after the last burst precedes this load. The pins return to idle on their own after a burst.
+            if (chunk_timestamp < load_timestamp) return;
             this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
         }, false)
         , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index c2cace5..b1f4514 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -32,7 +32,9 @@ LPDDR4Interface::LPDDR4Interface(const MemSpecLPDDR4& memSpec, const config::Sim
     , m_readDQS(memSpec.dataRate, true)
     , m_writeDQS(memSpec.dataRate, true)
     , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // The reset after the last burst precedes this load. The pins return to idle on their own after a burst.
+        if (chunk_timestamp < load_timestamp) return;
         this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
     }, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 05044bf..84d3379 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -31,7 +31,9 @@ LPDDR5Interface::LPDDR5Interface(const MemSpecLPDDR5& memSpec, const config::Sim
     , m_readDQS(memSpec.dataRate, true)
     , m_wck(memSpec.dataRate / memSpec.memTimingSpec.WCKtoCK, !memSpec.wckAlwaysOnMode)
     , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // The reset after the last burst precedes this load. The pins return to idle on their own after a burst.
+        if (chunk_timestamp < load_timestamp) return;
         this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
     }, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
-- 
2.43.0


From aff1bcf6a6177bf45f7ae400310aa10bd0db20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 04/17] fix: DBI pin statistics are queried with the data rate
 the pins are loaded with

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 7ea4b64..12605c4 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -366,10 +366,10 @@ namespace DRAMPower {
         stats.writeDQSStats = NumDQsPairs * 2u * m_writeDQS.get_stats_at(timestamp);
 
         for (const auto &dbi_pin : m_dbiread) {
-            stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
         for (const auto &dbi_pin : m_dbiwrite) {
-            stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index b1f4514..b946961 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -256,10 +256,10 @@ void LPDDR4Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.writeDQSStats = 2 * m_writeDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 
     if (m_memSpec.bitWidth == 16) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 84d3379..c393a9e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -387,10 +387,10 @@ void LPDDR5Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.readDQSStats = 2.0 * m_readDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 }
 
-- 
2.43.0


From c7f868e4a954375b9333bd9d645ffcc7e81f9e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 05/17] fix: a DBI chunk of several data units ends with its
 last unit

---
 src/DRAMPower/DRAMPower/util/dbihelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbihelpers.h b/src/DRAMPower/DRAMPower/util/dbihelpers.h
index 404ecb4..3683c25 100644
--- a/src/DRAMPower/DRAMPower/util/dbihelpers.h
+++ b/src/DRAMPower/DRAMPower/util/dbihelpers.h
@@ -119,7 +119,7 @@ public:
     }
 
     inline bool last() const {
-        return 0 == (m_current_data_idx % COUNT_DATA);
+        return m_current_data_idx + 1 == COUNT_DATA;
     }
 
     inline static constexpr std::size_t getDataTotal() {
-- 
2.43.0


From 416a41ec734616ccde8e8c58a54a649e9232f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 06/17] fix: LPDDR6 command parity is generated for the parity
 bit of every command part

---
 .../DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
index b7a9320..8048495 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
@@ -154,11 +154,18 @@ uint64_t LPDDR6Encoder::encode(const LPDDR6TargetCoordinate& targetCoordinate, c
         }
 
         // Parity
-        if (extraData.parity_check_mode && PAR == pattern[2]) {
+        if (extraData.parity_check_mode) {
             // When CA Parity is enabled, the Host 
             // generates an even bit parity based on the 1st and 2nd rising and falling edges of CA[3:0] 
-            // signals, excluding the CA Parity bit
-            bitset[pattern.size() - 3] = (1 == bitset.count() % 2);
+            // signals, excluding the CA Parity bit. Two-part commands (ACT-1, ACT-2) carry one parity bit per part.
+            constexpr std::size_t partSize = 16;
+            const std::bitset<64> partMask((1ull << partSize) - 1);
+            for (std::size_t i = 0; i < pattern.size(); ++i) {
+                if (PAR == pattern[i]) {
+                    const std::size_t partStart = pattern.size() - (i / partSize + 1) * partSize;
+                    bitset[pattern.size() - 1 - i] = (1 == ((bitset >> partStart) & partMask).count() % 2);
+                }
+            }
         }
 
         return bitset.to_ullong();
-- 
2.43.0


From 2324bca021e1d8354fb49fd068e0909416d03fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 07/17] fix: interface checkpoints include the DBI state, the
 last command pattern, LPDDR6 metadata and the enable flag

---
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp |  6 ++++++
 src/DRAMPower/DRAMPower/util/PatternHandler.h      |  2 ++
 src/DRAMPower/DRAMPower/util/dbi.h                 |  2 +-
 5 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index b946961..966327d 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -276,6 +276,13 @@ void LPDDR4Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_writeDQS.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto &pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto &pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR4Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -285,6 +292,13 @@ void LPDDR4Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_writeDQS.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto &pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto &pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index c393a9e..6b566a8 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -402,6 +402,13 @@ void LPDDR5Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto &pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto &pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR5Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -411,6 +418,13 @@ void LPDDR5Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto &pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto &pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 } // namespace DRAMPower
\ No newline at end of file
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 77d7e90..593d998 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -378,6 +378,9 @@ void LPDDR6Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    stream.write(reinterpret_cast<const char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
+    stream.write(reinterpret_cast<const char*>(&m_enabled), sizeof(m_enabled));
 }
 
 void LPDDR6Interface::deserialize(std::istream& stream) {
@@ -388,6 +391,9 @@ void LPDDR6Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    stream.read(reinterpret_cast<char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
+    stream.read(reinterpret_cast<char*>(&m_enabled), sizeof(m_enabled));
 }
 
 std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatData(
diff --git a/src/DRAMPower/DRAMPower/util/PatternHandler.h b/src/DRAMPower/DRAMPower/util/PatternHandler.h
index a08cea0..cf6e48c 100644
--- a/src/DRAMPower/DRAMPower/util/PatternHandler.h
+++ b/src/DRAMPower/DRAMPower/util/PatternHandler.h
@@ -102,9 +102,11 @@ public:
 public:
     void serialize(std::ostream& stream) const override {
         m_encoder.serialize(stream);
+        stream.write(reinterpret_cast<const char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
     void deserialize(std::istream& stream) override {
         m_encoder.deserialize(stream);
+        stream.read(reinterpret_cast<char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
 
 // Private member variables
diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0f0a24f..083a5da 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -137,7 +137,7 @@ private:
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
             for (std::size_t i = 0; i < m_lastbeatSize; ++i) {
-                bool entry;
+                DataType_t entry;
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_lastbeat.push_back(entry);
             }
-- 
2.43.0


From f7e6dfd9b3b14370c13c1326817c1a58d8d2d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 08/17] fix: the pattern encoder drives row address bit 18
 (LPDDR4 ACT)

---
 src/DRAMPower/DRAMPower/command/Pattern.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/command/Pattern.cpp b/src/DRAMPower/DRAMPower/command/Pattern.cpp
index b89392e..5d1db39 100644
--- a/src/DRAMPower/DRAMPower/command/Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/command/Pattern.cpp
@@ -192,6 +192,9 @@ namespace DRAMPower {
             case R17:
                 bitset[n] = row_bits[17];
                 break;
+            case R18:
+                bitset[n] = row_bits[18];
+                break;
 
                 default:
                 break;
-- 
2.43.0


From af6d8c2f9dafb45bc4a0a7156d80775320aeff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 09/17] fix: read and write energy use the exact burst time for
 burst lengths that are no multiple of the data rate

---
 .../DRAMPower/standards/ddr4/core_calculation_DDR4.cpp        | 2 +-
 .../DRAMPower/standards/ddr5/core_calculation_DDR5.cpp        | 2 +-
 .../DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp    | 4 ++--
 .../DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp    | 4 ++--
 .../DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp    | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/core_calculation_DDR4.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/core_calculation_DDR4.cpp
index b35c3bd..01836f4 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/core_calculation_DDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/core_calculation_DDR4.cpp
@@ -31,7 +31,7 @@ namespace DRAMPower {
 	}
 
 	inline double Calculation_DDR4::E_WR(double VDD, double IDD4_W, double I_B, double t_CK, std::size_t BL, std::size_t DR, uint64_t N_WR) const {
-		return VDD * (IDD4_W - I_B) * (BL / DR) * t_CK * N_WR;
+		return VDD * (IDD4_W - I_B) * (double(BL) / DR) * t_CK * N_WR;
 	}
 
 	inline double Calculation_DDR4::E_ref_ab(std::size_t B, double VDD, double IDD5B, double I_B, double tRFC, uint64_t N_REF) const {
diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/core_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/core_calculation_DDR5.cpp
index 08791ec..335086c 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/core_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/core_calculation_DDR5.cpp
@@ -36,7 +36,7 @@ namespace DRAMPower {
 
     double Calculation_DDR5::E_WR(double VDD, double IDD4_W, double I_B, double t_CK, std::size_t BL, std::size_t DR,
                                   uint64_t N_WR) const {
-        return VDD * (IDD4_W - I_B) * (BL / DR) * t_CK * N_WR;
+        return VDD * (IDD4_W - I_B) * (double(BL) / DR) * t_CK * N_WR;
     }
 
     double
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp
index 20e2d24..d1d7eba 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp
@@ -29,11 +29,11 @@ namespace DRAMPower {
     }
 
     double Calculation_LPDDR4::E_RD(double VDD, double IDD4_R, double I_1, std::size_t BL, std::size_t DR, double t_CK, uint64_t N_RD) const {
-        return VDD * (IDD4_R - I_1) * (BL / DR) * t_CK * N_RD;
+        return VDD * (IDD4_R - I_1) * (double(BL) / DR) * t_CK * N_RD;
     }
 
     double Calculation_LPDDR4::E_WR(double VDD, double IDD4_W, double I_1, std::size_t BL, std::size_t DR, double t_CK, uint64_t N_WR) const {
-        return VDD * (IDD4_W - I_1) * (BL / DR) * t_CK * N_WR;
+        return VDD * (IDD4_W - I_1) * (double(BL) / DR) * t_CK * N_WR;
     }
 
     double Calculation_LPDDR4::E_ref_ab(std::size_t B, double VDD, double IDD5, double I_B, double tRFC, uint64_t N_REF) const {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp
index ac007d1..6ec0f6e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp
@@ -30,11 +30,11 @@ namespace DRAMPower {
     }
 
     double Calculation_LPDDR5::E_RD(double VDD, double IDD4_R, double I_i, std::size_t BL, std::size_t DR, double t_WCK, uint64_t N_RD) const {
-        return VDD * (IDD4_R - I_i) * (BL / DR) * t_WCK * N_RD;
+        return VDD * (IDD4_R - I_i) * (double(BL) / DR) * t_WCK * N_RD;
     }
 
     double Calculation_LPDDR5::E_WR(double VDD, double IDD4_R, double I_i, std::size_t BL, std::size_t DR, double t_WCK, uint64_t N_WR) const {
-        return VDD * (IDD4_R - I_i) * (BL / DR) * t_WCK * N_WR;
+        return VDD * (IDD4_R - I_i) * (double(BL) / DR) * t_WCK * N_WR;
     }
 
     double Calculation_LPDDR5::E_ref_ab(std::size_t B, double VDD, double IDD5B, double IDD3_N, double tRFC, uint64_t N_REF) const {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp
index 3149a49..c7d2ed9 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp
@@ -29,11 +29,11 @@ namespace DRAMPower {
     }
 
     double Calculation_LPDDR6::E_RD(double VDD, double IDD4_R, double I_2, std::size_t BL, std::size_t DR, double t_WCK, uint64_t N_RD) const {
-        return VDD * (IDD4_R - I_2) * (BL / DR) * t_WCK * N_RD;
+        return VDD * (IDD4_R - I_2) * (double(BL) / DR) * t_WCK * N_RD;
     }
 
     double Calculation_LPDDR6::E_WR(double VDD, double IDD4_W, double I_2, std::size_t BL, std::size_t DR, double t_WCK, uint64_t N_WR) const {
-        return VDD * (IDD4_W - I_2) * (BL / DR) * t_WCK * N_WR;
+        return VDD * (IDD4_W - I_2) * (double(BL) / DR) * t_WCK * N_WR;
     }
 
     double Calculation_LPDDR6::E_ref_ab(std::size_t B, double VDD, double IDD5B, double I_B, double tRFC, uint64_t N_REF) const {
-- 
2.43.0


From 342b525da611a32a14608c645ba71b092c697612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 10/17] fix: DDR5 toggling-rate energy honours the DQ
 termination flags

---
 .../DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
index c6cd8d4..c231ed8 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
@@ -73,13 +73,13 @@ interface_energy_info_t InterfaceCalculation_DDR5::calcDQEnergyTogglingRate(cons
 
     // Read
     result.dram.staticEnergy +=
-        calcStaticTermination(impedances_.rdq_R_eq, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.rdq_termination, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.dram.dynamicEnergy +=
         calc_dynamic_energy(stats.read.zeroes_to_ones, impedances_.rdq_dyn_E);
 
     // Write
     result.controller.staticEnergy +=
-        calcStaticTermination(impedances_.wdq_R_eq, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.wdq_termination, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.controller.dynamicEnergy +=
         calc_dynamic_energy(stats.write.zeroes_to_ones, impedances_.wdq_dyn_E);
 
-- 
2.43.0


From ce707bde004dce6df8776f341220c0efe8f339e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 11/17] fix: LPDDR5 specifications without bank groups no
 longer divide by zero; banks per group follow the selected architecture

---
 src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
index 5eb179a..c477f6c 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
@@ -8,7 +8,6 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
 {
     numberOfBankGroups      = memspec.memarchitecturespec.nbrOfBankGroups;
     numberOfRanks           = memspec.memarchitecturespec.nbrOfRanks;
-    banksPerGroup           = numberOfBanks / numberOfBankGroups;
 
     memTimingSpec.tCK       = memspec.memtimingspec.tCK;
     memTimingSpec.WCKtoCK   = memspec.memtimingspec.WCK2CK;
@@ -114,6 +113,9 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
         BankArchError();
     }
 
+    // no bank groups: all banks form one group
+    banksPerGroup           = numberOfBankGroups > 0 ? numberOfBanks / numberOfBankGroups : numberOfBanks;
+
     // Source: LPDDR5 standard; table 312
     memTimingSpec.tBurst = burstLength/(dataRate * memTimingSpec.WCKtoCK);
 
-- 
2.43.0


From 0380bb2e2e8b51e1b00d4fddf14d8af767fdd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 12/17] fix: size the DBI inversion state for bursts longer
 than the first one

---
 src/DRAMPower/DRAMPower/util/dbi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 083a5da..4e88683 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -270,7 +270,7 @@ public:
         std::size_t n_chunks = n_bits / ChunkSize;
         
         // Resize lastInvert vector if needed
-        if (lastInvert.capacity() < n_chunks) {
+        if (lastInvert.size() < n_chunks) {
             lastInvert.resize(n_chunks, false);
         }
         
-- 
2.43.0


From 9e3ab448ee07fb2ecb3c95b141e68c3ed0aea21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 13/17] fix: restore the inverted DBI data with its own entry
 size

---
 src/DRAMPower/DRAMPower/util/dbi.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 4e88683..15f43b2 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -341,9 +341,9 @@ public:
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
         for (std::size_t i = 0; i < invertedDataSize; ++i) {
-            uint8_t byte;
-            stream.read(reinterpret_cast<char*>(&byte), sizeof(byte));
-            m_invertedData.push_back(byte);
+            DataType_t entry;
+            stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
+            m_invertedData.push_back(entry);
         }
     }
 
-- 
2.43.0


From 50ddf6f1e03d1095d11bdbf940485e131f0a302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 14/17] fix: compare seamless DBI bursts with the last beat of
 their own direction

---
 src/DRAMPower/DRAMPower/util/dbi.h | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 15f43b2..d040e9d 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -256,9 +256,6 @@ public:
         assert(0 == (n_bits % DATATYPEDIGITS) && "n_bits must be a multiple of DATATYPEDIGITS");
         std::size_t entries_needed = n_bits / DATATYPEDIGITS;
 
-        // Save lastBeat for seamless Bursts
-        saveLastBurst(timestamp, m_lastBurst);
-
         // SAFETY: the assigning is necessary so there are no data copies during dbi calculation
         m_invertedData.assign(data, data + entries_needed);
 
@@ -293,6 +290,9 @@ public:
             previous_iterator,
         IDLEPATTERN, std::move(invert_visitor));
 
+        // Save lastBeat for seamless Bursts
+        saveLastBeat(m_lastBurst);
+
         // Store burst information
         m_lastBurst.update(timestamp, m_width, m_burstLength, n_bits);
         lastBurstRead = read;
@@ -350,21 +350,16 @@ public:
 
 // Private member functions
 private:
-    void saveLastBurst(timestamp_t timestamp, LastBurst_t& m_lastBurst) {
-        if (m_lastBurst.m_init && m_lastBurst.end() == timestamp && m_width.has_value() // seamless burst and busWidth provided
-            && m_lastBurst.beats() != 0 && m_invertedData.size() > m_width.value() / DATATYPEDIGITS) // at least one beat is required
-        {
-            assert(0 <= (m_invertedData.size() - (m_width.value() / DATATYPEDIGITS)) && "Invalid m_invertedData size");
-            m_lastBurst.m_lastbeat.clear();
-            std::size_t n_subChunks = m_width.value() / DATATYPEDIGITS;
-            m_lastBurst.m_lastbeat.resize(n_subChunks);
-            std::copy(m_invertedData.end() - n_subChunks, m_invertedData.end(), m_lastBurst.m_lastbeat.begin());
-        }
+    void saveLastBeat(LastBurst_t& m_lastBurst) {
+        if (!m_width.has_value()) return;
+        const std::size_t n_subChunks = m_width.value() / DATATYPEDIGITS;
+        if (m_invertedData.size() < n_subChunks) return; // at least one beat is required
+        m_lastBurst.m_lastbeat.assign(m_invertedData.end() - n_subChunks, m_invertedData.end());
     }
 
     AlgorithmPreviousOptional_t createPreviousIterator(timestamp_t timestamp, LastBurst_t& m_lastBurst) {
         if (m_lastBurst.m_init && m_lastBurst.end() == timestamp && m_width.has_value() // seamless burst and busWidth provided
-            && m_lastBurst.beats() != 0 && m_invertedData.size() > m_width.value() / DATATYPEDIGITS) // at least one beat is required
+            && m_lastBurst.m_lastbeat.size() == m_width.value() / DATATYPEDIGITS) // the last beat of that burst is available
         {
             assert(0 <= (m_invertedData.size() - (m_width.value() / DATATYPEDIGITS)) && "Invalid m_invertedData size");
             // Create concat iterator of lastburst and current burst
-- 
2.43.0


From ecf30cf6b0e1c1a8f233f3ca3371ad398d3e5e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 15/17] fix: DBI pin changes of a copied or moved interface go
 to that interface

---
 .../DRAMPower/standards/ddr4/DDR4Interface.cpp | 18 ++++++++++++------
 .../DRAMPower/standards/ddr4/DDR4Interface.h   |  1 +
 .../standards/lpddr4/LPDDR4Interface.cpp       | 18 ++++++++++++------
 .../standards/lpddr4/LPDDR4Interface.h         |  1 +
 .../standards/lpddr5/LPDDR5Interface.cpp       | 18 ++++++++++++------
 .../standards/lpddr5/LPDDR5Interface.h         |  1 +
 6 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 12605c4..8b6f0de 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -31,12 +31,7 @@ namespace DRAMPower {
         , m_readDQS(memSpec.dataRate, true)
         , m_writeDQS(memSpec.dataRate, true)
         , m_clock(2, false)
-        , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength,
-            [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
-            // The reset after the last burst precedes this load. The pins return to idle on their own after a burst.
-            if (chunk_timestamp < load_timestamp) return;
-            this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-        }, false)
+        , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength, nullptr, false)
         , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
         , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
         , prepostambleReadMinTccd(memSpec.prePostamble.readMinTccd)
@@ -187,12 +182,22 @@ namespace DRAMPower {
         }
     }
 
+    // The callback is bound right before it is used: it must refer to this object, also after a copy or move
+    void DDR4Interface::bindDBICallback() {
+        m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+            // The reset after the last burst precedes this load. The pins return to idle on their own after a burst.
+            if (chunk_timestamp < load_timestamp) return;
+            this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+        });
+    }
+
     std::optional<const uint8_t *> DDR4Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
         if (0 == n_bits || !data || !m_dbi.isEnabled()) {
             // No DBI or no data to process
             return std::nullopt;
         }
         timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
+        bindDBICallback();
         // updateDBI calls the given callback to handle pin changes
         return m_dbi.updateDBI(virtual_time, n_bits, data, read);
     }
@@ -329,6 +334,7 @@ namespace DRAMPower {
     }
 
     void DDR4Interface::endOfSimulation(timestamp_t timestamp) {
+        bindDBICallback();
         m_dbi.dispatchResetCallback(timestamp);
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
index 07366b0..6423f71 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
@@ -75,6 +75,7 @@ public:
 // Private member functions
 private:
     void registerPatterns();
+    void bindDBICallback();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index 966327d..a61d01e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -31,12 +31,7 @@ LPDDR4Interface::LPDDR4Interface(const MemSpecLPDDR4& memSpec, const config::Sim
     }
     , m_readDQS(memSpec.dataRate, true)
     , m_writeDQS(memSpec.dataRate, true)
-    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
-        // The reset after the last burst precedes this load. The pins return to idle on their own after a burst.
-        if (chunk_timestamp < load_timestamp) return;
-        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-    }, false)
+    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength, nullptr, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_patternHandler(PatternEncoderOverrides{
@@ -163,12 +158,22 @@ void LPDDR4Interface::handleDBIPinChange(const timestamp_t load_timestamp, std::
     }
 }
 
+// The callback is bound right before it is used: it must refer to this object, also after a copy or move
+void LPDDR4Interface::bindDBICallback() {
+    m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // The reset after the last burst precedes this load. The pins return to idle on their own after a burst.
+        if (chunk_timestamp < load_timestamp) return;
+        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+    });
+}
+
 std::optional<const uint8_t *> LPDDR4Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
     if (0 == n_bits || !data || !m_dbi.isEnabled()) {
         // No DBI or no data to process
         return std::nullopt;
     }
     timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
+    bindDBICallback();
     // updateDBI calls the given callback to handle pin changes
     return m_dbi.updateDBI(virtual_time, n_bits, data, read);
 }
@@ -238,6 +243,7 @@ void LPDDR4Interface::handleData(const Command &cmd, bool read) {
 }
 
 void LPDDR4Interface::endOfSimulation(timestamp_t timestamp) {
+    bindDBICallback();
     m_dbi.dispatchResetCallback(timestamp);
 }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
index f8aee8e..61e5cdc 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
@@ -71,6 +71,7 @@ public:
 // Private Member functions
 private:
     void registerPatterns();
+    void bindDBICallback();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 6b566a8..dd1b71b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -30,12 +30,7 @@ LPDDR5Interface::LPDDR5Interface(const MemSpecLPDDR5& memSpec, const config::Sim
     }
     , m_readDQS(memSpec.dataRate, true)
     , m_wck(memSpec.dataRate / memSpec.memTimingSpec.WCKtoCK, !memSpec.wckAlwaysOnMode)
-    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
-        // The reset after the last burst precedes this load. The pins return to idle on their own after a burst.
-        if (chunk_timestamp < load_timestamp) return;
-        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-    }, false)
+    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength, nullptr, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_patternHandler(PatternEncoderOverrides{}) // No overrides
@@ -295,12 +290,22 @@ void LPDDR5Interface::handleDBIPinChange(const timestamp_t load_timestamp, std::
     }
 }
 
+// The callback is bound right before it is used: it must refer to this object, also after a copy or move
+void LPDDR5Interface::bindDBICallback() {
+    m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // The reset after the last burst precedes this load. The pins return to idle on their own after a burst.
+        if (chunk_timestamp < load_timestamp) return;
+        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+    });
+}
+
 std::optional<const uint8_t *> LPDDR5Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
     if (0 == n_bits || !data || !m_dbi.isEnabled()) {
         // No DBI or no data to process
         return std::nullopt;
     }
     timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
+    bindDBICallback();
     // updateDBI calls the given callback to handle pin changes
     return m_dbi.updateDBI(virtual_time, n_bits, data, read);
 }
@@ -369,6 +374,7 @@ void LPDDR5Interface::handleData(const Command &cmd, bool read) {
 }
 
 void LPDDR5Interface::endOfSimulation(timestamp_t timestamp) {
+    bindDBICallback();
     m_dbi.dispatchResetCallback(timestamp);
 }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
index d1c5ebd..3d6a9c7 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
@@ -75,6 +75,7 @@ public:
 // Public member functions
 private:
     void registerPatterns();
+    void bindDBICallback();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
-- 
2.43.0


From de39a5fce015cb2f901922511a428a752a34074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 16/17] fix: registering an extension again replaces it in the
 serialization order

---
 src/DRAMPower/DRAMPower/util/extension_manager.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index 6f4eb42..254f206 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -63,8 +63,16 @@ protected:
 
         auto ext = std::make_shared<T>(std::forward<Args>(args)...);
         auto typeIndex = std::type_index(typeid(T));
-        m_extensions[typeIndex] = ext;
-        m_serStorage.emplace_back(ext);
+        auto [it, inserted] = m_extensions.try_emplace(typeIndex, ext);
+        if (inserted) {
+            m_serStorage.emplace_back(ext);
+        } else {
+            // Registered again: the new extension takes the place of the old one
+            for (auto& wp : m_serStorage) {
+                if (wp.lock() == it->second) wp = ext;
+            }
+            it->second = ext;
+        }
         return ext;
     }
 
-- 
2.43.0


From 0b44a7efd70dbcea455f78077466d093c0288b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:15 +0000
Subject: [PATCH 17/17] fix: extensions of a copied or moved DRAM act on that
 DRAM, not on the original

---
 .../DRAMPower/standards/ddr4/DDR4.cpp         | 35 +++++++++++++++++--
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h |  7 ++--
 .../DRAMPower/standards/lpddr4/LPDDR4.cpp     | 35 +++++++++++++++++--
 .../DRAMPower/standards/lpddr4/LPDDR4.h       |  7 ++--
 .../DRAMPower/standards/lpddr5/LPDDR5.cpp     | 35 +++++++++++++++++--
 .../DRAMPower/standards/lpddr5/LPDDR5.h       |  7 ++--
 .../DRAMPower/standards/lpddr6/LPDDR6.cpp     | 35 +++++++++++++++++--
 .../DRAMPower/standards/lpddr6/LPDDR6.h       |  7 ++--
 8 files changed, 144 insertions(+), 24 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp
index eb13b29..e3d683f 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp
@@ -10,6 +10,8 @@
 #include <DRAMPower/command/Pattern.h>
 #include <DRAMPower/util/extensions.h>
 
+#include <utility>
+
 namespace DRAMPower {
 
     using namespace DRAMUtils::Config;
@@ -19,11 +21,38 @@ namespace DRAMPower {
         , m_interface(m_memSpec, simConfig)
         , m_core(m_memSpec)
     {
-        this->registerExtensions();
+        registerExtensions(false);
+    }
+
+    // The extensions of a copied or moved object refer to the other object: register them for this one
+    DDR4::DDR4(const DDR4& other)
+        : dram_base(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions(getDBIState());
+    }
+
+    DDR4::DDR4(DDR4&& other) noexcept
+        : dram_base(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions(getDBIState());
     }
 
 // Extensions
-    void DDR4::registerExtensions() {
+    bool DDR4::getDBIState() {
+        bool enabled = false;
+        getExtensionManager().withExtension<extensions::DBI>([&enabled](const auto& dbi) {
+            enabled = dbi.isEnabled();
+        });
+        return enabled;
+    }
+
+    void DDR4::registerExtensions(bool dbiEnabled) {
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable) {
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             // x4,x8,x16 devices: only x8 and x16 support dbi
@@ -33,7 +62,7 @@ namespace DRAMPower {
             }
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, dbiEnabled);
     }
 
 // Getters for CLI
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h
index 3e9fa1a..fc478bf 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h
@@ -25,8 +25,8 @@ class DDR4 : public dram_base<CmdType> {
 // Public constructors and assignment operators
 public:
     DDR4() = delete; // No default constructor
-    DDR4(const DDR4& other) = default; // copy constructor
-    DDR4(DDR4&& other) noexcept = default; // move constructor
+    DDR4(const DDR4& other); // copy constructor
+    DDR4(DDR4&& other) noexcept; // move constructor
     DDR4& operator=(const DDR4&) = default; // copy assignment operator
     DDR4& operator=(DDR4&&) = default; // move assignment operator
     ~DDR4() override = default;
@@ -60,7 +60,8 @@ public:
 // Private member functions
 private:
 // Member functions
-    void registerExtensions();
+    bool getDBIState();
+    void registerExtensions(bool dbiEnabled);
 // Overrides
     void doCoreCommandImpl(const Command& command) override {
         m_core.doCommand(command);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp
index 9136011..1d0f4c5 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp
@@ -6,6 +6,8 @@
 #include <DRAMPower/standards/lpddr4/interface_calculation_LPDDR4.h>
 #include <DRAMPower/util/extensions.h>
 
+#include <utility>
+
 
 namespace DRAMPower {
 
@@ -16,17 +18,44 @@ namespace DRAMPower {
         , m_interface(m_memSpec, simConfig)
         , m_core(m_memSpec)
     {
-        registerExtensions();
+        registerExtensions(false);
+    }
+
+    // The extensions of a copied or moved object refer to the other object: register them for this one
+    LPDDR4::LPDDR4(const LPDDR4& other)
+        : dram_base(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions(getDBIState());
+    }
+
+    LPDDR4::LPDDR4(LPDDR4&& other)
+        : dram_base(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions(getDBIState());
     }
 
 // Extensions
-    void LPDDR4::registerExtensions() {
+    bool LPDDR4::getDBIState() {
+        bool enabled = false;
+        getExtensionManager().withExtension<extensions::DBI>([&enabled](const auto& dbi) {
+            enabled = dbi.isEnabled();
+        });
+        return enabled;
+    }
+
+    void LPDDR4::registerExtensions(bool dbiEnabled) {
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable){
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             // x8,x16 devices: support dbi
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, dbiEnabled);
     }
 
 // Getters for CLI
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h
index 1818446..682bc40 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h
@@ -23,9 +23,9 @@ class LPDDR4 : public dram_base<CmdType>{
 // public constructors and assignment operators
 public:
     LPDDR4() = delete; // No default constructor
-    LPDDR4(const LPDDR4&) = default; // copy constructor
+    LPDDR4(const LPDDR4& other); // copy constructor
     LPDDR4& operator=(const LPDDR4&) = default; // copy assignment operator
-    LPDDR4(LPDDR4&&) = default; // move constructor
+    LPDDR4(LPDDR4&& other); // move constructor
     LPDDR4& operator=(LPDDR4&&) = default; // move assignment operator
     ~LPDDR4() override = default;
     
@@ -59,7 +59,8 @@ public:
 // Private member functions
 private:
 // Member functions
-    void registerExtensions();
+    bool getDBIState();
+    void registerExtensions(bool dbiEnabled);
 // Overrides
     void doCoreCommandImpl(const Command& command) override {
         m_core.doCommand(command);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp
index 83ccdb1..31af6e9 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp
@@ -10,6 +10,8 @@
 
 #include <iostream>
 
+#include <utility>
+
 
 namespace DRAMPower {
 
@@ -18,16 +20,43 @@ namespace DRAMPower {
         , m_interface(m_memSpec, simConfig)
         , m_core(m_memSpec)
     {
-        registerExtensions();
+        registerExtensions(false);
+    }
+
+    // The extensions of a copied or moved object refer to the other object: register them for this one
+    LPDDR5::LPDDR5(const LPDDR5& other)
+        : dram_base(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions(getDBIState());
+    }
+
+    LPDDR5::LPDDR5(LPDDR5&& other)
+        : dram_base(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions(getDBIState());
     }
 
 // Extensions
-    void LPDDR5::registerExtensions() {
+    bool LPDDR5::getDBIState() {
+        bool enabled = false;
+        getExtensionManager().withExtension<extensions::DBI>([&enabled](const auto& dbi) {
+            enabled = dbi.isEnabled();
+        });
+        return enabled;
+    }
+
+    void LPDDR5::registerExtensions(bool dbiEnabled) {
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable){
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, dbiEnabled);
     }
 
 // Getters for CLI
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h
index c719c9b..f31eb15 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h
@@ -23,9 +23,9 @@ class LPDDR5 : public dram_base<CmdType> {
 // Public constructors and assignment operators
 public:
     LPDDR5() = delete; // No default constructor
-    LPDDR5(const LPDDR5&) = default; // copy constructor
+    LPDDR5(const LPDDR5& other); // copy constructor
     LPDDR5& operator=(const LPDDR5&) = default; // copy assignment operator
-    LPDDR5(LPDDR5&&) = default; // move constructor
+    LPDDR5(LPDDR5&& other); // move constructor
     LPDDR5& operator=(LPDDR5&&) = default; // move assignment operator
     ~LPDDR5() override = default;
     LPDDR5(const MemSpecLPDDR5& memSpec, const config::SimConfig& simConfig = {});
@@ -57,7 +57,8 @@ public:
 // Private member functions
 private:
 // Member functions
-    void registerExtensions();
+    bool getDBIState();
+    void registerExtensions(bool dbiEnabled);
 // Overrides
     void doCoreCommandImpl(const Command& command) override {
         m_core.doCommand(command);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp
index 2f0da34..21295a3 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp
@@ -8,6 +8,8 @@
 #include <iostream>
 #include <tuple>
 
+#include <utility>
+
 
 namespace DRAMPower {
 
@@ -18,16 +20,43 @@ namespace DRAMPower {
         , m_interface(m_memSpec, simConfig)
         , m_core(m_memSpec)
     {
-        registerExtensions();
+        registerExtensions(false);
+    }
+
+    // The extensions of a copied or moved object refer to the other object: register them for this one
+    LPDDR6::LPDDR6(const LPDDR6& other)
+        : dram_base(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions(getDBIState());
+    }
+
+    LPDDR6::LPDDR6(LPDDR6&& other)
+        : dram_base(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions(getDBIState());
     }
 
 // Extensions
-    void LPDDR6::registerExtensions() {
+    bool LPDDR6::getDBIState() {
+        bool enabled = false;
+        getExtensionManager().withExtension<extensions::DBI>([&enabled](const auto& dbi) {
+            enabled = dbi.isEnabled();
+        });
+        return enabled;
+    }
+
+    void LPDDR6::registerExtensions(bool dbiEnabled) {
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable) -> bool {
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, dbiEnabled);
         getExtensionManager().registerExtension<extensions::MetaData>([this](uint16_t metaData1, uint16_t metaData2) -> void {
             m_interface.setMetaData(metaData1, metaData2);
         },
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h
index 966dace..679af9b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h
@@ -21,9 +21,9 @@ class LPDDR6 : public dram_base<CmdType> {
 // Public constructors and assignment operators
 public:
     LPDDR6() = delete; // No default constructor
-    LPDDR6(const LPDDR6&) = default; // copy constructor
+    LPDDR6(const LPDDR6& other); // copy constructor
     LPDDR6& operator=(const LPDDR6&) = default; // copy assignment operator
-    LPDDR6(LPDDR6&&) = default; // move constructor
+    LPDDR6(LPDDR6&& other); // move constructor
     LPDDR6& operator=(LPDDR6&&) = default; // move assignment operator
     ~LPDDR6() override = default;
     LPDDR6(const MemSpecLPDDR6& memSpec, const config::SimConfig &simConfig = {});
@@ -55,7 +55,8 @@ public:
 // Private member functions
 private:
 // Member functions
-    void registerExtensions();
+    bool getDBIState();
+    void registerExtensions(bool dbiEnabled);
 // Overrides
     void doCoreCommandImpl(const Command& command) override {
         m_core.doCommand(command);
-- 
2.43.0

