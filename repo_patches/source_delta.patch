From 6c5fc2f7eebf6619d6fdbb186fac4c17c456508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:21 +0000
Subject: [PATCH 01/39] fix: hold a lock while the fixed base table cache is
 read or extended

AsyncSemaphore::wait() releases the lock before it returns, and with a
count above one it excludes nobody, so two threads could look up and insert
tables in the map at the same time.
---
 src/electionguard/lookup_table.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/lookup_table.hpp b/src/electionguard/lookup_table.hpp
index 00237a0..0995b2f 100644
--- a/src/electionguard/lookup_table.hpp
+++ b/src/electionguard/lookup_table.hpp
@@ -12,7 +12,9 @@
 #include <electionguard/export.h>
 #include <iomanip>
 #include <iostream>
+#include <map>
 #include <memory>
+#include <mutex>
 
 using hacl::Bignum256;
 using hacl::Bignum4096;
@@ -166,14 +168,14 @@ namespace electionguard
         {
             LookupTableType *public_key_table = NULL;
             {
-                getInstance().task_lock.wait();
+                std::lock_guard<std::mutex> lock(getInstance().map_lock);
                 public_key_table = getInstance().getBaseLookupTable(key, base);
             }
             return public_key_table->pow_mod_p(exponent);
         }
 
       private:
-        AsyncSemaphore task_lock;
+        std::mutex map_lock;
         std::map<string, std::unique_ptr<LookupTableType>> key_map;
 
         LookupTableType *getBaseLookupTable(const string key, uint64_t (&base)[MAX_P_LEN])
@@ -183,7 +185,7 @@ namespace electionguard
                 return key_map[key].get();
             }
 
-            key_map.emplace(std::pair(key, new LookupTableType(static_cast<uint64_t *>(base))));
+            key_map.emplace(key, std::make_unique<LookupTableType>(static_cast<uint64_t *>(base)));
             return key_map[key].get();
         }
     };
-- 
2.43.0


From f2aad669ec770298e1c71b46952d89145d5d6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:54 +0000
Subject: [PATCH 02/39] fix: never fill the precompute buffers beyond their
 maximum, and read their state under the lock

populate() generated one set before it looked at the size, so that calling
it with full buffers, or from two threads, exceeded the maximum. The size and
maximum were read and the stop flag was written without synchronisation.
---
 include/electionguard/precompute_buffers.hpp |  3 ++-
 src/electionguard/precompute_buffers.cpp     | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/electionguard/precompute_buffers.hpp b/include/electionguard/precompute_buffers.hpp
index 10b6c4c..1497f5d 100644
--- a/include/electionguard/precompute_buffers.hpp
+++ b/include/electionguard/precompute_buffers.hpp
@@ -4,6 +4,7 @@
 #include "electionguard/group.hpp"
 
 #include <array>
+#include <atomic>
 #include <cstdint>
 #include <electionguard/constants.h>
 #include <electionguard/export.h>
@@ -239,7 +240,7 @@ namespace electionguard
       private:
         uint32_t max = DEFAULT_PRECOMPUTE_SIZE;
         static std::mutex queue_lock;
-        bool populate_OK = false;
+        std::atomic<bool> populate_OK = false;
         std::queue<std::unique_ptr<Triple>> triple_queue;
         std::queue<std::unique_ptr<TwoTriplesAndAQuadruple>> twoTriplesAndAQuadruple_queue;
     };
diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index c342092..1cb308b 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -207,12 +207,13 @@ namespace electionguard
         // queue size in we could use that.
         // for now we just go through the loop once
         int iteration_count = 0;
-        do {
+        while (true) {
             // TODO - Can we tolerate not returning until we have finished
             // generating two triples and a quadruple?
             // If not we can get more elaborate with the populate_OK checking
             std::lock_guard<std::mutex> lock(queue_lock);
-            if (getInstance().populate_OK) {
+            if (getInstance().populate_OK &&
+                getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max) {
                 // generate two triples and a quadruple
                 //
                 // these constuctors will generate the precomputed values
@@ -244,15 +245,20 @@ namespace electionguard
             } else {
                 return;
             }
-        } while (getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max);
+        }
     }
 
     void PrecomputeBufferContext::stop_populate() { getInstance().populate_OK = false; }
 
-    uint32_t PrecomputeBufferContext::get_max_queue_size() { return getInstance().max; }
+    uint32_t PrecomputeBufferContext::get_max_queue_size()
+    {
+        std::lock_guard<std::mutex> lock(queue_lock);
+        return getInstance().max;
+    }
 
     uint32_t PrecomputeBufferContext::get_current_queue_size()
     {
+        std::lock_guard<std::mutex> lock(queue_lock);
         return getInstance().twoTriplesAndAQuadruple_queue.size();
     }
 
-- 
2.43.0


From 15fb8c730aa2602fdb671146c2e248531f556c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:54 +0000
Subject: [PATCH 03/39] fix: bound the queue of single triples to twice the
 buffer size

Every populate() call added at least two triples, so refilling after each
ballot made the queue grow without end.
---
 src/electionguard/precompute_buffers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index 1cb308b..c999035 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -235,7 +235,8 @@ namespace electionguard
                 // encryption whereas the two triples and a quadruple is used every selection
                 // encryption. The generating two triples every third iteration is a guess
                 // on how many precomputes we will need.
-                if ((iteration_count % 3) == 0) {
+                if ((iteration_count % 3) == 0 &&
+                    getInstance().triple_queue.size() < 2 * (size_t)getInstance().max) {
                     unique_ptr<Triple> contest_triple1 = make_unique<Triple>(elgamalPublicKey);
                     getInstance().triple_queue.push(move(contest_triple1));
                     unique_ptr<Triple> contest_triple2 = make_unique<Triple>(elgamalPublicKey);
-- 
2.43.0


From 898eed924df7d1e14bff2e29e1d9ac67251f273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:10 +0000
Subject: [PATCH 04/39] fix: clone the data commitment of the one proof, not
 the pad twice

---
 src/electionguard/chaum_pedersen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 6d665a3..61e4997 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -295,7 +295,7 @@ namespace electionguard
     {
         return make_unique<DisjunctiveChaumPedersenProof>(
           pimpl->proof_zero_pad->clone(), pimpl->proof_zero_data->clone(),
-          pimpl->proof_one_pad->clone(), pimpl->proof_one_pad->clone(),
+          pimpl->proof_one_pad->clone(), pimpl->proof_one_data->clone(),
           pimpl->proof_zero_challenge->clone(), pimpl->proof_one_challenge->clone(),
           pimpl->challenge->clone(), pimpl->proof_zero_response->clone(),
           pimpl->proof_one_response->clone());
-- 
2.43.0


From 364bfd3d7e0c7865108cda0160ab160fe3128802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:10 +0000
Subject: [PATCH 05/39] fix: join the workers already started when creating a
 thread pool fails

Destroying the joinable threads called std::terminate instead of reporting
the error to the caller.
---
 src/electionguard/async.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/async.hpp b/src/electionguard/async.hpp
index bfd91e2..c639683 100644
--- a/src/electionguard/async.hpp
+++ b/src/electionguard/async.hpp
@@ -249,6 +249,9 @@ namespace electionguard
                 }
             } catch (...) {
                 _running = false;
+                for (auto &thread : _threads) {
+                    thread.join();
+                }
                 throw;
             }
         }
-- 
2.43.0


From b37cb9c2db1deab2f3ea680eeb2aabc42d3b2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:10 +0000
Subject: [PATCH 06/39] fix: encrypt the ballots of a mediator one at a time

Two threads could seed their ballots with the same ballot code, which forks
the chain, or replace the seed while the other one was reading it.
---
 src/electionguard/encrypt.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index e6aa92a..5bbd723 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -14,6 +14,7 @@
 #include <algorithm>
 #include <future>
 #include <iostream>
+#include <mutex>
 #include <nlohmann/json.hpp>
 
 extern "C" {
@@ -104,6 +105,7 @@ namespace electionguard
         const CiphertextElectionContext &context;
         const EncryptionDevice &encryptionDevice;
         unique_ptr<ElementModQ> ballotCodeSeed;
+        std::mutex chainLock;
 
         Impl(const InternalManifest &internalManifest, const CiphertextElectionContext &context,
              const EncryptionDevice &encryptionDevice)
@@ -140,6 +142,9 @@ namespace electionguard
     {
         Log::trace("encrypt: objectId: " + ballot.getObjectId());
 
+        // a ballot is seeded with the code of the one before it
+        std::lock_guard<std::mutex> lock(pimpl->chainLock);
+
         // this implementation chains each ballot encrypted by the mediator
         // to every subsequent ballot creating a linked list data structure
         // that can be used to prove there are no gaps in the election record
@@ -165,6 +170,9 @@ namespace electionguard
     {
         Log::trace("encrypt: objectId:" + ballot.getObjectId());
 
+        // a ballot is seeded with the code of the one before it
+        std::lock_guard<std::mutex> lock(pimpl->chainLock);
+
         // this implementation chains each ballot encrypted by the mediator
         // to every subsequent ballot creating a linked list data structure
         // that can be used to prove there are no gaps in the election record
-- 
2.43.0


From 70667bdb4ebff33113b6879c28248fd77d2271c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:10 +0000
Subject: [PATCH 07/39] fix: create the logger once when several threads log
 first

---
 src/electionguard/log.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/electionguard/log.cpp b/src/electionguard/log.cpp
index c2ad724..c44ed4b 100644
--- a/src/electionguard/log.cpp
+++ b/src/electionguard/log.cpp
@@ -80,7 +80,7 @@ namespace electionguard
     class Log::Impl
     {
       private:
-        Impl() {}
+        Impl() : logger(createLogger()) {}
 
       public:
         shared_ptr<spdlog::logger> logger;
@@ -88,9 +88,11 @@ namespace electionguard
         static Impl &instance()
         {
             static Impl _instance;
-            if (_instance.logger != nullptr)
-                return _instance;
+            return _instance;
+        }
 
+        static shared_ptr<spdlog::logger> createLogger()
+        {
             auto console = spdlog::stdout_logger_mt("console");
 #if LOG_DEBUG
             console->set_level(spdlog::level::debug);
@@ -101,8 +103,7 @@ namespace electionguard
 #endif
             spdlog::set_default_logger(console);
             spdlog::set_pattern("[%H:%M:%S:%e %z] [p: %P] [t: %t] [%l] :: %v");
-            _instance.logger = console;
-            return _instance;
+            return console;
         }
     };
 
-- 
2.43.0


From 4c49b1ff2da445c99243dba412de03b897a33801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:32 +0000
Subject: [PATCH 08/39] fix: create the cached hex representation of an element
 under a lock

The first toHex() calls of two threads on a shared element, for example the
public key of the election, wrote the same string at the same time.
---
 src/electionguard/group.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4794df2..02afc4b 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -15,6 +15,7 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -111,6 +112,7 @@ namespace electionguard
         bool isFixedBase = false;
         uint64_t data[MAX_P_LEN] = {};
         string hexRepresentation;
+        std::mutex hexLock;
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
@@ -155,9 +157,8 @@ namespace electionguard
 
         bool operator<(const Impl &other)
         {
-            auto other_ = other;
             return Bignum4096::lessThan(static_cast<uint64_t *>(data),
-                                        static_cast<uint64_t *>(other_.data)) > 0;
+                                        const_cast<uint64_t *>(other.data)) > 0;
         }
     };
 
@@ -225,6 +226,8 @@ namespace electionguard
 
     string ElementModP::toHex() const
     {
+        // elements are shared between threads and the representation is created on first use
+        std::lock_guard<std::mutex> lock(pimpl->hexLock);
         if (!pimpl->hexRepresentation.empty()) {
             return pimpl->hexRepresentation;
         }
-- 
2.43.0


From 70b78c7e516d0c80fb48238aace0c0576a9eadaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:32 +0000
Subject: [PATCH 09/39] fix: draw as many random bytes as a random element mod
 p is made from

Only 256 bytes were drawn and 512 read, so half of the element was whatever
lay behind the buffer on the heap.
---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 02afc4b..1f74bae 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -797,7 +797,7 @@ namespace electionguard
 
     unique_ptr<ElementModP> rand_p()
     {
-        auto bytes = Random::getBytes();
+        auto bytes = Random::getBytes(SHA512);
 
         auto *bigNum = Bignum4096::fromBytes(MAX_P_SIZE, const_cast<uint8_t *>(bytes.data()));
         if (bigNum == nullptr) {
-- 
2.43.0


From 385ef988d5ec933625563822d0e071a22308f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:32 +0000
Subject: [PATCH 10/39] fix: raise to all bits of an exponent mod p

The size of an element in bytes was given where the number of bits is
expected, so that bits 512 and up of the exponent were ignored.
---
 src/electionguard/group.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 1f74bae..56c5e28 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -11,6 +11,7 @@
 #include "random.hpp"
 #include "utils.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <iomanip>
@@ -604,8 +605,16 @@ namespace electionguard
             return ElementModP::fromUint64(1UL);
         }
 
+        // HACL takes the number of bits of the exponent. Most exponents fit into
+        // 512 bits, so use the full width only for those that do not.
+        const uint32_t shortBits = 512;
+        const auto *limbs = exponent.get();
+        auto isLong = std::any_of(limbs + shortBits / 64, limbs + MAX_P_LEN,
+                                  [](uint64_t limb) { return limb != 0; });
+
         uint64_t result[MAX_P_LEN] = {};
-        CONTEXT_P().modExp(base.get(), MAX_P_SIZE, exponent.get(), static_cast<uint64_t *>(result));
+        CONTEXT_P().modExp(base.get(), isLong ? MAX_P_SIZE * 8 : shortBits, exponent.get(),
+                           static_cast<uint64_t *>(result));
         return make_unique<ElementModP>(result, true);
     }
 
-- 
2.43.0


From abf440db22a7632c352d398a4378f44fe1444411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:36 +0000
Subject: [PATCH 11/39] fix: reload the write-ins of a compact ballot without
 adding quotes

dump() gives the JSON text of a string, with quotes and escapes, so every
reload changed the write-ins of the ballot.
---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3f96141..ec93abf 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1018,7 +1018,7 @@ namespace electionguard
 
                 vector<string> writeins;
                 for (auto &writein_json : in_writeins) {
-                    writeins.push_back(writein_json.dump());
+                    writeins.push_back(writein_json.get<string>());
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-- 
2.43.0


From 0e74561d2c857841a1ad1117aa90c45bd2b2f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:36 +0000
Subject: [PATCH 12/39] fix: read back the hex representation of zero

toHex() writes zero as 00, which fromHex() refused because nothing is left
when the leading zeros are removed.
---
 src/electionguard/convert.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index e4a0744..f6dc41f 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -170,7 +170,11 @@ namespace electionguard
     inline string sanitize_hex_string(const string &hexString)
     {
         string sanitized;
-        string leftTrimmed = hexString.substr(hexString.find_first_not_of(LEADING_CHARS));
+        auto first = hexString.find_first_not_of(LEADING_CHARS);
+        if (first == string::npos && hexString.find('0') != string::npos) {
+            return "00";
+        }
+        string leftTrimmed = hexString.substr(first);
         bool isOdd = (leftTrimmed.size() % 2) != 0U;
         if (isOdd) {
             Log::trace("sanitize_hex_string: is odd");
-- 
2.43.0


From 13a0491598cdc93bf468ae857af7aa56c5521d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:36 +0000
Subject: [PATCH 13/39] fix: keep the leading zero bytes of stored extended
 data

One in about 128 ballots has a zero byte in front of the data or the mac of
the hashed ElGamal ciphertext. It was dropped when storing, after which the
extended data could not be decrypted any more.
---
 src/electionguard/convert.hpp   | 11 +++++++++++
 src/electionguard/serialize.hpp | 11 ++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index f6dc41f..764c287 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -203,6 +203,17 @@ namespace electionguard
         return detectedFirstNonZeroBytes ? (stream.str()) : "00";
     }
 
+    /// Converts all bytes, including leading zeros, for data whose length has a meaning
+    inline string bytes_to_full_hex(const vector<uint8_t> &bytes)
+    {
+        stringstream stream;
+        stream << hex << uppercase;
+        for (auto byte : bytes) {
+            stream << setw(2) << setfill('0') << static_cast<uint16_t>(byte);
+        }
+        return stream.str();
+    }
+
     template <typename T, size_t S> string bytes_to_hex(T (&data)[S])
     {
         vector<T> vec(begin(data), end(data));
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index ec93abf..e460f96 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1110,8 +1110,8 @@ namespace electionguard
                     auto e = contest.get().getHashedElGamalCiphertext();
                     json extended_data = {
                       {"pad", e->getPad()->toHex()},
-                      {"data", bytes_to_hex(e->getData())},
-                      {"mac", bytes_to_hex(e->getMac())},
+                      {"data", bytes_to_full_hex(e->getData())},
+                      {"mac", bytes_to_full_hex(e->getMac())},
                     };
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
@@ -1180,14 +1180,11 @@ namespace electionguard
                     auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
                     auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
 
-                    auto hashed_el_gamal_data_sanitized = sanitize_hex_string(hashed_el_gamal_data);
-                    auto hashed_el_gamal_mac_sanitized = sanitize_hex_string(hashed_el_gamal_mac);
-
                     auto deserializedHashedElGamal =
                       make_unique<electionguard::HashedElGamalCiphertext>(
                         ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data_sanitized),
-                        hex_to_bytes(hashed_el_gamal_mac_sanitized));
+                        hex_to_bytes(hashed_el_gamal_data),
+                        hex_to_bytes(hashed_el_gamal_mac));
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From c31fe3bcfe23a0cecbc0ed72a60e6c5212c395b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:02 +0000
Subject: [PATCH 14/39] fix: report a missing field of a stored manifest as an
 error instead of undefined behaviour

---
 src/electionguard/serialize.hpp | 46 ++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index e460f96..a1d5fa4 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -40,8 +40,8 @@ namespace electionguard
 
     static unique_ptr<AnnotatedString> annotatedStringFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto annotation = j["annotation"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto annotation = j.at("annotation").get<string>();
         return make_unique<AnnotatedString>(annotation, value);
     }
 
@@ -52,8 +52,8 @@ namespace electionguard
 
     static unique_ptr<Language> languageFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto language = j["language"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto language = j.at("language").get<string>();
         return make_unique<Language>(value, language);
     }
 
@@ -160,12 +160,12 @@ namespace electionguard
     {
         if (j.contains("contact_information") && !j["contact_information"].is_null()) {
             return make_unique<GeopoliticalUnit>(
-              j["object_id"].get<string>(), j["name"].get<string>(),
-              getReportingUnitType(j["type"].get<string>()),
-              contactInformationFromJson(j["contact_information"]));
+              j.at("object_id").get<string>(), j.at("name").get<string>(),
+              getReportingUnitType(j.at("type").get<string>()),
+              contactInformationFromJson(j.at("contact_information")));
         }
-        return make_unique<GeopoliticalUnit>(j["object_id"].get<string>(), j["name"].get<string>(),
-                                             getReportingUnitType(j["type"].get<string>()));
+        return make_unique<GeopoliticalUnit>(j.at("object_id").get<string>(), j.at("name").get<string>(),
+                                             getReportingUnitType(j.at("type").get<string>()));
     }
 
     static json
@@ -230,7 +230,7 @@ namespace electionguard
                       ? internationalizedTextFromJson(j["name"])
                       : internationalizedTextFromJson(json("{}"));
 
-        return make_unique<Party>(j["object_id"].get<string>(), move(name), abbreviation, color,
+        return make_unique<Party>(j.at("object_id").get<string>(), move(name), abbreviation, color,
                                   logo_uri);
     }
 
@@ -279,7 +279,7 @@ namespace electionguard
 
     static unique_ptr<Candidate> candidateFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
+        auto objectId = j.at("object_id").get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
                       : internationalizedTextFromJson("{}");
@@ -343,7 +343,7 @@ namespace electionguard
     static unique_ptr<BallotStyle> ballotStyleFromJson(const json &j)
     {
         vector<string> gpUnitIds;
-        for (const auto &element : j["geopolitical_unit_ids"]) {
+        for (const auto &element : j.at("geopolitical_unit_ids")) {
             gpUnitIds.push_back(element);
         }
 
@@ -356,7 +356,7 @@ namespace electionguard
 
         auto imageUri =
           j.contains("image_uri") && !j["image_uri"].is_null() ? j["image_uri"].get<string>() : "";
-        return make_unique<BallotStyle>(j["object_id"].get<string>(), gpUnitIds, partyIds,
+        return make_unique<BallotStyle>(j.at("object_id").get<string>(), gpUnitIds, partyIds,
                                         imageUri);
     }
 
@@ -389,9 +389,9 @@ namespace electionguard
 
     static unique_ptr<SelectionDescription> selectionDescriptionFromJson(const json &j)
     {
-        return make_unique<SelectionDescription>(j["object_id"].get<string>(),
-                                                 j["candidate_id"].get<string>(),
-                                                 j["sequence_order"].get<uint64_t>());
+        return make_unique<SelectionDescription>(j.at("object_id").get<string>(),
+                                                 j.at("candidate_id").get<string>(),
+                                                 j.at("sequence_order").get<uint64_t>());
     }
 
     static json
@@ -445,18 +445,18 @@ namespace electionguard
 
     static unique_ptr<ContestDescription> contestDescriptionFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
-        auto electoralDistrictId = j["electoral_district_id"].get<string>();
-        auto sequenceOrder = j["sequence_order"].get<uint64_t>();
-        auto variation = getVoteVariationType(j["vote_variation"].get<string>());
-        auto elected = j["number_elected"].get<uint64_t>();
+        auto objectId = j.at("object_id").get<string>();
+        auto electoralDistrictId = j.at("electoral_district_id").get<string>();
+        auto sequenceOrder = j.at("sequence_order").get<uint64_t>();
+        auto variation = getVoteVariationType(j.at("vote_variation").get<string>());
+        auto elected = j.at("number_elected").get<uint64_t>();
         auto allowed =
           j.contains("votes_allowed") && !j["votes_allowed"].is_null()
             ? j["votes_allowed"].get<uint64_t>()
           : variation == VoteVariationType::n_of_m || variation == VoteVariationType::one_of_m
             ? elected
             : 0;
-        auto name = j["name"].get<string>();
+        auto name = j.at("name").get<string>();
         auto title = j.contains("ballot_title") && !j["ballot_title"].is_null()
                        ? internationalizedTextFromJson(j["ballot_title"])
                        : nullptr;
@@ -464,7 +464,7 @@ namespace electionguard
                           ? internationalizedTextFromJson(j["ballot_subtitle"])
                           : nullptr;
 
-        auto selections = selectionDescriptionsFromJson(j["ballot_selections"]);
+        auto selections = selectionDescriptionsFromJson(j.at("ballot_selections"));
 
         return make_unique<ContestDescription>(
           objectId, electoralDistrictId, sequenceOrder, variation, elected, allowed, name,
-- 
2.43.0


From 3c4b18bb825f127984cb7207fbc823a2785850af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:46 +0000
Subject: [PATCH 15/39] fix: never encrypt or expand a compact ballot with
 precomputed values, which its nonce does not reproduce

---
 include/electionguard/encrypt.hpp    | 18 ++++++++++++++----
 src/electionguard/ballot_compact.cpp |  3 ++-
 src/electionguard/encrypt.cpp        | 28 ++++++++++++++++++----------
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/include/electionguard/encrypt.hpp b/include/electionguard/encrypt.hpp
index ee072f4..c7080eb 100644
--- a/include/electionguard/encrypt.hpp
+++ b/include/electionguard/encrypt.hpp
@@ -123,13 +123,16 @@ namespace electionguard
     ///                          Contest nonce, but no relationship is required</param>
     /// <param name="isPlaceholder">specifies if this is a placeholder selection</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if values from the precompute buffers may be used (default True).
+    ///                                    when they are, the nonces are not derived from the provided one</param>
     /// <returns>A `CiphertextBallotSelection`</returns>
     /// </summary>
     EG_API std::unique_ptr<CiphertextBallotSelection>
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder = false, bool shouldVerifyProofs = true);
+                     bool isPlaceholder = false, bool shouldVerifyProofs = true,
+                     bool usePrecomputedValues = true);
 
     /// <summary>
     /// Gets overvote and write in information from the selections in a contest
@@ -163,13 +166,16 @@ namespace electionguard
     ///                          for this contest. this value can be (or derived from) the
     ///                          Ballot nonce, but no relationship is required</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if values from the precompute buffers may be used (default True).
+    ///                                    when they are, the nonces are not derived from the provided one</param>
     /// <returns>A `CiphertextBallotContest`</returns>
     /// </summary>
     EG_API std::unique_ptr<CiphertextBallotContest>
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true);
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true,
+                   bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt the contests of a specific `Ballot` in the context of a specific `CiphertextElectionContext`
@@ -187,12 +193,14 @@ namespace electionguard
     /// <param name="context">all the cryptographic context for the election</param>
     /// <param name="nonceSeed">the random value used to seed the `Nonce` for all contests on the ballot</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if values from the precompute buffers may be used (default True).
+    ///                                    when they are, the nonces are not derived from the provided one</param>
     /// <returns>A collection of `CiphertextBallotContest`</returns>
     /// </summary>
     EG_API std::vector<std::unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs = true);
+                    bool shouldVerifyProofs = true, bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt a specific `Ballot` in the context of a specific `CiphertextElectionContext`
@@ -212,13 +220,15 @@ namespace electionguard
     /// <param name="nonce">an optional value used to seed the `Nonce` generated for this ballot
     ///                     if this value is not provided, the secret generating mechanism of the OS provides its own</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if values from the precompute buffers may be used (default True).
+    ///                                    when they are, the nonces are not derived from the provided one</param>
     /// <returns>A `CiphertextBallot`</returns>
     /// </summary>
     EG_API std::unique_ptr<CiphertextBallot>
     encryptBallot(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                   const CiphertextElectionContext &context, const ElementModQ &ballotCodeSeed,
                   std::unique_ptr<ElementModQ> nonce = nullptr, uint64_t timestamp = 0,
-                  bool shouldVerifyProofs = true);
+                  bool shouldVerifyProofs = true, bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt a specific `Ballot` in the context of a specific `CiphertextElectionContext`
diff --git a/src/electionguard/ballot_compact.cpp b/src/electionguard/ballot_compact.cpp
index 44c6a5c..ec81d58 100644
--- a/src/electionguard/ballot_compact.cpp
+++ b/src/electionguard/ballot_compact.cpp
@@ -327,7 +327,8 @@ namespace electionguard
         auto plaintext = expandCompactPlaintextBallot(*compactCiphertext.getPlaintext(), manifest);
         auto ciphertext =
           encryptBallot(*plaintext, manifest, context, *compactCiphertext.getBallotCodeSeed(),
-                        compactCiphertext.getNonce()->clone(), compactCiphertext.getTimestamp());
+                        compactCiphertext.getNonce()->clone(), compactCiphertext.getTimestamp(), true,
+                        false);
 
         if (*ciphertext->getBallotCode() != *compactCiphertext.getBallotCode()) {
             throw runtime_error("The regenerated ballot code does not match");
diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index 5bbd723..71099f5 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -269,7 +269,8 @@ namespace electionguard
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */)
+                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */,
+                     bool usePrecomputedValues /* = true */)
     {
         unique_ptr<CiphertextBallotSelection> encrypted = NULL;
         unique_ptr<ElGamalCiphertext> ciphertext;
@@ -292,7 +293,9 @@ namespace electionguard
 
         // this method runs off to look in the precomputed values buffer and if
         // it finds what it needs then the returned class will contain those values
-        precomputedTwoTriplesAndAQuad = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
+        if (usePrecomputedValues) {
+            precomputedTwoTriplesAndAQuad = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
+        }
 
         // check if we found the precomputed values needed
         if (precomputedTwoTriplesAndAQuad != nullptr) {
@@ -416,7 +419,8 @@ namespace electionguard
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */)
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */,
+                   bool usePrecomputedValues /* = true */)
 
     {
         // Validate Input
@@ -482,7 +486,8 @@ namespace electionguard
 
                 encryptedSelections.push_back(encryptSelection(
                   *selection_ptr, selectionDescription.get(), *elgamalPublicKey_ptr,
-                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs));
+                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs,
+                  usePrecomputedValues));
             } else {
                 // Should never happen since the contest is normalized by emplaceMissingValues
                 throw runtime_error("encryptedContest:: Error constructing encrypted selection");
@@ -510,7 +515,8 @@ namespace electionguard
             auto placeholderSelection = selectionFrom(placeholder, true, selectPlaceholder);
             encryptedSelections.push_back(encryptSelection(
               *placeholderSelection, placeholder, *elgamalPublicKey_ptr,
-              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs));
+              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs,
+              usePrecomputedValues));
         }
 
         // Derive the extendedDataNonce from the selection nonce and a constant
@@ -560,7 +566,7 @@ namespace electionguard
     vector<unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs /* = true */)
+                    bool shouldVerifyProofs /* = true */, bool usePrecomputedValues /* = true */)
     {
         auto *style = internalManifest.getBallotStyle(ballot.getStyleId());
         vector<unique_ptr<CiphertextBallotContest>> encryptedContests;
@@ -575,7 +581,7 @@ namespace electionguard
                     auto encrypted = encryptContest(
                       contest.get(), internalManifest, description.get(),
                       *context.getElGamalPublicKey(), *context.getCryptoExtendedBaseHash(),
-                      nonceSeed, shouldVerifyProofs);
+                      nonceSeed, shouldVerifyProofs, usePrecomputedValues);
 
                     encryptedContests.push_back(move(encrypted));
                     break;
@@ -594,7 +600,7 @@ namespace electionguard
     encryptBallot(const PlaintextBallot &ballot, const InternalManifest &manifest,
                   const CiphertextElectionContext &context, const ElementModQ &encryptionSeed,
                   unique_ptr<ElementModQ> nonce /* = nullptr */, uint64_t timestamp /* = 0 */,
-                  bool shouldVerifyProofs /* = true */)
+                  bool shouldVerifyProofs /* = true */, bool usePrecomputedValues /* = true */)
     {
         Log::trace("encryptBallot:: encrypting");
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
@@ -620,7 +626,8 @@ namespace electionguard
 
         // encrypt contests
         auto encryptedContests =
-          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs);
+          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs,
+                          usePrecomputedValues);
 
         // Get the system time
         if (timestamp == 0) {
@@ -661,8 +668,9 @@ namespace electionguard
                          uint64_t timestamp /* = 0 */, bool shouldVerifyProofs /* = true*/)
     {
         auto normalized = emplaceMissingValues(ballot, manifest);
+        // a compact ballot is expanded from its nonce, so that precomputed values can not be used
         auto ciphertext = encryptBallot(*normalized, manifest, context, ballotCodeSeed,
-                                        move(nonceSeed), timestamp, shouldVerifyProofs);
+                                        move(nonceSeed), timestamp, shouldVerifyProofs, false);
         return CompactCiphertextBallot::make(*normalized, *ciphertext);
     }
 
-- 
2.43.0


From 9d47d8df7a0fac6599d219f1e45387e36260019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:53 +0000
Subject: [PATCH 16/39] fix: refuse a compact ballot of an unknown style
 instead of dereferencing null

---
 src/electionguard/encrypt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index 71099f5..49a8203 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -241,6 +241,9 @@ namespace electionguard
                                                      const InternalManifest &manifest)
     {
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
 
         vector<unique_ptr<PlaintextBallotContest>> contests;
         // loop through the contests for the ballot style
-- 
2.43.0


From 43c6d1b59cf0f7da7830d59815877a433027f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:41 +0000
Subject: [PATCH 17/39] fix: copy and hash a contest description that has only
 some of its optional parts

---
 src/electionguard/hash.cpp     |  4 ++--
 src/electionguard/manifest.cpp | 36 ++++++++++++----------------------
 2 files changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/electionguard/hash.cpp b/src/electionguard/hash.cpp
index 8ef4930..2dda3ef 100644
--- a/src/electionguard/hash.cpp
+++ b/src/electionguard/hash.cpp
@@ -132,8 +132,8 @@ namespace electionguard
             }
             case CRYPTOHASHABLE_PTR: // CryptoHashable *
             {
-                auto hashable = get<CryptoHashable *>(a)->crypto_hash();
-                return hashable->toHex();
+                auto *hashable = get<CryptoHashable *>(a);
+                return hashable != nullptr ? hashable->crypto_hash()->toHex() : null_string;
             }
             case ELEMENTMODP_PTR: // ElementModP *
             {
diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index e26e8fc..acc9307 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1093,17 +1093,16 @@ namespace electionguard
                 _selections.push_back(make_unique<SelectionDescription>(*element));
             }
 
-            // TODO: handle optional values
-            if (ballotTitle != nullptr) {
-                auto _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
-                auto _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
-                return make_unique<ContestDescription::Impl>(
-                  object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
-                  votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections));
-            }
-            return make_unique<ContestDescription::Impl>(object_id, electoralDistrictId,
-                                                         sequenceOrder, voteVariation,
-                                                         numberElected, name, move(_selections));
+            auto _ballotTitle = ballotTitle != nullptr
+                                  ? make_unique<InternationalizedText>(*ballotTitle)
+                                  : nullptr;
+            auto _ballotSubtitle = ballotSubtitle != nullptr
+                                     ? make_unique<InternationalizedText>(*ballotSubtitle)
+                                     : nullptr;
+            return make_unique<ContestDescription::Impl>(
+              object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
+              votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections),
+              primaryPartyIds);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
@@ -1114,19 +1113,10 @@ namespace electionguard
                 selectionRefs.push_back(ref<CryptoHashable>(*selection));
             }
 
-            // TODO: handle optional values
-            if (ballotTitle != nullptr) {
-                auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                        getVoteVariationTypeString(voteVariation),
-                                        ref<CryptoHashable>(*ballotTitle),
-                                        ref<CryptoHashable>(*ballotSubtitle), name, numberElected,
-                                        votesAllowed, selectionRefs});
-                Log::trace("ContestDescription", hash.get());
-                return hash;
-            }
             auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                    getVoteVariationTypeString(voteVariation), nullptr, nullptr,
-                                    name, numberElected, votesAllowed, selectionRefs});
+                                    getVoteVariationTypeString(voteVariation), ballotTitle.get(),
+                                    ballotSubtitle.get(), name, numberElected, votesAllowed,
+                                    selectionRefs});
             Log::trace("ContestDescription", hash.get());
             return hash;
         }
-- 
2.43.0


From a4dbfa8a60f6527bcd496ad163d098b8cf5022b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:41 +0000
Subject: [PATCH 18/39] fix: hash and reload a manifest that has only one of
 its name and contact information

---
 src/electionguard/manifest.cpp  | 14 ++------------
 src/electionguard/serialize.hpp | 25 +++++++++++--------------
 2 files changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index acc9307..602b4b4 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1513,21 +1513,11 @@ namespace electionguard
                 ballotStyleRefs.push_back(ref<CryptoHashable>(*element));
             }
 
-            // TODO: handle other optional cases
-            if (name == nullptr) {
-                auto hash = hash_elems(
-                  {electionScopeId, getElectionTypeString(type), timePointToIsoString(startDate),
-                   timePointToIsoString(endDate), nullptr, nullptr, geopoliticalUnitRefs, partyRefs,
-                   contestRefs, ballotStyleRefs});
-                Log::trace("Manifest:: NO NAME!", hash->toHex());
-                return hash;
-            }
-
             auto hash =
               hash_elems({electionScopeId, getElectionTypeString(type),
                           timePointToIsoString(startDate), timePointToIsoString(endDate),
-                          ref<CryptoHashable>(*name), ref<CryptoHashable>(*contactInformation),
-                          geopoliticalUnitRefs, partyRefs, contestRefs, ballotStyleRefs});
+                          name.get(), contactInformation.get(), geopoliticalUnitRefs, partyRefs,
+                          contestRefs, ballotStyleRefs});
 
             Log::trace("Manifest", hash->toHex());
             return hash;
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index a1d5fa4..db70a15 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -79,7 +79,7 @@ namespace electionguard
 
     static json contactInformationToJson(const ContactInformation &serializable)
     {
-        json serialized = {};
+        json serialized = json::object();
 
         if (!serializable.getName().empty()) {
             serialized["name"] = serializable.getName();
@@ -550,22 +550,19 @@ namespace electionguard
                 auto contests = contestDescriptionsFromJson(j["contests"]);
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
 
-                // TODO: just a stub for now.
-                // we need to handle all of the otpional serilization cases.
-                if (j.contains("name") && !j["name"].is_null()) {
-                    auto name = internationalizedTextFromJson(j["name"]);
-                    auto contactInformation = contactInformationFromJson(j["contact_information"]);
-
-                    return make_unique<electionguard::Manifest>(
-                      electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
-                      timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                      move(candidates), move(contests), move(ballotStyles), move(name),
-                      move(contactInformation));
-                }
+                auto name = j.contains("name") && !j["name"].is_null()
+                              ? internationalizedTextFromJson(j["name"])
+                              : nullptr;
+                auto contactInformation =
+                  j.contains("contact_information") && !j["contact_information"].is_null()
+                    ? contactInformationFromJson(j["contact_information"])
+                    : nullptr;
+
                 return make_unique<electionguard::Manifest>(
                   electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
                   timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                  move(candidates), move(contests), move(ballotStyles));
+                  move(candidates), move(contests), move(ballotStyles), move(name),
+                  move(contactInformation));
             }
 
           public:
-- 
2.43.0


From 354ce0cacdb1708cbaed53b6a8126ec765a5e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:41 +0000
Subject: [PATCH 19/39] fix: give approval voting its name, which looking it up
 read past the end of the map for

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 602b4b4..6dd2f6a 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -129,6 +129,7 @@ namespace electionguard
     const map<VoteVariationType, const string> _vote_variation_type<T>::_map = {
       {VoteVariationType::unknown, "unknown"},
       {VoteVariationType::one_of_m, "one_of_m"},
+      {VoteVariationType::approval, "approval"},
       {VoteVariationType::borda, "borda"},
       {VoteVariationType::cumulative, "cumulative"},
       {VoteVariationType::majority, "majority"},
-- 
2.43.0


From 763e35106157a0b4481ef451c192eca866bf9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:41 +0000
Subject: [PATCH 20/39] fix: reload an internal manifest with the titles and
 vote limits of its contests

---
 src/electionguard/serialize.hpp | 42 +++++----------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index db70a15..cd27afd 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -626,14 +626,13 @@ namespace electionguard
                       {"ballot_placeholders", placeholders}};
 
                     if (contest.get().getBallotTitle() != nullptr) {
-                        contest_json["ballot_title"] = {
-                          {"text", internationalizedTextToJson(*contest.get().getBallotTitle())}};
+                        contest_json["ballot_title"] =
+                          internationalizedTextToJson(*contest.get().getBallotTitle());
                     }
 
                     if (contest.get().getBallotSubtitle() != nullptr) {
-                        contest_json["ballot_subtitle"] = {
-                          {"text",
-                           internationalizedTextToJson(*contest.get().getBallotSubtitle())}};
+                        contest_json["ballot_subtitle"] =
+                          internationalizedTextToJson(*contest.get().getBallotSubtitle());
                     }
 
                     contests.push_back(contest_json);
@@ -662,39 +661,10 @@ namespace electionguard
                 vector<unique_ptr<ContestDescriptionWithPlaceholders>> contestDescriptions;
                 contestDescriptions.reserve(contests.size());
                 for (auto &contest : contests) {
-                    auto contest_object_id = contest["object_id"].get<string>();
-                    auto electoral_district_id = contest["electoral_district_id"].get<string>();
-                    auto contest_sequence_order = contest["sequence_order"].get<uint64_t>();
-                    auto vote_variation = contest["vote_variation"].get<string>();
-                    auto number_elected = contest["number_elected"].get<uint64_t>();
-                    auto name = contest["name"].get<string>();
-
-                    auto selections = selectionDescriptionsFromJson(contest["ballot_selections"]);
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
-
-                    // TODO: ust a stub for now.
-                    // we need to handle all of the otpional serilization cases.
-                    if (contest.contains("ballot_title") && !contest["ballot_title"].is_null()) {
-                        auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
-                        auto ballotTitle = internationalizedTextFromJson(contest["ballot_title"]);
-                        auto ballotSubtitle =
-                          internationalizedTextFromJson(contest["ballot_subtitle"]);
-
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, votes_allowed,
-                            name, move(ballotTitle), move(ballotSubtitle), move(selections),
-                            move(placeholders)));
-
-                    } else {
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, name,
-                            move(selections), move(placeholders)));
-                    }
+                    contestDescriptions.push_back(make_unique<ContestDescriptionWithPlaceholders>(
+                      *contestDescriptionFromJson(contest), move(placeholders)));
                 }
 
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
-- 
2.43.0


From dbc01fdaaf3b3c98aa8acb72c376f47bac77db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:10 +0000
Subject: [PATCH 21/39] fix: store that a contest allows no votes, which
 changed to the number elected when reloaded

---
 src/electionguard/serialize.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index cd27afd..2d3c723 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -422,9 +422,7 @@ namespace electionguard
         serialized["vote_variation"] = getVoteVariationTypeString(serializable.getVoteVariation());
         serialized["number_elected"] = serializable.getNumberElected();
 
-        if (serializable.getVotesAllowed() > 0) {
-            serialized["votes_allowed"] = serializable.getVotesAllowed();
-        }
+        serialized["votes_allowed"] = serializable.getVotesAllowed();
 
         serialized["name"] = serializable.getName();
 
-- 
2.43.0


From 7cf302fb5ec105617a6222a2ef5b69746d3b4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:10 +0000
Subject: [PATCH 22/39] fix: store the contests and selections of a manifest in
 the order its hash covers

---
 include/electionguard/manifest.hpp | 10 ++++++++++
 src/electionguard/manifest.cpp     | 14 ++++++++++++--
 src/electionguard/serialize.hpp    |  6 +++---
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index 733b693..5adab34 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -725,6 +725,11 @@ namespace electionguard
         /// </Summary>
         std::vector<std::reference_wrapper<SelectionDescription>> getSelections() const;
 
+        /// <Summary>
+        /// The collection of selections in the order they are listed in, which the hash covers.
+        /// </Summary>
+        std::vector<std::reference_wrapper<SelectionDescription>> getListedSelections() const;
+
         /// <Summary>
         /// A hash representation of the object
         /// </Summary>
@@ -897,6 +902,11 @@ namespace electionguard
         /// </Summary>
         std::vector<std::reference_wrapper<ContestDescription>> getContests() const;
 
+        /// <Summary>
+        /// Collection of contests in the order they are listed in, which the hash covers.
+        /// </Summary>
+        std::vector<std::reference_wrapper<ContestDescription>> getListedContests() const;
+
         /// <Summary>
         /// Collection of ballot styles for this election.
         /// </Summary>
diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 6dd2f6a..188bad4 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1207,14 +1207,19 @@ namespace electionguard
         return pimpl->ballotSubtitle.get();
     }
 
-    vector<reference_wrapper<SelectionDescription>> ContestDescription::getSelections() const
+    vector<reference_wrapper<SelectionDescription>> ContestDescription::getListedSelections() const
     {
         vector<reference_wrapper<SelectionDescription>> selections;
         selections.reserve(pimpl->selections.size());
         for (const auto &selection : pimpl->selections) {
             selections.push_back(ref(*selection));
         }
+        return selections;
+    }
 
+    vector<reference_wrapper<SelectionDescription>> ContestDescription::getSelections() const
+    {
+        auto selections = getListedSelections();
         sort(selections.begin(), selections.end(),
              [](const reference_wrapper<SelectionDescription> left,
                 const reference_wrapper<SelectionDescription> right) {
@@ -1599,14 +1604,19 @@ namespace electionguard
         return references;
     }
 
-    vector<reference_wrapper<ContestDescription>> Manifest::getContests() const
+    vector<reference_wrapper<ContestDescription>> Manifest::getListedContests() const
     {
         vector<reference_wrapper<ContestDescription>> references;
         references.reserve(pimpl->contests.size());
         for (auto &reference : pimpl->contests) {
             references.push_back(ref(*reference));
         }
+        return references;
+    }
 
+    vector<reference_wrapper<ContestDescription>> Manifest::getContests() const
+    {
+        auto references = getListedContests();
         sort(references.begin(), references.end(),
              [](const reference_wrapper<ContestDescription> left,
                 const reference_wrapper<ContestDescription> right) {
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 2d3c723..6d774e0 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -436,7 +436,7 @@ namespace electionguard
               internationalizedTextToJson(*serializable.getBallotSubtitle());
         }
 
-        serialized["ballot_selections"] = selectionDescriptionsToJson(serializable.getSelections());
+        serialized["ballot_selections"] = selectionDescriptionsToJson(serializable.getListedSelections());
 
         return serialized;
     }
@@ -513,7 +513,7 @@ namespace electionguard
                 json candidates = candidatesToJson(serializable.getCandidates());
                 serialized.push_back({"candidates", candidates});
 
-                json contests = contestDescriptionsToJson(serializable.getContests());
+                json contests = contestDescriptionsToJson(serializable.getListedContests());
                 serialized.push_back({"contests", contests});
 
                 json ballotStyles = ballotStylesToJson(serializable.getBallotStyles());
@@ -607,7 +607,7 @@ namespace electionguard
                 // Contests
                 json contests;
                 for (const auto &contest : serializable.getContests()) {
-                    auto selections = selectionDescriptionsToJson(contest.get().getSelections());
+                    auto selections = selectionDescriptionsToJson(contest.get().getListedSelections());
                     auto placeholders =
                       selectionDescriptionsToJson(contest.get().getPlaceholders());
 
-- 
2.43.0


From f94faca535ef5e55af522b5ebd819d571cfffb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:20 +0000
Subject: [PATCH 23/39] fix: refuse a ballot with an invalid proof even if a
 selection of the same name has a valid one

---
 src/electionguard/ballot.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 234a6ec..7a7f746 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1076,12 +1076,17 @@ namespace electionguard
         for (const auto &contest : this->getContests()) {
             for (const auto &selection : contest.get().getSelections()) {
                 string key = contest.get().getObjectId() + '-' + selection.get().getObjectId();
-                validProofs[key] = selection.get().isValidEncryption(
-                  *selection.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+                auto &valid = validProofs.emplace(key, true).first->second;
+                valid = selection.get().isValidEncryption(*selection.get().getDescriptionHash(),
+                                                          elgamalPublicKey,
+                                                          cryptoExtendedBaseHash) &&
+                        valid;
             }
             string key = contest.get().getObjectId();
-            validProofs[key] = contest.get().isValidEncryption(
-              *contest.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+            auto &valid = validProofs.emplace(key, true).first->second;
+            valid = contest.get().isValidEncryption(*contest.get().getDescriptionHash(),
+                                                    elgamalPublicKey, cryptoExtendedBaseHash) &&
+                    valid;
         }
 
         bool isValid = true;
-- 
2.43.0


From 48a75bb1dd6f4bb5b19246951a486d8673dca6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:20 +0000
Subject: [PATCH 24/39] fix: report a contest without a proof as invalid
 instead of dereferencing null

---
 src/electionguard/ballot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 7a7f746..dd8813b 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -740,6 +740,7 @@ namespace electionguard
         }
 
         bool valid_proof =
+          proof_exists &&
           pimpl->proof->isValid(*computedAccumulation, elgamalPublicKey, cryptoExtendedBaseHash);
 
         bool success = consistent_encryption_seed && consistent_crypto_hash && proof_exists &&
-- 
2.43.0


From 898dc7a7cfa7aee5005bf67e4b9efaf20613b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:39 +0000
Subject: [PATCH 25/39] fix: report an error through the C interface even if
 logging it fails

---
 src/electionguard/log.cpp | 9 +++++++--
 src/electionguard/log.hpp | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/electionguard/log.cpp b/src/electionguard/log.cpp
index c44ed4b..8155496 100644
--- a/src/electionguard/log.cpp
+++ b/src/electionguard/log.cpp
@@ -136,9 +136,14 @@ namespace electionguard
     {
         Impl::instance().logger->error("{}::{}: {}", caller, msg, format(obj));
     }
-    void Log::error(string msg, const std::exception &obj, const char *caller)
+    void Log::error(const char *msg, const std::exception &obj, const char *caller) noexcept
     {
-        Impl::instance().logger->error("{}::{}: {}", caller, msg, obj.what());
+        try {
+            Impl::instance().logger->error("{}::{}: {}", caller, msg, obj.what());
+        } catch (...) {
+            // this is called while the error is being reported to the caller,
+            // which has to learn of it even if there is no memory to log it
+        }
     }
 
 } // namespace electionguard
diff --git a/src/electionguard/log.hpp b/src/electionguard/log.hpp
index acf4f07..a65f213 100644
--- a/src/electionguard/log.hpp
+++ b/src/electionguard/log.hpp
@@ -49,8 +49,8 @@ namespace electionguard
         static void error(string msg);
         static void error(string msg, DomainLoggableType obj,
                           const char *caller = __builtin_FUNCTION());
-        static void error(string msg, const std::exception &obj,
-                          const char *caller = __builtin_FUNCTION());
+        static void error(const char *msg, const std::exception &obj,
+                          const char *caller = __builtin_FUNCTION()) noexcept;
 
       private:
         class Impl;
-- 
2.43.0


From e01ee064d31a58fbe604db05799e2e9ee84a89be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:39 +0000
Subject: [PATCH 26/39] fix: create the logger again if the first attempt ran
 out of memory

---
 src/electionguard/log.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/log.cpp b/src/electionguard/log.cpp
index 8155496..cb107c2 100644
--- a/src/electionguard/log.cpp
+++ b/src/electionguard/log.cpp
@@ -93,7 +93,11 @@ namespace electionguard
 
         static shared_ptr<spdlog::logger> createLogger()
         {
-            auto console = spdlog::stdout_logger_mt("console");
+            // an earlier attempt may have registered the logger and then failed
+            auto console = spdlog::get("console");
+            if (console == nullptr) {
+                console = spdlog::stdout_logger_mt("console");
+            }
 #if LOG_DEBUG
             console->set_level(spdlog::level::debug);
 #elif LOG_TRACE
-- 
2.43.0


From 39c8e7425a03f2afe1cbe3fcfc07c388a6a3ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:42 +0000
Subject: [PATCH 27/39] fix: fail when out of memory while formatting hex or
 time instead of using a part of the text, which silently changed hashes

---
 src/electionguard/convert.cpp | 2 ++
 src/electionguard/convert.hpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/electionguard/convert.cpp b/src/electionguard/convert.cpp
index b5b93a8..33cd370 100644
--- a/src/electionguard/convert.cpp
+++ b/src/electionguard/convert.cpp
@@ -35,6 +35,7 @@ namespace electionguard
         gmtime_r(&c_time, &gmt);
 #endif
         std::ostringstream ss;
+        ss.exceptions(std::ios::badbit); // never return a part of the text
         ss << std::put_time(&gmt, format.c_str());
         return ss.str();
     }
@@ -48,6 +49,7 @@ namespace electionguard
     {
         date::sys_time<std::chrono::seconds> tm;
         std::istringstream ss{time};
+        ss.exceptions(std::ios::badbit);
         ss >> date::parse(format, tm);
         if (ss.fail()) {
             ss.clear();
diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 764c287..8832bee 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -83,6 +83,7 @@ namespace electionguard
     {
         bool detectedFirstNonZeroBytes = false;
         stringstream stream;
+        stream.exceptions(std::ios::badbit); // never return a part of the text
         stream << hex << uppercase;
         stream << setw(16) << setfill('0') << std::hex << number;
 
@@ -190,6 +191,7 @@ namespace electionguard
         // while ignoring any initial 0-bytes
         bool detectedFirstNonZeroBytes = false;
         stringstream stream;
+        stream.exceptions(std::ios::badbit); // never return a part of the text
         stream << hex << uppercase;
         for (auto byte : bytes) {
             if (!detectedFirstNonZeroBytes && byte != 0) {
@@ -207,6 +209,7 @@ namespace electionguard
     inline string bytes_to_full_hex(const vector<uint8_t> &bytes)
     {
         stringstream stream;
+        stream.exceptions(std::ios::badbit); // never return a part of the text
         stream << hex << uppercase;
         for (auto byte : bytes) {
             stream << setw(2) << setfill('0') << static_cast<uint16_t>(byte);
-- 
2.43.0


From fd95bad0282968598d983b7a678d28ec65c2c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:17 +0000
Subject: [PATCH 28/39] fix: a compact plaintext ballot without votes can be
 loaded again

Without a selections array the loader passed the empty json value instead of
the votes it had read, which threw a type error.
---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 6d774e0..abfddb2 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -987,7 +987,7 @@ namespace electionguard
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-                  object_id, style_id, move(selections), move(writeins));
+                  object_id, style_id, move(votes), move(writeins));
             }
 
           public:
-- 
2.43.0


From a6acd12cb6283a9a048a5b13813af50188310158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:17 +0000
Subject: [PATCH 29/39] fix: a candidate without a name stays without a name
 when reloaded

Loading gave it an empty text, which changed its hash and its stored form.
---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index abfddb2..ccd3eab 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -282,7 +282,7 @@ namespace electionguard
         auto objectId = j.at("object_id").get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
-                      : internationalizedTextFromJson("{}");
+                      : nullptr;
         bool isWriteIn = j.contains("is_write_in") && !j["is_write_in"].is_null()
                            ? j["is_write_in"].get<bool>()
                            : false;
-- 
2.43.0


From 950dd1c0e742dd77f1d9812e963f0a6b363f9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 30/39] fix: contact information without a name can be made and
 loaded

---
 include/electionguard/manifest.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index 5adab34..c8539d6 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -252,14 +252,14 @@ namespace electionguard
         ContactInformation(ContactInformation &&other);
         explicit ContactInformation(std::string name);
         explicit ContactInformation(std::vector<std::string> addressLine,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> email,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         ~ContactInformation();
 
         ContactInformation &operator=(ContactInformation other);
-- 
2.43.0


From 4441340c9572f5d3d2913ed3974e86215fa8c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 31/39] fix: C builders copy the parts they are given instead
 of hollowing out the caller's handles, which a retry after a failure then
 used

---
 src/electionguard/facades/ballot.cpp   |  4 +-
 src/electionguard/facades/manifest.cpp | 74 +++++++++++++-------------
 2 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 58a8e32..b8a3bea 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -350,7 +350,7 @@ eg_electionguard_status_t eg_plaintext_ballot_contest_new(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(PlaintextBallotSelection, in_selections[i]);
             unique_ptr<PlaintextBallotSelection> wrapped(
-              new PlaintextBallotSelection(std::move(*element)));
+              new PlaintextBallotSelection(*element));
             selections.push_back(std::move(wrapped));
         }
 
@@ -645,7 +645,7 @@ eg_electionguard_status_t eg_plaintext_ballot_new(char *in_object_id, char *in_s
         for (uint64_t i = 0; i < in_contests_size; i++) {
             auto *element = AS_TYPE(PlaintextBallotContest, in_contests[i]);
             unique_ptr<PlaintextBallotContest> wrapped(
-              new PlaintextBallotContest(std::move(*element)));
+              new PlaintextBallotContest(*element));
             contests.push_back(std::move(wrapped));
         }
 
diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 5d9ecc0..665e36f 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -292,7 +292,7 @@ eg_electionguard_status_t eg_contact_information_new_with_collections(
         email.reserve(uint64_to_size(in_email_line_size));
         for (uint64_t i = 0; i < in_email_line_size; i++) {
             auto *element = AS_TYPE(AnnotatedString, in_email_line[i]);
-            unique_ptr<AnnotatedString> annotated(new AnnotatedString(std::move(*element)));
+            unique_ptr<AnnotatedString> annotated(new AnnotatedString(*element));
             email.push_back(std::move(annotated));
         }
 
@@ -300,7 +300,7 @@ eg_electionguard_status_t eg_contact_information_new_with_collections(
         email.reserve(uint64_to_size(in_phone_line_size));
         for (uint64_t i = 0; i < in_phone_line_size; i++) {
             auto *element = AS_TYPE(AnnotatedString, in_phone_line[i]);
-            unique_ptr<AnnotatedString> annotated(new AnnotatedString(std::move(*element)));
+            unique_ptr<AnnotatedString> annotated(new AnnotatedString(*element));
             phone.push_back(std::move(annotated));
         }
 
@@ -453,7 +453,7 @@ eg_electionguard_status_t eg_geopolitical_unit_new_with_contact_info(
 
         auto result =
           make_unique<GeopoliticalUnit>(objectId, name, (ReportingUnitType)in_reporting_unit_type,
-                                        make_unique<ContactInformation>(std::move(*contact)));
+                                        make_unique<ContactInformation>(*contact));
 
         *out_handle = AS_TYPE(eg_geopolitical_unit_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -706,7 +706,7 @@ eg_electionguard_status_t eg_party_new_with_extras(char *in_object_id,
         auto logo = in_logo_uri;
 
         auto result =
-          make_unique<Party>(objectId, make_unique<InternationalizedText>(std::move(*name)),
+          make_unique<Party>(objectId, make_unique<InternationalizedText>(*name),
                              abbreviation, color, logo);
 
         *out_handle = AS_TYPE(eg_party_t, result.release());
@@ -860,7 +860,7 @@ eg_electionguard_status_t eg_candidate_new_with_extras(char *in_object_id,
         auto imageUri = string(in_image_uri);
 
         auto result =
-          make_unique<Candidate>(objectId, make_unique<InternationalizedText>(std::move(*name)),
+          make_unique<Candidate>(objectId, make_unique<InternationalizedText>(*name),
                                  partyId, imageUri, in_is_write_in);
 
         *out_handle = AS_TYPE(eg_candidate_t, result.release());
@@ -1080,7 +1080,7 @@ eg_contest_description_new(const char *in_object_id, char *in_electoral_district
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1116,15 +1116,15 @@ eg_electionguard_status_t eg_contest_description_new_with_title(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
         auto result = make_unique<ContestDescription>(
           objectId, electoraldistrictId, in_sequence_order, (VoteVariationType)in_vote_variation,
           in_number_elected, in_votes_allowed, name,
-          make_unique<InternationalizedText>(std::move(*ballotTitle)),
-          make_unique<InternationalizedText>(std::move(*ballotSubTitle)), move(selections));
+          make_unique<InternationalizedText>(*ballotTitle),
+          make_unique<InternationalizedText>(*ballotSubTitle), move(selections));
 
         *out_handle = AS_TYPE(eg_contest_description_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -1151,7 +1151,7 @@ eg_electionguard_status_t eg_contest_description_new_with_parties(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1194,7 +1194,7 @@ eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1207,8 +1207,8 @@ eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
         auto result = make_unique<ContestDescription>(
           objectId, electoraldistrictId, in_sequence_order, (VoteVariationType)in_vote_variation,
           in_number_elected, in_votes_allowed, name,
-          make_unique<InternationalizedText>(std::move(*ballotTitle)),
-          make_unique<InternationalizedText>(std::move(*ballotSubTitle)), move(selections),
+          make_unique<InternationalizedText>(*ballotTitle),
+          make_unique<InternationalizedText>(*ballotSubTitle), move(selections),
           move(partyIds));
 
         *out_handle = AS_TYPE(eg_contest_description_t, result.release());
@@ -1378,7 +1378,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1387,7 +1387,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new(
         for (uint64_t i = 0; i < in_placeholder_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_placeholder_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             placeholders.push_back(std::move(annotated));
         }
 
@@ -1424,7 +1424,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1433,15 +1433,15 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         for (uint64_t i = 0; i < in_placeholder_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_placeholder_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             placeholders.push_back(std::move(annotated));
         }
 
         auto result = make_unique<ContestDescriptionWithPlaceholders>(
           objectId, electoraldistrictId, in_sequence_order, (VoteVariationType)in_vote_variation,
           in_number_elected, in_votes_allowed, name,
-          make_unique<InternationalizedText>(std::move(*ballotTitle)),
-          make_unique<InternationalizedText>(std::move(*ballotSubTitle)), move(selections),
+          make_unique<InternationalizedText>(*ballotTitle),
+          make_unique<InternationalizedText>(*ballotSubTitle), move(selections),
           move(placeholders));
 
         *out_handle = AS_TYPE(eg_contest_description_with_placeholders_t, result.release());
@@ -1470,7 +1470,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_part
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1479,7 +1479,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_part
         for (uint64_t i = 0; i < in_placeholder_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_placeholder_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             placeholders.push_back(std::move(annotated));
         }
 
@@ -1523,7 +1523,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1532,7 +1532,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         for (uint64_t i = 0; i < in_placeholder_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_placeholder_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             placeholders.push_back(std::move(annotated));
         }
 
@@ -1545,8 +1545,8 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         auto result = make_unique<ContestDescriptionWithPlaceholders>(
           objectId, electoraldistrictId, in_sequence_order, (VoteVariationType)in_vote_variation,
           in_number_elected, in_votes_allowed, name,
-          make_unique<InternationalizedText>(std::move(*ballotTitle)),
-          make_unique<InternationalizedText>(std::move(*ballotSubTitle)), move(selections),
+          make_unique<InternationalizedText>(*ballotTitle),
+          make_unique<InternationalizedText>(*ballotSubTitle), move(selections),
           move(partyIds), move(placeholders));
 
         *out_handle = AS_TYPE(eg_contest_description_with_placeholders_t, result.release());
@@ -1642,7 +1642,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         gpUnits.reserve(uint64_to_size(in_geopolitical_units_size));
         for (uint64_t i = 0; i < in_geopolitical_units_size; i++) {
             auto *element = AS_TYPE(GeopoliticalUnit, in_geopolitical_units[i]);
-            unique_ptr<GeopoliticalUnit> annotated(new GeopoliticalUnit(std::move(*element)));
+            unique_ptr<GeopoliticalUnit> annotated(new GeopoliticalUnit(*element));
             gpUnits.push_back(std::move(annotated));
         }
 
@@ -1650,7 +1650,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         parties.reserve(uint64_to_size(in_parties_size));
         for (uint64_t i = 0; i < in_parties_size; i++) {
             auto *element = AS_TYPE(Party, in_parties[i]);
-            unique_ptr<Party> annotated(new Party(std::move(*element)));
+            unique_ptr<Party> annotated(new Party(*element));
             parties.push_back(std::move(annotated));
         }
 
@@ -1658,7 +1658,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         candidates.reserve(uint64_to_size(in_candidates_size));
         for (uint64_t i = 0; i < in_candidates_size; i++) {
             auto *element = AS_TYPE(Candidate, in_candidates[i]);
-            unique_ptr<Candidate> annotated(new Candidate(std::move(*element)));
+            unique_ptr<Candidate> annotated(new Candidate(*element));
             candidates.push_back(std::move(annotated));
         }
 
@@ -1666,7 +1666,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         contests.reserve(uint64_to_size(in_contests_size));
         for (uint64_t i = 0; i < in_contests_size; i++) {
             auto *element = AS_TYPE(ContestDescription, in_contests[i]);
-            unique_ptr<ContestDescription> annotated(new ContestDescription(std::move(*element)));
+            unique_ptr<ContestDescription> annotated(new ContestDescription(*element));
             contests.push_back(std::move(annotated));
         }
 
@@ -1674,7 +1674,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         ballotStyles.reserve(uint64_to_size(in_ballot_styles_size));
         for (uint64_t i = 0; i < in_ballot_styles_size; i++) {
             auto *element = AS_TYPE(BallotStyle, in_ballot_styles[i]);
-            unique_ptr<BallotStyle> annotated(new BallotStyle(std::move(*element)));
+            unique_ptr<BallotStyle> annotated(new BallotStyle(*element));
             ballotStyles.push_back(std::move(annotated));
         }
 
@@ -1709,7 +1709,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         gpUnits.reserve(uint64_to_size(in_geopolitical_units_size));
         for (uint64_t i = 0; i < in_geopolitical_units_size; i++) {
             auto *element = AS_TYPE(GeopoliticalUnit, in_geopolitical_units[i]);
-            unique_ptr<GeopoliticalUnit> annotated(new GeopoliticalUnit(std::move(*element)));
+            unique_ptr<GeopoliticalUnit> annotated(new GeopoliticalUnit(*element));
             gpUnits.push_back(std::move(annotated));
         }
 
@@ -1717,7 +1717,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         parties.reserve(uint64_to_size(in_parties_size));
         for (uint64_t i = 0; i < in_parties_size; i++) {
             auto *element = AS_TYPE(Party, in_parties[i]);
-            unique_ptr<Party> annotated(new Party(std::move(*element)));
+            unique_ptr<Party> annotated(new Party(*element));
             parties.push_back(std::move(annotated));
         }
 
@@ -1725,7 +1725,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         candidates.reserve(uint64_to_size(in_candidates_size));
         for (uint64_t i = 0; i < in_candidates_size; i++) {
             auto *element = AS_TYPE(Candidate, in_candidates[i]);
-            unique_ptr<Candidate> annotated(new Candidate(std::move(*element)));
+            unique_ptr<Candidate> annotated(new Candidate(*element));
             candidates.push_back(std::move(annotated));
         }
 
@@ -1733,7 +1733,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         contests.reserve(uint64_to_size(in_contests_size));
         for (uint64_t i = 0; i < in_contests_size; i++) {
             auto *element = AS_TYPE(ContestDescription, in_contests[i]);
-            unique_ptr<ContestDescription> annotated(new ContestDescription(std::move(*element)));
+            unique_ptr<ContestDescription> annotated(new ContestDescription(*element));
             contests.push_back(std::move(annotated));
         }
 
@@ -1741,7 +1741,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         ballotStyles.reserve(uint64_to_size(in_ballot_styles_size));
         for (uint64_t i = 0; i < in_ballot_styles_size; i++) {
             auto *element = AS_TYPE(BallotStyle, in_ballot_styles[i]);
-            unique_ptr<BallotStyle> annotated(new BallotStyle(std::move(*element)));
+            unique_ptr<BallotStyle> annotated(new BallotStyle(*element));
             ballotStyles.push_back(std::move(annotated));
         }
 
@@ -1751,8 +1751,8 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         auto result = make_unique<Manifest>(
           scopeId, (ElectionType)in_election_type, startDate, endDate, move(gpUnits), move(parties),
           move(candidates), move(contests), move(ballotStyles),
-          make_unique<InternationalizedText>(std::move(*name)),
-          make_unique<ContactInformation>(std::move(*contactInfo)));
+          make_unique<InternationalizedText>(*name),
+          make_unique<ContactInformation>(*contactInfo));
 
         *out_handle = AS_TYPE(eg_election_manifest_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From c915299d5c4645b8004c4d6d3e699d35da9d0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 32/39] fix: C accessors of contact information and candidates
 use the type of their handle

---
 src/electionguard/facades/manifest.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 665e36f..60c7daa 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -396,7 +396,7 @@ eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information
                                                           const char **out_name)
 {
     try {
-        auto result = AS_TYPE(GeopoliticalUnit, handle)->getName();
+        auto result = AS_TYPE(ContactInformation, handle)->getName();
         *out_name = dynamicCopy(result);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -410,7 +410,7 @@ eg_electionguard_status_t eg_contact_information_crypto_hash(eg_contact_informat
                                                              eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
+        auto result = AS_TYPE(ContactInformation, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -965,7 +965,7 @@ eg_electionguard_status_t eg_candidate_crypto_hash(eg_candidate_t *handle,
                                                    eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(Party, handle)->crypto_hash();
+        auto result = AS_TYPE(Candidate, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From 4eb5a46d8cffdef3cff53f6c1cadc6597e78602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:22 +0000
Subject: [PATCH 33/39] fix: C extended data accessor reports running out of
 memory instead of throwing or dropping entries

---
 src/electionguard/facades/election.cpp | 32 +++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/facades/election.cpp b/src/electionguard/facades/election.cpp
index e2aa39e..6f2b325 100644
--- a/src/electionguard/facades/election.cpp
+++ b/src/electionguard/facades/election.cpp
@@ -155,20 +155,30 @@ eg_electionguard_status_t
 eg_ciphertext_election_context_get_extended_data(eg_ciphertext_election_context_t *handle,
                                                  eg_linked_list_t **out_extended_data)
 {
-    auto extendedData = AS_TYPE(CiphertextElectionContext, handle)->getExtendedData();
-
     eg_linked_list_t *extended_data = NULL;
-    if (eg_linked_list_new(&extended_data)) {
-        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
-    }
+    try {
+        auto extendedData = AS_TYPE(CiphertextElectionContext, handle)->getExtendedData();
+
+        if (eg_linked_list_new(&extended_data)) {
+            return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+        }
 
-    unordered_map<string, string>::iterator iterator;
-    for (iterator = extendedData.begin(); iterator != extendedData.end(); iterator++) {
-        eg_linked_list_append(extended_data, const_cast<char *>(iterator->first.c_str()),
-                              const_cast<char *>(iterator->second.c_str()));
+        unordered_map<string, string>::iterator iterator;
+        for (iterator = extendedData.begin(); iterator != extendedData.end(); iterator++) {
+            auto status =
+              eg_linked_list_append(extended_data, const_cast<char *>(iterator->first.c_str()),
+                                    const_cast<char *>(iterator->second.c_str()));
+            if (status != ELECTIONGUARD_STATUS_SUCCESS) {
+                eg_linked_list_free(extended_data);
+                return status;
+            }
+        }
+        *out_extended_data = extended_data;
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_ciphertext_election_context_get_extended_data", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
     }
-    *out_extended_data = extended_data;
-    return ELECTIONGUARD_STATUS_SUCCESS;
 }
 
 eg_electionguard_status_t eg_ciphertext_election_context_make(
-- 
2.43.0


From 3a3936674de4e84027678811d9c4e128c9ded268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:22 +0000
Subject: [PATCH 34/39] fix: a linked list entry whose texts cannot be copied
 is refused

---
 src/electionguard/facades/collections.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/facades/collections.c b/src/electionguard/facades/collections.c
index 0df254c..1993d86 100644
--- a/src/electionguard/facades/collections.c
+++ b/src/electionguard/facades/collections.c
@@ -50,6 +50,12 @@ eg_electionguard_status_t eg_linked_list_append(eg_linked_list_t *handle, char *
     }
     node->key = strdup(in_key);
     node->value = strdup(in_value);
+    if (node->key == NULL || node->value == NULL) {
+        free(node->key);
+        free(node->value);
+        free(node);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
     node->previous = NULL;
     node->next = NULL;
 
-- 
2.43.0


From d0e4186e37e479d0698d45717275e41223c86742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:26 +0000
Subject: [PATCH 35/39] fix: hex text with characters that are not hexadecimal
 digits is refused

hex_to_bytes parsed each pair of characters with stoi, which stops at the first
invalid character: '5X' was read as 5, and '-5' or ' 5' were accepted as well.
---
 src/electionguard/convert.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 8832bee..20e6da3 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <karamel/LowStar_Endianness.h>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -53,8 +54,17 @@ namespace electionguard
         return static_cast<uint32_t>(size);
     }
 
+    /// throws unless every character is a hexadecimal digit
+    inline void require_hex_digits(const string &hexString)
+    {
+        if (hexString.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+            throw std::invalid_argument("hex string contains an invalid character");
+        }
+    }
+
     inline void hex_to_bytes(const string &hex, uint8_t *bytesOut)
     {
+        require_hex_digits(hex);
         const size_t baseHex = 16;
         for (size_t i(0); i < hex.size(); i += 2) {
             string byteString = hex.substr(i, 2);
@@ -66,6 +76,7 @@ namespace electionguard
 
     inline vector<uint8_t> hex_to_bytes(const string &hexString)
     {
+        require_hex_digits(hexString);
         vector<uint8_t> bytes;
         const size_t baseHex = 16;
         for (size_t i = 0; i < hexString.size(); i += 2) {
-- 
2.43.0


From f86fc12d2f2b927f56132bd38620a0906e50bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:26 +0000
Subject: [PATCH 36/39] fix: the C constants report an allocation failure
 instead of throwing

The constants are built on first use, and the C functions returning them let
the exception of a failed allocation escape into the C caller.
---
 src/electionguard/facades/group.cpp | 90 ++++++++++++++++++++++-------
 1 file changed, 70 insertions(+), 20 deletions(-)

diff --git a/src/electionguard/facades/group.cpp b/src/electionguard/facades/group.cpp
index b9e0dd0..a5b4466 100644
--- a/src/electionguard/facades/group.cpp
+++ b/src/electionguard/facades/group.cpp
@@ -217,64 +217,114 @@ eg_element_mod_q_from_hex_unchecked(char *in_hex, eg_element_mod_q_t **out_handl
 
 eg_electionguard_status_t eg_element_mod_p_constant_g(eg_element_mod_p_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&G()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&G()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_p_constant_g", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 eg_electionguard_status_t eg_element_mod_p_constant_p(eg_element_mod_p_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&P()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&P()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_p_constant_p", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 eg_electionguard_status_t eg_element_mod_p_constant_r(eg_element_mod_p_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&R()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&R()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_p_constant_r", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 eg_electionguard_status_t
 eg_element_mod_p_constant_zero_mod_p(eg_element_mod_p_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&ZERO_MOD_P()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&ZERO_MOD_P()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_p_constant_zero_mod_p", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 eg_electionguard_status_t eg_element_mod_p_constant_one_mod_p(eg_element_mod_p_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&ONE_MOD_P()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&ONE_MOD_P()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_p_constant_one_mod_p", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 eg_electionguard_status_t eg_element_mod_p_constant_two_mod_p(eg_element_mod_p_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&TWO_MOD_P()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_p_t, const_cast<ElementModP *>(&TWO_MOD_P()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_p_constant_two_mod_p", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 eg_electionguard_status_t eg_element_mod_q_constant_q(eg_element_mod_q_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_q_t, const_cast<ElementModQ *>(&Q()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_q_t, const_cast<ElementModQ *>(&Q()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_q_constant_q", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 eg_electionguard_status_t
 eg_element_mod_q_constant_zero_mod_q(eg_element_mod_q_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_q_t, const_cast<ElementModQ *>(&ZERO_MOD_Q()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_q_t, const_cast<ElementModQ *>(&ZERO_MOD_Q()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_q_constant_zero_mod_q", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 eg_electionguard_status_t eg_element_mod_q_constant_one_mod_q(eg_element_mod_q_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_q_t, const_cast<ElementModQ *>(&ONE_MOD_Q()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_q_t, const_cast<ElementModQ *>(&ONE_MOD_Q()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_q_constant_one_mod_q", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 eg_electionguard_status_t eg_element_mod_q_constant_two_mod_q(eg_element_mod_q_t **out_constant_ref)
 {
-    *out_constant_ref = AS_TYPE(eg_element_mod_q_t, const_cast<ElementModQ *>(&TWO_MOD_Q()));
-    return ELECTIONGUARD_STATUS_SUCCESS;
+    try {
+        *out_constant_ref = AS_TYPE(eg_element_mod_q_t, const_cast<ElementModQ *>(&TWO_MOD_Q()));
+        return ELECTIONGUARD_STATUS_SUCCESS;
+    } catch (const exception &e) {
+        Log::error(":eg_element_mod_q_constant_two_mod_q", e);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
 }
 
 #pragma endregion
-- 
2.43.0


From f04d72a6b1e00201cc9e9b1cbef71090790749f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:26 +0000
Subject: [PATCH 37/39] fix: text handed out by the C API is not written
 through a null pointer

dynamicCopy did not check the result of malloc.
---
 src/electionguard/convert.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 20e6da3..6b2e648 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -11,6 +11,7 @@
 #include <iomanip>
 #include <iostream>
 #include <karamel/LowStar_Endianness.h>
+#include <new>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -298,6 +299,9 @@ namespace electionguard
     {
         auto data_size = data.length() + 1;
         auto *data_array = static_cast<char *>(malloc(data_size));
+        if (data_array == nullptr) {
+            throw std::bad_alloc();
+        }
 // TODO: allow warning and change to safe?
 #pragma warning(suppress : 4996)
         strncpy(data_array, data.c_str(), data_size);
-- 
2.43.0


From b08dc6fd75139de2f7b9e210ad889081f7b801a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:27 +0000
Subject: [PATCH 38/39] fix: ElGamal encryption of a message above 1 encrypts
 that message

The documentation allows any message in [0,Q), but every message other than 1
was encrypted as 0.
---
 src/electionguard/elgamal.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index eb2e1c6..82b8e74 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -223,6 +223,8 @@ namespace electionguard
         unique_ptr<ElementModP> data = nullptr;
         if (m == 1) {
             data = mul_mod_p(G(), *pubkey_pow_n);
+        } else if (m > 1) {
+            data = mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), *pubkey_pow_n);
         } else {
             data = move(pubkey_pow_n);
         }
@@ -243,6 +245,9 @@ namespace electionguard
         if (m == 1) {
             unique_ptr<ElementModP> temp = mul_mod_p(G(), pubkey_to_rho);
             data = *temp;
+        } else if (m > 1) {
+            auto temp = mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), pubkey_to_rho);
+            data = *temp;
         }
 
         Log::trace("Generated Encryption with Precomputed Values");
-- 
2.43.0


From ea8d6976f72878506160a588479efa80efb80d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:21 +0000
Subject: [PATCH 39/39] fix: single triples stay within twice the buffer size
 after odd draws

The bound added before allowed one triple too many when an odd number had
been taken.
---
 src/electionguard/precompute_buffers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index c999035..73dc390 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -236,7 +236,7 @@ namespace electionguard
                 // encryption. The generating two triples every third iteration is a guess
                 // on how many precomputes we will need.
                 if ((iteration_count % 3) == 0 &&
-                    getInstance().triple_queue.size() < 2 * (size_t)getInstance().max) {
+                    getInstance().triple_queue.size() + 2 <= 2 * (size_t)getInstance().max) {
                     unique_ptr<Triple> contest_triple1 = make_unique<Triple>(elgamalPublicKey);
                     getInstance().triple_queue.push(move(contest_triple1));
                     unique_ptr<Triple> contest_triple2 = make_unique<Triple>(elgamalPublicKey);
-- 
2.43.0

