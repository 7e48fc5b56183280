From bbe2d190d806241347b0c57f91e849e4b4dfdea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:59 +0000
Subject: [PATCH 01/49] fix: keep output clock on exact multiples of its
 interval when reset

UniformClock::reset divided doubles to find the last multiple of the output
interval not after the start time. For start times that are such a multiple
(e.g. 0.3 with interval 0.1) the quotient may come out just below the integer,
the clock then started one interval early and an output was written at the
start time in addition to the event start.
---
 src/include/smash/clock.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 0129636..e9a0b32 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -319,18 +319,20 @@ class UniformClock : public Clock {
    * \param[in] is_output_clock whether this is an output clock or a lab clock
    */
   void reset(double start_time, bool is_output_clock) override {
-    double reset_time;
-    if (is_output_clock) {
-      auto delta_t = convert(timestep_duration_);
-      reset_time = std::floor(start_time / delta_t) * delta_t;
-    } else {
-      reset_time = start_time;
+    Representation reset_time = convert(start_time);
+    if (is_output_clock && timestep_duration_ > 0) {
+      // Stay with integers: dividing doubles may miss an exact multiple
+      Representation since_multiple = reset_time % timestep_duration_;
+      if (since_multiple < 0) {
+        since_multiple += timestep_duration_;
+      }
+      reset_time -= since_multiple;
     }
-    if (reset_time < current_time()) {
+    if (convert(reset_time) < current_time()) {
       logg[LClock].debug("Resetting clock from", current_time(), " fm to ",
-                         reset_time, " fm");
+                         convert(reset_time), " fm");
     }
-    reset_time_ = convert(reset_time);
+    reset_time_ = reset_time;
     counter_ = 0;
   }
 
-- 
2.43.0


From 2b358dde8dfd4f9006fc2570f9e8c69925a8d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 02/49] fix: particle list with only holes left is empty

Particles::is_empty looked at the number of used slots, which still counts
the holes that removed particles leave. A list from which all particles were
removed, but not in reverse order, was reported as not empty.
---
 src/include/smash/particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/particles.h b/src/include/smash/particles.h
index 9271058..fc1fdb0 100644
--- a/src/include/smash/particles.h
+++ b/src/include/smash/particles.h
@@ -87,7 +87,7 @@ class Particles {
   size_t size() const { return data_size_ - dirty_.size(); }
 
   /// \return whether the list of particles is empty.
-  bool is_empty() const { return data_size_ == 0; }
+  bool is_empty() const { return size() == 0; }
 
   /**
    *  Returns the time of the computational frame.
-- 
2.43.0


From b01f0ab96f853e0ccf047e9d3c80df4265cf3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:03 +0000
Subject: [PATCH 03/49] fix: restore custom output times dropped in an earlier
 event

CustomClock::remove_times_in_past deleted times for good, so that an event
starting earlier than a previous one missed its output times.
---
 src/include/smash/clock.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index e9a0b32..592a0fa 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -411,8 +411,9 @@ class CustomClock : public Clock {
    *
    * \param[in] times vector of desired output times
    */
-  explicit CustomClock(std::vector<double> times) : custom_times_(times) {
-    std::sort(custom_times_.begin(), custom_times_.end());
+  explicit CustomClock(std::vector<double> times) : all_times_(times) {
+    std::sort(all_times_.begin(), all_times_.end());
+    custom_times_ = all_times_;
     counter_ = -1;
   }
 
@@ -446,7 +447,8 @@ class CustomClock : public Clock {
   }
 
   /**
-   * Reset the clock to the starting time of the simulation.
+   * Reset the clock to the starting time of the simulation. Custom times that
+   * were removed because they were before an earlier starting time are restored.
    *
    * \param[in] start_time starting time of the simulation
    *
@@ -455,6 +457,7 @@ class CustomClock : public Clock {
   void reset(double start_time, bool) override {
     counter_ = -1;
     start_time_ = start_time;
+    custom_times_ = all_times_;
   }
 
   /**
@@ -496,6 +499,8 @@ class CustomClock : public Clock {
   double present_internal_time() const override { return current_time(); }
 
  private:
+  /// Vector of all times given at construction
+  std::vector<double> all_times_;
   /// Vector of times where output is generated
   std::vector<double> custom_times_;
   /// Starting time of the simulation
-- 
2.43.0


From de63f1b6b38065ce05e890457dafb3f264d6b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 04/49] fix: resizing a lattice really changes its number of
 cells

reset_and_resize() only stored the new cell counts but kept the storage of the
old size, and reset the nodes before the sizes were known. Growing a lattice
therefore accessed memory beyond its end.
---
 src/include/smash/lattice.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 9445f63..8aa3503 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -817,13 +817,15 @@ class RectangularLattice {
           "RectangularLattice::reset_and_resize called "
           "without arguments, lattice was not changed.");
     }
-    reset();
     if (new_length)
       lattice_sizes_ = *new_length;
     if (new_origin)
       origin_ = *new_origin;
-    if (new_cells)
+    if (new_cells) {
       n_cells_ = *new_cells;
+      lattice_.resize(n_cells_[0] * n_cells_[1] * n_cells_[2]);
+    }
+    reset();
     cell_sizes_ = {lattice_sizes_[0] / n_cells_[0],
                    lattice_sizes_[1] / n_cells_[1],
                    lattice_sizes_[2] / n_cells_[2]};
-- 
2.43.0


From 9b089b1d5ae75cb273c329ce7e54b428323629bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 05/49] fix: Print_Start_End only concerns the collision output
 in binary format too

The binary dilepton and photon outputs printed the whole particle list at start
and end of each event if this was requested for the collision output, in
contrast to the text formats and the documentation.
---
 src/binaryoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binaryoutput.cc b/src/binaryoutput.cc
index 362c11a..d52befe 100644
--- a/src/binaryoutput.cc
+++ b/src/binaryoutput.cc
@@ -265,7 +265,7 @@ BinaryOutputCollisions::BinaryOutputCollisions(
     const OutputParameters &out_par, const std::vector<std::string> &quantities)
     : BinaryOutputBase(path / get_binary_filename(name, quantities), "wb", name,
                        quantities),
-      print_start_end_(out_par.coll_printstartend) {}
+      print_start_end_(name == "Collisions" && out_par.coll_printstartend) {}
 
 void BinaryOutputCollisions::at_eventstart(const Particles &particles,
                                            const EventLabel &event_label,
-- 
2.43.0


From 6504aaaf8c2daf86263d1ae93d307122ad14a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 06/49] fix: buffers of the text output fit every number

A negative number with a three-digit exponent needs 13 (16) characters plus the
terminating null character. It was cut and a stray character was written, which
truncated the rest of the line and merged it with the following one.
---
 src/include/smash/outputformatter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/outputformatter.h b/src/include/smash/outputformatter.h
index b70339b..05b8bf1 100644
--- a/src/include/smash/outputformatter.h
+++ b/src/include/smash/outputformatter.h
@@ -62,7 +62,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_double(double value) {
-    constexpr size_t kBufferSize = 13;
+    constexpr size_t kBufferSize = 14;
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
@@ -85,7 +85,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_precise_double(double value) {
-    constexpr size_t kBufferSize = 16;
+    constexpr size_t kBufferSize = 17;
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%.9g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
-- 
2.43.0


From 52596ec54c93b6a29c6240bfba96c584789f29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 07/49] fix: values set in or merged into an emptied
 configuration are kept

---
 src/configuration.cc              |  1 +
 src/include/smash/configuration.h | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/configuration.cc b/src/configuration.cc
index 0325c1f..bf7e19f 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -191,6 +191,7 @@ Configuration::~Configuration() noexcept(false) {
 
 void Configuration::merge_yaml(const std::string &yaml) {
   try {
+    make_sure_root_node_exists();
     root_node_ |= YAML::Load(yaml);
   } catch (YAML::ParserException &e) {
     if (e.msg == "illegal map value" || e.msg == "end of map not found") {
diff --git a/src/include/smash/configuration.h b/src/include/smash/configuration.h
index 537616f..7f38e88 100644
--- a/src/include/smash/configuration.h
+++ b/src/include/smash/configuration.h
@@ -689,6 +689,7 @@ class Configuration {
   template <typename T, typename U = remove_cvref_t<T>,
             typename std::enable_if_t<std::is_convertible_v<T, U>, bool> = true>
   void set_value(Key<U> key, T &&value) {
+    make_sure_root_node_exists();
     auto node = find_node_creating_it_if_not_existing(
         {key.labels().begin(), key.labels().end()});
     node = std::forward<T>(value);
@@ -1691,6 +1692,17 @@ class Configuration {
                      labels) != existing_keys_already_taken_.end();
   }
 
+  /**
+   * A reset \c YAML::Node has no memory which its copies could share and,
+   * hence, what is added to a copy of it would be lost. Make sure that this is
+   * not the case for the root node before adding something to the tree.
+   */
+  void make_sure_root_node_exists() {
+    if (root_node_.IsNull()) {
+      root_node_.reset(YAML::Node{YAML::NodeType::Map});
+    }
+  }
+
   /// The general_config.yaml contents - fully parsed
   YAML::Node root_node_{YAML::NodeType::Map};
 
-- 
2.43.0


From db921498b04a75a7edcbe57c3a4cf1612623c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 08/49] fix: no read past the end of key labels when validating
 a configuration

---
 src/configuration.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index bf7e19f..1cd86bc 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -525,7 +525,8 @@ void adjust_list_of_labels_dealing_with_keys_taken_as_maps(
     std::for_each(list_of_input_key_labels.begin(),
                   list_of_input_key_labels.end(),
                   [&labels](KeyLabels &labels_of_input_key) {
-                    if (std::equal(labels.begin(), labels.end(),
+                    if (labels_of_input_key.size() >= labels.size() &&
+                        std::equal(labels.begin(), labels.end(),
                                    labels_of_input_key.begin(),
                                    labels_of_input_key.begin() + labels.size()))
                       labels_of_input_key = labels;
-- 
2.43.0


From 45ccd142e960660a124c0879a72c7a30a00e597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 09/49] fix: documented default of the number of fluidization
 cells

---
 src/include/smash/input_keys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/input_keys.h b/src/include/smash/input_keys.h
index a11b62e..9561fa9 100644
--- a/src/include/smash/input_keys.h
+++ b/src/include/smash/input_keys.h
@@ -4069,7 +4069,7 @@ struct InputKeys {
 
   /*!\Userguide
    * \page doxypage_input_conf_modi_C_initial_conditions
-   * \optional_key_no_line{key_MC_IC_fluid_cells_,Fluidization_Cells,int,80}
+   * \optional_key_no_line{key_MC_IC_fluid_cells_,Fluidization_Cells,int,100}
    *
    * Fixed number of cells in each direction to select fluidizing particles.
    * Ideally the cell should be small enough for a meaningful interpolation,
-- 
2.43.0


From c3ea17adbb609af8054986bc96443b57d4be29dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 10/49] fix: refuse particle codes with digits that do not fit
 their field

---
 src/include/smash/pdgcode.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/pdgcode.h b/src/include/smash/pdgcode.h
index ee5b29a..fe9a734 100644
--- a/src/include/smash/pdgcode.h
+++ b/src/include/smash/pdgcode.h
@@ -1079,6 +1079,10 @@ class PdgCode {
       std::array<int, 8> digits;
       for (int i = 0; i < 8; i++) {
         digits[i] = get_digit_from_char(codestring[c + i]);
+        if (digits[i] > 9) {
+          throw InvalidPdgCode("Pdg code of nucleus \"" + codestring +
+                               "\" should only have decimal digits\n");
+        }
       }
       nucleus_.n_Lambda_ = digits[0];
       nucleus_.Z_ = 100 * digits[1] + 10 * digits[2] + digits[3];
@@ -1132,12 +1136,21 @@ class PdgCode {
     }
     // Last digit is the spin degeneracy.
     if (length > sign) {
-      digits_.n_J_ += get_digit_from_char(codestring[c++]);
+      const std::uint32_t n_J =
+          digits_.n_J_ + get_digit_from_char(codestring[c++]);
+      if (n_J > 15) {
+        throw InvalidPdgCode("Invalid PDG code " + codestring + " (n_J>15)");
+      }
+      digits_.n_J_ = n_J;
     } else {
       throw InvalidPdgCode(
           "String \"" + codestring +
           "\" only consists of a sign, that is no valid PDG Code\n");
     }
+    if (test_code() > 0) {
+      throw InvalidPdgCode("Invalid PDG code " + codestring +
+                           " (excitation digit>9)");
+    }
     check();
   }
 
-- 
2.43.0


From 7c77d19d9a255aa45e3caa41bc3a115b086146aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:13 +0000
Subject: [PATCH 11/49] fix: spin of the third daughter in three-body decay
 modes of multiplets

---
 src/decaymodes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 61df77e..1499b01 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -340,7 +340,7 @@ void DecayModes::load_decaymodes(const std::string &input) {
                      isotype_daughter_3.parity();
             const int s1 = isotype_daughter_1.spin();
             const int s2 = isotype_daughter_2.spin();
-            const int s3 = isotype_daughter_2.spin();
+            const int s3 = isotype_daughter_3.spin();
             min_L = min_angular_momentum(s0, s1, s2, s3);
             max_L = (s0 + s1 + s2 + s3) / 2;
             // loop through multiplets
-- 
2.43.0


From fbf8fb9e7d5aeb27c9b1616a57c0ed19400b50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:13 +0000
Subject: [PATCH 12/49] fix: distinct names and multiplets for anti-bottom
 mesons

---
 src/particletype.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particletype.cc b/src/particletype.cc
index b00ed82..70531c0 100644
--- a/src/particletype.cc
+++ b/src/particletype.cc
@@ -163,9 +163,9 @@ static std::string antiname(const std::string &name, PdgCode code) {
     charge = "";
   }
 
-  // baryons & strange mesons: insert a bar
+  // baryons & strange, charmed or bottom mesons: insert a bar
   if (code.baryon_number() != 0 || code.strangeness() != 0 ||
-      code.charmness() != 0 || code.is_neutrino()) {
+      code.charmness() != 0 || code.bottomness() != 0 || code.is_neutrino()) {
     constexpr char bar[] = "\u0305";
     basename.insert(utf8::sequence_length(basename.begin()), bar);
   }
-- 
2.43.0


From 95231e0749989ad296d0e6048a28aef09e02b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 13/49] fix: refuse decay modes without section or with invalid
 branching ratio

---
 src/decaymodes.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 1499b01..eecaa0d 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -101,6 +101,9 @@ bool DecayModes::renormalize(const std::string &name) {
   for (auto &mode : decay_modes_) {
     sum += mode->weight();
   }
+  if (!decay_modes_.empty() && sum <= 0.) {
+    throw LoadFailure("All branching ratios of " + name + " are zero.");
+  }
   if (std::abs(sum - 1.) < really_small) {
     logg[LDecayModes].debug("Particle ", name,
                             ": Extremely small renormalization constant: ", sum,
@@ -250,6 +253,11 @@ void DecayModes::load_decaymodes(const std::string &input) {
       decay_particles.reserve(3);
       double ratio;
       lineinput >> ratio;
+      if (isotype_mother == nullptr || lineinput.fail() || ratio < 0.) {
+        throw LoadFailure("Invalid decay mode in decaymodes.txt:" +
+                          std::to_string(line.number) + ": '" + line.text +
+                          "'");
+      }
 
       int L;
       lineinput >> L;
-- 
2.43.0


From 31294074be50878e820c3b4bbcc1d8043bc4a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 14/49] fix: minimal angular momentum in decay modes

---
 src/decaymodes.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index eecaa0d..f7f8969 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -9,6 +9,7 @@
 
 #include "smash/decaymodes.h"
 
+#include <algorithm>
 #include <vector>
 
 #include "smash/clebschgordan.h"
@@ -139,9 +140,9 @@ inline std::size_t find_offset(PdgCode pdg) {
 }  // unnamed namespace
 
 static int min_angular_momentum(int s0, int s1, int s2) {
-  int min_L = std::min(std::abs(s0 - s1 - s2), std::abs(s0 - s1 + s2));
-  min_L = std::min(min_L, std::abs(s0 + s1 - s2));
-  if (min_L % 2 != 0) {
+  // L is only needed to the extent that the spins alone cannot add up to zero
+  const int min_L = std::max({0, s0 - s1 - s2, s1 - s0 - s2, s2 - s0 - s1});
+  if ((s0 + s1 + s2) % 2 != 0) {
     throw std::runtime_error(
         "min_angular_momentum: sum of spins should be integer");
   }
@@ -149,14 +150,10 @@ static int min_angular_momentum(int s0, int s1, int s2) {
 }
 
 static int min_angular_momentum(int s0, int s1, int s2, int s3) {
-  int min_L =
-      std::min(std::abs(s0 - s1 + s2 + s3), std::abs(s0 + s1 - s2 + s3));
-  min_L = std::min(min_L, std::abs(s0 + s1 + s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 - s2 + s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 + s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 + s1 - s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 - s2 - s3));
-  if (min_L % 2 != 0) {
+  const int min_L =
+      std::max({0, s0 - s1 - s2 - s3, s1 - s0 - s2 - s3, s2 - s0 - s1 - s3,
+                s3 - s0 - s1 - s2});
+  if ((s0 + s1 + s2 + s3) % 2 != 0) {
     throw std::runtime_error(
         "min_angular_momentum: sum of spins should be integer");
   }
-- 
2.43.0


From 514a7deb2564efa17b8149879a28e032dd7e6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 15/49] fix: refuse decay modes of multiplets that violate
 charge or isospin

---
 src/decaymodes.cc | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index f7f8969..dfa43e2 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -160,6 +160,28 @@ static int min_angular_momentum(int s0, int s1, int s2, int s3) {
   return min_L / 2;
 }
 
+/**
+ * Make sure that a mode generated from isospin multiplets conserves the charge.
+ *
+ * \param[in] mother Decaying particle type
+ * \param[in] daughters Types of the decay products
+ * \param[in] line Line of the input the mode was generated from
+ * \throw InvalidDecay if the charges do not add up
+ */
+static void check_charge(const ParticleType &mother,
+                         const ParticleTypePtrList &daughters,
+                         const Line &line) {
+  int charge = 0;
+  for (const auto &daughter : daughters) {
+    charge += daughter->charge();
+  }
+  if (charge != mother.charge()) {
+    throw DecayModes::InvalidDecay(
+        mother.name() + " decay mode violates charge conservation (line " +
+        std::to_string(line.number) + ": \"" + line.text + "\")");
+  }
+}
+
 void DecayModes::load_decaymodes(const std::string &input) {
   // create the DecayType vector first, then it outlives the DecayModes vector,
   // which references the DecayType objects.
@@ -310,6 +332,8 @@ void DecayModes::load_decaymodes(const std::string &input) {
                   const double cg_sqr = isospin_clebsch_gordan_sqr_2to1(
                       *daughter1, *daughter2, *mother_states[m]);
                   if (cg_sqr > 0.) {
+                    check_charge(*mother_states[m], {daughter1, daughter2},
+                                 line);
                     // add mode
                     logg[LDecayModes].debug(
                         "decay mode generated: " + mother_states[m]->name() +
@@ -349,6 +373,7 @@ void DecayModes::load_decaymodes(const std::string &input) {
             min_L = min_angular_momentum(s0, s1, s2, s3);
             max_L = (s0 + s1 + s2 + s3) / 2;
             // loop through multiplets
+            bool forbidden_by_isospin = true;
             for (size_t m = 0; m < mother_states.size(); m++) {
               for (const auto &daughter1 : isotype_daughter_1.get_states()) {
                 for (const auto &daughter2 : isotype_daughter_2.get_states()) {
@@ -357,6 +382,8 @@ void DecayModes::load_decaymodes(const std::string &input) {
                     const double cg_sqr = isospin_clebsch_gordan_sqr_3to1(
                         *daughter1, *daughter2, *daughter3, *mother_states[m]);
                     if (cg_sqr > 0.) {
+                      check_charge(*mother_states[m],
+                                   {daughter1, daughter2, daughter3}, line);
                       // add mode
                       logg[LDecayModes].debug(
                           "decay mode generated: " + mother_states[m]->name() +
@@ -366,11 +393,17 @@ void DecayModes::load_decaymodes(const std::string &input) {
                       decay_modes_to_add[m].add_mode(
                           mother_states[m], ratio * cg_sqr, L,
                           {daughter1, daughter2, daughter3});
+                      forbidden_by_isospin = false;
                     }
                   }
                 }
               }
             }
+            if (forbidden_by_isospin) {
+              throw InvalidDecay(isotype_mother->name() +
+                                 " decay mode is forbidden by isospin: \"" +
+                                 line.text + "\"");
+            }
             break;
           }
           default:
-- 
2.43.0


From 8f8fdf374e8220b6b90a682a229a316cacc30e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 16/49] fix: a multiplet with its antiparticles is not its own
 antimultiplet

---
 src/isoparticletype.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/isoparticletype.cc b/src/isoparticletype.cc
index 4387084..b77a80b 100644
--- a/src/isoparticletype.cc
+++ b/src/isoparticletype.cc
@@ -105,7 +105,7 @@ static std::string multiplet_name(std::string name) {
 const IsoParticleType *IsoParticleType::anti_multiplet() const {
   if (states_[0]->has_antiparticle()) {
     ParticleTypePtr anti = states_[0]->get_antiparticle();
-    if (states_[0]->name() != multiplet_name(anti->name())) {
+    if (name_ != multiplet_name(anti->name())) {
       return anti->iso_multiplet();
     } else {
       return nullptr;
-- 
2.43.0


From ab8c2cd15e6fc621b8869690f456fa7697727448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 17/49] fix: list modus skipped remaining events of fewer than
 five lines

---
 src/listmodus.cc | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 25a30f9..be2de0d 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -398,28 +398,21 @@ bool ListModus::file_has_events_(std::filesystem::path filepath,
     return false;
   }
   ifs.seekg(last_position);
-  // skip over comment lines, assume that a max. of four consecutive comment
-  // lines can occur
-  int skipped_lines = 0;
-  const int max_comment_lines = 4;
-  while (std::getline(ifs, line) && line[0] != '#' &&
-         skipped_lines++ < max_comment_lines) {
-  }
-
-  if (ifs.eof()) {
-    return false;
+  // everything but blank lines belongs to a further event
+  while (std::getline(ifs, line)) {
+    if (line.find_first_not_of(" \t\r") != std::string::npos) {
+      return true;
+    }
   }
 
-  if (!ifs.good()) {
+  if (ifs.bad()) {
     if (verbose_) {
       logg[LList].fatal() << "Error while reading "
                           << filepath.filename().native();
     }
     throw std::runtime_error("Error while reading external particle list");
   }
-
-  ifs.close();
-  return true;
+  return false;
 }
 
 /* In this method, which is called from the constructor only, we "abuse" of the
-- 
2.43.0


From 49bb8418755be6612afba20d750828aa7e9df8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 18/49] fix: name the spin columns of list input in the user
 guide as they are read

---
 src/include/smash/input_keys.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/input_keys.h b/src/include/smash/input_keys.h
index 9561fa9..aa79468 100644
--- a/src/include/smash/input_keys.h
+++ b/src/include/smash/input_keys.h
@@ -4766,9 +4766,9 @@ struct InputKeys {
    * - "pdg_mother1" &rarr; Parent of the particle.
    * - "pdg_mother2" &rarr; Second parent of the particle.
    * - "spin0" &rarr; 0-th component of the spin vector.
-   * - "spin1" &rarr; 1-st component of the spin vector.
-   * - "spin2" &rarr; 2-nd component of the spin vector.
-   * - "spin3" &rarr; 3-rd component of the spin vector.
+   * - "spinx" &rarr; 1-st component of the spin vector.
+   * - "spiny" &rarr; 2-nd component of the spin vector.
+   * - "spinz" &rarr; 3-rd component of the spin vector.
    * - "perturbative_weight" &rarr; weight for treating heavy flavor hadrons
    * perturbatively.
    *
-- 
2.43.0


From 9694ead670ea0927e91bee41e5bd4e3320fd0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 19/49] fix: wrap particles further than one length outside of
 the box

---
 src/include/smash/algorithms.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/include/smash/algorithms.h b/src/include/smash/algorithms.h
index 0c1b746..f4b1e8b 100644
--- a/src/include/smash/algorithms.h
+++ b/src/include/smash/algorithms.h
@@ -35,12 +35,9 @@ namespace smash {
  * Enforces periodic boundaries on the given collection of values.
  *
  * The values in an arbitrary container, starting from \p begin and ending at \p
- * end, will be checked. If the value is less than 0, \p length will be added to
- * it. If the value is greater than or equal to \p length, \p length will be
- * subtracted from it.
- *
- * The implementation therefore assumes that the values are at most one \p
- * length away from the 0 to \p length range.
+ * end, will be checked. If the value is less than 0 or greater than or equal to
+ * \p length, the multiple of \p length will be added or subtracted that brings
+ * it into the 0 to \p length range.
  *
  * \tparam Iterator Type of the iterator.
  * \param begin Iterator pointing to the first value to check.
@@ -56,12 +53,12 @@ static bool enforce_periodic_boundaries(
   bool had_to_wrap = false;
   for (; begin != end; ++begin) {
     auto &x = *begin;
-    if (x < 0) {
-      had_to_wrap = true;
-      x += length;
-    } else if (x >= length) {
+    if (x < 0 || x >= length) {
       had_to_wrap = true;
-      x -= length;
+      x = std::fmod(x, length);
+      if (x < 0) {
+        x += length;
+      }
     }
   }
   return had_to_wrap;
-- 
2.43.0


From d415ecbea060211babc9cad24dfa83ed1329d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:40 +0000
Subject: [PATCH 20/49] fix: find wall crossings of unformed particles

---
 src/include/smash/experiment.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 81a1e93..bc9735d 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2574,9 +2574,9 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
         const double min_cell_length = compute_min_cell_length(dt);
         logg[LExperiment].debug("Creating grid with minimal cell length ",
                                 min_cell_length);
-        /* For the hyper-surface-crossing actions also unformed particles are
-         * searched and therefore needed on the grid. */
-        const bool include_unformed_particles = IC_switch_;
+        /* For the hyper-surface-crossing and wall-crossing actions also
+         * unformed particles are searched and therefore needed on the grid. */
+        const bool include_unformed_particles = IC_switch_ || modus_.is_box();
         const auto &grid =
             use_grid_ ? modus_.create_grid(ensembles_[i_ens], min_cell_length,
                                            dt, parameters_.coll_crit,
-- 
2.43.0


From bfb905a356b65ed1ce621ed610c13da67f6b3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:31 +0000
Subject: [PATCH 21/49] fix: obey Decay_Initial_Particles

---
 src/include/smash/decayactionsfinder.h | 12 ++++++++----
 src/include/smash/experiment.h         |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/include/smash/decayactionsfinder.h b/src/include/smash/decayactionsfinder.h
index a41ea05..b41cad5 100644
--- a/src/include/smash/decayactionsfinder.h
+++ b/src/include/smash/decayactionsfinder.h
@@ -33,15 +33,20 @@ class DecayActionsFinder : public ActionFinderInterface {
    * \param[in] do_non_strong_decays whether to do non-strong decays at the end
    * \param[in] force_decays_at_end whether to enforce decays at the end
    * \param[in] spin_interaction_type Which type of spin interaction to use
+   * \param[in] decay_initial_particles whether particles can decay before their
+   *                                    first collision
    */
   explicit DecayActionsFinder(
       double res_lifetime_factor, bool do_non_strong_decays,
       bool force_decays_at_end,
-      SpinInteractionType spin_interaction_type = SpinInteractionType::Off)
+      SpinInteractionType spin_interaction_type = SpinInteractionType::Off,
+      bool decay_initial_particles =
+          InputKeys::collTerm_decayInitial.default_value())
       : res_lifetime_factor_(res_lifetime_factor),
         do_final_non_strong_decays_(do_non_strong_decays),
         find_final_decays_(force_decays_at_end),
-        spin_interaction_type_(spin_interaction_type) {}
+        spin_interaction_type_(spin_interaction_type),
+        decay_initial_particles_(decay_initial_particles) {}
 
   /**
    * Check the whole particle list for decays.
@@ -92,8 +97,7 @@ class DecayActionsFinder : public ActionFinderInterface {
    * Whether to initial state particles can decay. Useful for analyzing
    * interactions involving one or more resonances.
    */
-  const bool decay_initial_particles_ =
-      InputKeys::collTerm_decayInitial.default_value();
+  const bool decay_initial_particles_;
 };
 
 }  // namespace smash
diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index bc9735d..bfca91a 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -1056,7 +1056,8 @@ Experiment<Modus>::Experiment(Configuration &config,
     }
     action_finders_.emplace_back(std::make_unique<DecayActionsFinder>(
         parameters_.res_lifetime_factor, parameters_.do_non_strong_decays,
-        force_decays_, parameters_.spin_interaction_type));
+        force_decays_, parameters_.spin_interaction_type,
+        parameters_.decay_initial_particles));
   }
   bool no_coll = config.take(InputKeys::collTerm_noCollisions);
   if ((parameters_.two_to_one || parameters_.included_2to2.any() ||
-- 
2.43.0


From 43c51bf198a0b6f4c20a0ca36b0cf2ca95336d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:06 +0000
Subject: [PATCH 22/49] fix: find particles that cross the hypersurface in an
 interval starting at negative times

---
 src/hypersurfacecrossingfinder.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/hypersurfacecrossingfinder.cc b/src/hypersurfacecrossingfinder.cc
index 0c23bef..666ab2e 100644
--- a/src/hypersurfacecrossingfinder.cc
+++ b/src/hypersurfacecrossingfinder.cc
@@ -119,16 +119,14 @@ bool HyperSurfaceCrossActionsFinder::crosses_hypersurface(
     ParticleData &pdata_before_propagation,
     ParticleData &pdata_after_propagation, const double tau) const {
   bool hypersurface_is_crossed = false;
+  /* The hypersurface lies in the future light cone of the origin; at negative
+   * times no particle can have crossed it yet. */
   const bool t_greater_z_before_prop =
-      (std::fabs(pdata_before_propagation.position().x0()) >
-               std::fabs(pdata_before_propagation.position().x3())
-           ? true
-           : false);
+      pdata_before_propagation.position().x0() >
+      std::fabs(pdata_before_propagation.position().x3());
   const bool t_greater_z_after_prop =
-      (std::fabs(pdata_after_propagation.position().x0()) >
-               std::fabs(pdata_after_propagation.position().x3())
-           ? true
-           : false);
+      pdata_after_propagation.position().x0() >
+      std::fabs(pdata_after_propagation.position().x3());
 
   if (t_greater_z_before_prop && t_greater_z_after_prop) {
     // proper time before and after propagation
-- 
2.43.0


From ae51655a62f173acae5af5a5188c4a9e6635775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 23/49] fix: use the mass of the projectile for its energy with
 kinetic energies of both beams

---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 363caf9..0c36cd6 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -251,7 +251,7 @@ inline double s_from_Ekin(double e_kin, double m_P, double m_T) {
  */
 inline double s_from_Ekin(double e_kin_p, double e_kin_t, double m_p,
                           double m_t) {
-  return s_from_Etot(e_kin_p + m_t, e_kin_t + m_t, m_p, m_t);
+  return s_from_Etot(e_kin_p + m_p, e_kin_t + m_t, m_p, m_t);
 }
 /**
  * Convert p_lab to Mandelstam-s for a fixed-target setup,
-- 
2.43.0


From ae4b1f517c7d91d28eda2c10d9b6ce1d69fe2842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 24/49] fix: give masses, not momenta, as masses for collisions
 of beams with given momenta

---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 0c36cd6..0a37617 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -278,7 +278,7 @@ inline double s_from_plab(double plab, double m_P, double m_T) {
 inline double s_from_plab(double plab_p, double plab_t, double m_p,
                           double m_t) {
   return s_from_Etot(std::sqrt(m_p * m_p + plab_p * plab_p),
-                     std::sqrt(m_t * m_t + plab_t * plab_t), plab_p, plab_t);
+                     std::sqrt(m_t * m_t + plab_t * plab_t), m_p, m_t);
 }
 
 }  // namespace smash
-- 
2.43.0


From f337c46c39e6b224ef01d8d57202f3c6e8e9f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 25/49] fix: take total energies of both beams as total
 energies for the nucleon-nucleon energy

---
 src/collidermodus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index d54d0b4..6e11e33 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -181,7 +181,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
     total_s_ = s_from_Etot(e_tot_p * projectile_->number_of_particles(),
                            e_tot_t * target_->number_of_particles(),
                            mass_projec, mass_target);
-    sqrt_s_NN_ = std::sqrt(s_from_Ekin(e_tot_p, e_tot_t, mass_a, mass_b));
+    sqrt_s_NN_ = std::sqrt(s_from_Etot(e_tot_p, e_tot_t, mass_a, mass_b));
     energy_input++;
   }
   // Option 6: Kinetic energy per nucleon of _each_ beam
-- 
2.43.0


From 0f8eadb0fef0b3a35eb03fc19cad5c3afd4bdd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 26/49] fix: keep nucleons of custom nuclei assigned to
 projectile and target after the first event

---
 src/customnucleus.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index cfff3bb..b32c2d2 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -92,6 +92,9 @@ CustomNucleus::CustomNucleus(Configuration& config, int testparticles,
 }
 
 void CustomNucleus::fill_from_list(const std::vector<Nucleoncustom>& vec) {
+  // Keep the information to which nucleus the nucleons belong
+  const BelongsTo label =
+      particles_.empty() ? BelongsTo::Nothing : particles_.front().belongs_to();
   particles_.clear();
   index_ = 0;
   // checking if particle is proton or neutron
@@ -111,6 +114,7 @@ void CustomNucleus::fill_from_list(const std::vector<Nucleoncustom>& vec) {
     double current_mass = current_type.mass();
     particles_.emplace_back(current_type);
     particles_.back().set_4momentum(current_mass, 0.0, 0.0, 0.0);
+    particles_.back().set_belongs_to(label);
   }
 }
 
-- 
2.43.0


From e8c6cc5472c56fd68435da3a4ca1e5e287c40635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 27/49] fix: do not skip the last nucleon of a custom nuclei
 file that does not end with a newline

---
 src/customnucleus.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index b32c2d2..fc356ad 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -184,9 +184,8 @@ std::vector<Nucleoncustom> CustomNucleus::readfile(
   std::vector<Nucleoncustom> custom_nucleus;
   // read in only A particles for one nucleus
   for (int i = 0; i < number_of_nucleons_; ++i) {
-    std::getline(infile, line);
     // make sure the stream goes back to the beginning when it hits end of file
-    if (infile.eof()) {
+    if (!std::getline(infile, line) && infile.eof()) {
       infile.clear();
       infile.seekg(0, infile.beg);
       std::getline(infile, line);
-- 
2.43.0


From c3525a7d9b6b560a3313d38200eb7ef2bac5c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 28/49] fix: open the shared file of custom nuclei anew for
 each collider

---
 src/customnucleus.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index fc356ad..eb0305e 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -71,11 +71,11 @@ CustomNucleus::CustomNucleus(Configuration& config, int testparticles,
   }
   /*
    * "if" statement makes sure the streams to the file are initialized
-   * properly.
+   * properly. The projectile is set up first and has to open the file anew.
    */
   const std::string path =
       file_path(particle_list_file_directory, particle_list_file_name);
-  if (same_file && !filestream_shared_) {
+  if (same_file && (is_projectile || !filestream_shared_)) {
     filestream_shared_ = std::make_unique<std::ifstream>(path);
     used_filestream_ = &filestream_shared_;
   } else if (!same_file) {
-- 
2.43.0


From 1e9b57318d9f1d85d47e2f86a5be1d3fdaea0e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 29/49] fix: make the total momentum of a sphere with radial
 velocity zero

---
 src/spheremodus.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index 6778a72..6cae8cd 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -254,6 +254,7 @@ double SphereModus::initial_conditions(Particles *particles,
    * u_r = u_0 * (r / R)^n
    */
   if (radial_velocity_ > 0.0) {
+    momentum_total = FourVector(0, 0, 0, 0);
     for (ParticleData &data : *particles) {
       double particle_radius = std::sqrt(data.position().sqr3());
       auto e_r = data.position().threevec() / particle_radius;
-- 
2.43.0


From 1a1a49d1f2b9a9b4279a77464f75b3487824e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 30/49] fix: count test particles of custom nuclei as such

---
 src/customnucleus.cc        | 1 +
 src/include/smash/nucleus.h | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index eb0305e..13caac0 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -49,6 +49,7 @@ CustomNucleus::CustomNucleus(Configuration& config, int testparticles,
         "external file."
         "Something went wrong. Please check your config.");
   }
+  testparticles_ = testparticles;
   /*
    * Counts number of nucleons in one nucleus as it is specialized
    * by the user in the config file.
diff --git a/src/include/smash/nucleus.h b/src/include/smash/nucleus.h
index 7fd2b9b..723d1be 100644
--- a/src/include/smash/nucleus.h
+++ b/src/include/smash/nucleus.h
@@ -274,8 +274,6 @@ class Nucleus {
    * \see default_nuclear_radius
    */
   double proton_radius_ = 1.2;
-  /// Number of testparticles per physical particle
-  size_t testparticles_ = 1;
 
   /// Set unpolarized spin vectors for all particles in the nucleus
   void make_nucleus_unpolarized() {
@@ -285,6 +283,8 @@ class Nucleus {
   }
 
  protected:
+  /// Number of testparticles per physical particle
+  size_t testparticles_ = 1;
   /// Particles associated with this nucleus.
   std::vector<ParticleData> particles_;
 
-- 
2.43.0


From a6fb0073f9f4344a92b6decb0b392cca0ee297d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:50 +0000
Subject: [PATCH 31/49] fix: let single particles with test particles collide
 without floating point overflow

---
 src/nucleus.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nucleus.cc b/src/nucleus.cc
index 2c66eec..b663442 100644
--- a/src/nucleus.cc
+++ b/src/nucleus.cc
@@ -557,7 +557,10 @@ double Nucleus::nucleon_density(double r, double, double) const {
 }
 
 double Nucleus::nucleon_density_unnormalized(double r, double, double) const {
-  return 1.0 / (std::exp((r - nuclear_radius_) / diffusiveness_) + 1.);
+  const double x = (r - nuclear_radius_) / diffusiveness_;
+  // Far outside, in particular for the very small diffusiveness of a single
+  // particle with test particles, the exponential would overflow
+  return x > 700. ? 0. : 1.0 / (std::exp(x) + 1.);
 }
 
 double Nucleus::calculate_saturation_density() const {
-- 
2.43.0


From fbe11cf745988971bf7c11973f60e0a415bef25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:39 +0000
Subject: [PATCH 32/49] fix: determine beam momenta of frozen nuclei anew for
 each event

---
 src/include/smash/experiment.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index bfca91a..160dd82 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2241,6 +2241,8 @@ void Experiment<Modus>::initialize_new_event() {
    * for every ensemble.
    */
   if (modus_.is_collider() && modus_.fermi_motion() == FermiMotion::Frozen) {
+    // Forget the beam momenta of the previous event
+    beam_momentum_.clear();
     for (ParticleData &particle : ensembles_[0]) {
       const double m = particle.effective_mass();
       double v_beam = 0.0;
-- 
2.43.0


From 9c9f36af928d8bdc7dfadb6f0a8e0bb729a36d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:15 +0000
Subject: [PATCH 33/49] fix: do not share an integration workspace between
 nested integrals of widths and spectral functions

---
 src/decaytype.cc    | 5 ++++-
 src/particletype.cc | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decaytype.cc b/src/decaytype.cc
index 7206bc8..1646575 100644
--- a/src/decaytype.cc
+++ b/src/decaytype.cc
@@ -140,7 +140,6 @@ double TwoBodyDecaySemistable::get_Lambda() {
 
 /// Number of tabulation points.
 constexpr size_t num_tab_pts = 200;
-static /*thread_local (see #3075)*/ Integrator integrate;
 
 double TwoBodyDecaySemistable::rho(double mass) const {
   if (tabulation_ == nullptr) {
@@ -150,6 +149,9 @@ double TwoBodyDecaySemistable::rho(double mass) const {
     const double tabulation_interval = std::max(2., 10. * res->width_at_pole());
     const double m_stable = particle_types_[0]->mass();
     const double mres_min = res->min_mass_kinematic();
+    /* The integrand might need other tabulations that are filled on this
+     * occasion, hence the integrator must not be shared. */
+    Integrator integrate;
 
     tabulation_ = std::make_unique<Tabulation>(
         threshold(), tabulation_interval, num_tab_pts, [&](double sqrts) {
@@ -467,6 +469,7 @@ double ThreeBodyDecayDilepton::width(double, double G0, double m) const {
     // integrate differential width to obtain partial width
     double M0 = mother_->mass();
     double G0tot = mother_->width_at_pole();
+    Integrator integrate;
     tabulation_ = std::make_unique<Tabulation>(
         m_other + 2 * m_l, M0 + 10 * G0tot, num_tab_pts, [&](double m_parent) {
           const double bottom = 2 * m_l;
diff --git a/src/particletype.cc b/src/particletype.cc
index 70531c0..f33bf30 100644
--- a/src/particletype.cc
+++ b/src/particletype.cc
@@ -571,7 +571,9 @@ double ParticleType::spectral_function(double m) const {
   if (norm_factor_ < 0.) {
     /* Initialize the normalization factor
      * by integrating over the unnormalized spectral function. */
-    static /*thread_local (see #3075)*/ Integrator integrate;
+    /* The integrand might need other spectral functions that are normalized on
+     * this occasion, hence the integrator must not be shared. */
+    Integrator integrate;
     const double width = width_at_pole();
     const double m_pole = mass();
     // We transform the integral using m = m_min + width_pole * tan(x), to
-- 
2.43.0


From aa2981b033402eb6744c0c8514d9f484caf854c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 34/49] fix: do not present incompletely written output as
 complete, and survive failing files

Output files were renamed to their final name even if writing or closing them
had failed (e.g. on a full disk), a file that could not be opened led to a
segmentation fault, and a file that could not be closed or renamed terminated
the program in a destructor, leaving its lock behind.
---
 src/file.cc              | 36 +++++++++++++++++++++++++++++++++---
 src/include/smash/file.h | 14 +++++---------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/file.cc b/src/file.cc
index 006cada..e32f0ad 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -9,8 +9,23 @@
 
 #include "smash/file.h"
 
+#include <cerrno>
+#include <cstring>
+#include <stdexcept>
+#include <system_error>
+
+#include "smash/logging.h"
+
 namespace smash {
 
+static constexpr int LOutput = LogArea::Output::id;
+
+void FileDeleter::operator()(std::FILE* f) const {
+  if (f != nullptr && std::fclose(f) != 0) {
+    logg[LOutput].error("Could not close a file: ", std::strerror(errno));
+  }
+}
+
 FilePtr fopen(const std::filesystem::path& filename, const std::string& mode) {
   FilePtr f{std::fopen(filename.c_str(), mode.c_str())};
   return f;
@@ -22,16 +37,31 @@ RenamingFilePtr::RenamingFilePtr(const std::filesystem::path& filename,
   filename_unfinished_ = filename;
   filename_unfinished_ += ".unfinished";
   file_ = std::fopen(filename_unfinished_.c_str(), mode.c_str());
+  if (file_ == nullptr) {
+    throw std::runtime_error("Could not open \"" +
+                             filename_unfinished_.native() + "\".");
+  }
 }
 
 FILE* RenamingFilePtr::get() { return file_; }
 
 RenamingFilePtr::~RenamingFilePtr() {
-  std::fclose(file_);
+  // writing can fail any time (e.g. because the disk is full), also when the
+  // buffer is written while closing the file
+  const bool failed = std::ferror(file_) != 0;
+  const bool complete = std::fclose(file_) == 0 && !failed;
   // we rename the output file only if we are not unwinding the stack
-  // because of an exception
+  // because of an exception and if all of it has been written
   if (std::uncaught_exceptions() == uncaught_exceptions_) {
-    std::filesystem::rename(filename_unfinished_, filename_);
+    std::error_code error;
+    if (complete) {
+      std::filesystem::rename(filename_unfinished_, filename_, error);
+    }
+    if (!complete || error) {
+      logg[LOutput].error("Output could not be written completely to \"",
+                          filename_.native(), "\". See \"",
+                          filename_unfinished_.native(), "\".");
+    }
   }
 }
 
diff --git a/src/include/smash/file.h b/src/include/smash/file.h
index 80a4a33..ac0baad 100644
--- a/src/include/smash/file.h
+++ b/src/include/smash/file.h
@@ -36,18 +36,14 @@ struct FileDeleter {
   constexpr FileDeleter() = default;
 
   /** Frees the std::FILE resource if it is non-zero.
+   *
+   * A failure to close the file (e.g. because the disk is full) is only
+   * reported: this is called by the destructor of std::unique_ptr, where an
+   * exception would terminate the program without any cleaning up.
    *
    * \param[in] f File resource.
-   * \throws runtime_error if the file could not get closed.
    */
-  void operator()(std::FILE* f) const {
-    if (f == nullptr) {
-      return;
-    }
-    if (0 != std::fclose(f)) {
-      throw std::runtime_error(std::strerror(errno));
-    }
-  }
+  void operator()(std::FILE* f) const;
 };
 
 /**
-- 
2.43.0


From 354b141b84ee62c5db536d420f6c342f10921b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 35/49] fix: report VTK files which cannot be opened instead of
 crashing

---
 src/vtkoutput.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vtkoutput.cc b/src/vtkoutput.cc
index affe14e..2e7b6e0 100644
--- a/src/vtkoutput.cc
+++ b/src/vtkoutput.cc
@@ -103,6 +103,10 @@ void VtkOutput::write(const Particles &particles) {
            current_event_, current_ensemble_,
            vtk_output_counter_[counter_key()]);
   FilePtr file_{std::fopen((base_path_ / filename).native().c_str(), "w")};
+  if (!file_) {
+    throw std::runtime_error("Could not open \"" +
+                             (base_path_ / filename).native() + "\".");
+  }
 
   /* Legacy VTK file format */
   std::fprintf(file_.get(), "# vtk DataFile Version 2.0\n");
-- 
2.43.0


From f1143820ac193e6cfb1b5ced750fdb38cacd2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 36/49] fix: do not open output files when only dumping
 resonance properties

They destroyed the unfinished output of a run in the same directory.
---
 src/smash.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/smash.cc b/src/smash.cc
index ef10fd7..24566b5 100644
--- a/src/smash.cc
+++ b/src/smash.cc
@@ -581,6 +581,11 @@ int main(int argc, char *argv[]) {
       // Ignore config values that don't make sense.
       initialize_particles_decays_and_tabulations(configuration, version,
                                                   tabulations_path);
+      // Nothing is simulated: do not open any output, which might destroy what
+      // another instance is just writing.
+      if (configuration.has_section(InputSections::output)) {
+        configuration.extract_sub_configuration(InputSections::output).clear();
+      }
       const auto _dummy = ExperimentBase::create(configuration, output_path);
       ignore_simulation_config_values(configuration);
       check_for_unused_config_values(configuration);
-- 
2.43.0


From 0d970aef0f3204757834b696f5b2e884376bd5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 37/49] fix: ignore settings which only concern simulations
 when dumping cross sections

---
 src/smash.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/smash.cc b/src/smash.cc
index 24566b5..08e07c0 100644
--- a/src/smash.cc
+++ b/src/smash.cc
@@ -349,11 +349,22 @@ void ignore_simulation_config_values(Configuration &configuration) {
   for (const auto &section :
        {InputSections::modi, InputSections::general, InputSections::output,
         InputSections::lattice, InputSections::potentials,
-        InputSections::forcedThermalization}) {
+        InputSections::forcedThermalization, InputSections::c_pauliBlocking,
+        InputSections::c_dileptons, InputSections::c_photons}) {
     if (configuration.has_section(section)) {
       configuration.extract_sub_configuration(section).clear();
     }
   }
+  for (const auto &key : {InputKeys::collTerm_forceDecaysAtEnd,
+                          InputKeys::collTerm_noCollisions}) {
+    if (configuration.has_value(key)) {
+      configuration.take(key);
+    }
+  }
+  if (configuration.has_value(
+          InputKeys::collTerm_stringParam_powerParticleFormation)) {
+    configuration.take(InputKeys::collTerm_stringParam_powerParticleFormation);
+  }
 }
 
 }  // unnamed namespace
-- 
2.43.0


From a0eaad6c1ff98491520efdfadc5bb70046da16b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:03 +0000
Subject: [PATCH 38/49] fix: do not use damaged or incompletely written
 tabulations

---
 src/tabulation.cc | 48 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/tabulation.cc b/src/tabulation.cc
index 10d49fc..044a070 100644
--- a/src/tabulation.cc
+++ b/src/tabulation.cc
@@ -72,7 +72,7 @@ static void swrite(std::ofstream& stream, double x) {
  * \return Read value.
  */
 static double sread_double(std::ifstream& stream) {
-  double x;
+  double x = 0.0;
   stream.read(reinterpret_cast<char*>(&x), sizeof(x));
   return x;
 }
@@ -98,7 +98,7 @@ static void swrite(std::ofstream& stream, size_t x) {
  * \return Read value.
  */
 static size_t sread_size(std::ifstream& stream) {
-  uint64_t x;
+  uint64_t x = 0;
   stream.read(reinterpret_cast<char*>(&x), sizeof(x));
   if (x > std::numeric_limits<size_t>::max()) {
     throw std::runtime_error("trying to read vector larger than supported");
@@ -123,12 +123,23 @@ static void swrite(std::ofstream& stream, const std::vector<double> x) {
 /**
  * Read binary representation of a vector of doubles.
  *
+ * If there is less data in the stream than the vector should have, the stream
+ * is put into an error state and an empty vector is returned.
+ *
  * \param[in] stream Input stream.
  * \return Read value.
  */
 static std::vector<double> sread_vector(std::ifstream& stream) {
   const size_t n = sread_size(stream);
   std::vector<double> x;
+  const auto position = stream.tellg();
+  stream.seekg(0, std::ios::end);
+  const auto end = stream.tellg();
+  stream.seekg(position);
+  if (!stream || n > static_cast<uint64_t>(end - position) / sizeof(double)) {
+    stream.setstate(std::ios::failbit);
+    return x;
+  }
   x.resize(n);
   stream.read(reinterpret_cast<char*>(x.data()), sizeof(double) * n);
   return x;
@@ -153,29 +164,58 @@ static void swrite(std::ofstream& stream, sha256::Hash x) {
  * \return Read value.
  */
 static sha256::Hash sread_hash(std::ifstream& stream) {
-  sha256::Hash x;
+  sha256::Hash x{};
   stream.read(reinterpret_cast<char*>(x.data()), x.size());
   return x;
 }
 
+/**
+ * Calculate the checksum of a stored tabulation, which allows to recognize
+ * damaged or incompletely written files.
+ *
+ * \param[in] hash Hash of the properties the tabulation depends on.
+ * \param[in] numbers Lower and upper bound and inverse step size.
+ * \param[in] values Tabulated values.
+ * \return Hash of all the given data.
+ */
+static sha256::Hash checksum(const sha256::Hash& hash,
+                             const std::vector<double>& numbers,
+                             const std::vector<double>& values) {
+  sha256::Context context;
+  context.update(hash.data(), hash.size());
+  for (const auto& x : {numbers, values}) {
+    context.update(reinterpret_cast<const uint8_t*>(x.data()),
+                   sizeof(double) * x.size());
+  }
+  return context.finalize();
+}
+
 void Tabulation::write(std::ofstream& stream, sha256::Hash hash) const {
   swrite(stream, hash);
   swrite(stream, x_min_);
   swrite(stream, x_max_);
   swrite(stream, inv_dx_);
   swrite(stream, values_);
+  swrite(stream, checksum(hash, {x_min_, x_max_, inv_dx_}, values_));
 }
 
 Tabulation Tabulation::from_file(std::ifstream& stream, sha256::Hash hash) {
   sha256::Hash hash_from_stream = sread_hash(stream);
   Tabulation t;
-  if (hash != hash_from_stream) {
+  if (!stream || hash != hash_from_stream) {
     return t;
   }
   t.x_min_ = sread_double(stream);
   t.x_max_ = sread_double(stream);
   t.inv_dx_ = sread_double(stream);
   t.values_ = sread_vector(stream);
+  const sha256::Hash stored_checksum = sread_hash(stream);
+  if (!stream ||
+      stored_checksum !=
+          checksum(hash, {t.x_min_, t.x_max_, t.inv_dx_}, t.values_)) {
+    // Incomplete or damaged data are treated like no data at all.
+    return Tabulation();
+  }
   return t;
 }
 
-- 
2.43.0


From 802a612d90f2ec4b6c06da44681d785be08a9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:33 +0000
Subject: [PATCH 39/49] fix: integral over rho h1 does not depend on the order
 of the resonances

The integral for the reverse NNbar annihilation was taken from the tabulation
of rho rho if the rho was given as first and the h1 as second resonance.
---
 src/isoparticletype.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/isoparticletype.cc b/src/isoparticletype.cc
index b77a80b..1475e7b 100644
--- a/src/isoparticletype.cc
+++ b/src/isoparticletype.cc
@@ -354,10 +354,9 @@ double IsoParticleType::get_integral_RR(IsoParticleType *type_res_2,
     return XS_rhoR_tabulation_->get_value_linear(sqrts);
   }
   if (type_res_2->name() == "h₁(1170)") {
-    if (XS_rhoR_tabulation_ == nullptr) {
-      XS_rhoR_tabulation_ = &rhoR_tabulations.at(res->name());
-    }
-    return XS_rhoR_tabulation_->get_value_linear(sqrts);
+    /* The tabulation is stored under the name of the partner of the ρ. It must
+     * not be kept in XS_rhoR_tabulation_, which for the ρ refers to ρρ. */
+    return rhoR_tabulations.at(type_res_2->name()).get_value_linear(sqrts);
   }
   std::stringstream err;
   err << "RR=" << name() << type_res_2->name() << " is not implemented";
-- 
2.43.0


From ac3a3b366f6fb69910a14defd51971c05a79afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:33 +0000
Subject: [PATCH 40/49] fix: inelastic scatterings of light nuclei conserve
 strangeness

With tritons and hypertritons in the particle list, they were turned into each
other by scattering with nucleons.
---
 src/crosssections.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crosssections.cc b/src/crosssections.cc
index 77c4ba4..1e72915 100644
--- a/src/crosssections.cc
+++ b/src/crosssections.cc
@@ -2403,7 +2403,8 @@ CollisionBranchList CrossSections::dpi_xx(
       // Elastic collisions are treated in a different function
       if (produced_nucleus == &type_nucleus ||
           produced_nucleus->charge() != type_nucleus.charge() ||
-          produced_nucleus->baryon_number() != type_nucleus.baryon_number()) {
+          produced_nucleus->baryon_number() != type_nucleus.baryon_number() ||
+          produced_nucleus->strangeness() != type_nucleus.strangeness()) {
         continue;
       }
       const double xsection =
@@ -2472,7 +2473,8 @@ CollisionBranchList CrossSections::dn_xx(
     // No elastic collisions for now, respect conservation laws
     if (produced_nucleus == &type_nucleus ||
         produced_nucleus->charge() != type_nucleus.charge() ||
-        produced_nucleus->baryon_number() != type_nucleus.baryon_number()) {
+        produced_nucleus->baryon_number() != type_nucleus.baryon_number() ||
+        produced_nucleus->strangeness() != type_nucleus.strangeness()) {
       continue;
     }
     const double xsection = xs_dn_dprimen(
-- 
2.43.0


From 977bd990c8494fbb89cb7dd53c4e67a92a92faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:23 +0000
Subject: [PATCH 41/49] fix: total cross section of pi+ p is not negative near
 the threshold

---
 src/parametrizations.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parametrizations.cc b/src/parametrizations.cc
index aa97162..ac474ec 100644
--- a/src/parametrizations.cc
+++ b/src/parametrizations.cc
@@ -9,6 +9,7 @@
 
 #include "smash/parametrizations.h"
 
+#include <algorithm>
 #include <cmath>
 #include <initializer_list>
 #include <iostream>
@@ -150,7 +151,8 @@ double piplusp_total(double sqrts) {
   }
   const double last = *(PIPLUSP_TOT_SQRTS.end() - 1);
   if (sqrts < last)
-    return (*piplusp_total_interpolation)(sqrts);
+    // the extrapolation to the threshold must not get negative
+    return std::max(0., (*piplusp_total_interpolation)(sqrts));
   else
     return piplusp_high_energy(sqrts * sqrts);
 }
-- 
2.43.0


From 72b99fe5ac4063ec57e601b8ddbbd7aeb92d96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:32 +0000
Subject: [PATCH 42/49] fix: requested output times are not skipped if the
 evolution is done in several calls

---
 src/include/smash/experiment.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 160dd82..a90b40e 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2541,6 +2541,7 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
     throw std::logic_error(
         "Experiment cannot evolve the system beyond End_Time.");
   }
+  const bool end_time_was_reached = !(*(parameters_.labclock) < end_time_);
   while (*(parameters_.labclock) < t_end) {
     const double dt = parameters_.labclock->timestep_duration();
     logg[LExperiment].debug("Timestepless propagation for next ", dt, " fm.");
@@ -2666,9 +2667,13 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
    * never strictly smaller than end_timestep_time (they are usually equal).
    * Since in the final_output() function the current time of the output clock
    * is used to produce the output, this has to be incremented before producing
-   * the final output and it makes sense to do it here.
+   * the final output and it makes sense to do it here. If the evolution is done
+   * in several calls of this function, this must not happen in between, because
+   * otherwise requested output times would be skipped.
    */
-  ++(*parameters_.outputclock);
+  if (!end_time_was_reached && !(*(parameters_.labclock) < end_time_)) {
+    ++(*parameters_.outputclock);
+  }
 
   if (pauli_blocker_) {
     logg[LExperiment].info(
-- 
2.43.0


From bcb0e5c1937b8dae6bac8f918e100dbaa9c9653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:23 +0000
Subject: [PATCH 43/49] fix: particles added or removed between calls are not a
 violation of conservation laws

---
 src/include/smash/experiment.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index a90b40e..d880f20 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2463,6 +2463,14 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
           "ensemble is used.");
     }
     const double action_time = parameters_.labclock->current_time();
+    /* The quantities to be conserved from now on have to include the change of
+     * the particles. */
+    const auto perform_change = [this](FreeforallAction &action) {
+      const QuantumNumbers before_change(ensembles_);
+      perform_action(action, 0);
+      conserved_initial_ =
+          conserved_initial_ - (before_change - QuantumNumbers(ensembles_));
+    };
     /* Use two if statements. The first one is to check if the particles are
      * valid. Since this might remove all particles, a second if statement is
      * needed to avoid executing the action in that case.*/
@@ -2473,7 +2481,7 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
       // Create and perform action to add particle(s)
       auto action_add_particles = std::make_unique<FreeforallAction>(
           ParticleList{}, add_plist, action_time);
-      perform_action(*action_add_particles, 0);
+      perform_change(*action_add_particles);
     }
     // Also here 2 if statements are needed as above.
     if (!remove_plist.empty()) {
@@ -2525,7 +2533,7 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
         // Create and perform action to remove particles
         auto action_remove_particles = std::make_unique<FreeforallAction>(
             found_particles_to_remove, ParticleList{}, action_time);
-        perform_action(*action_remove_particles, 0);
+        perform_change(*action_remove_particles);
 
         assert(number_particles_before_removal -
                    found_particles_to_remove.size() ==
-- 
2.43.0


From 17118d2ef5c5154f104023afe28bc70ec561c123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:23 +0000
Subject: [PATCH 44/49] fix: particles added to the evolution together can
 collide with each other

---
 src/scatteractionsfinder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scatteractionsfinder.cc b/src/scatteractionsfinder.cc
index 45d7143..68effcc 100644
--- a/src/scatteractionsfinder.cc
+++ b/src/scatteractionsfinder.cc
@@ -342,8 +342,10 @@ ActionPtr ScatterActionsFinder::check_collision_two_part(
 
   } else if (finder_parameters_.coll_crit == CollisionCriterion::Geometric ||
              finder_parameters_.coll_crit == CollisionCriterion::Covariant) {
-    // just collided with this particle
-    if (data_a.id_process() > 0 && data_a.id_process() == data_b.id_process()) {
+    // just collided with this particle (which particles that were added to the
+    // evolution at the same time did not)
+    if (data_a.id_process() > 0 && data_a.id_process() == data_b.id_process() &&
+        data_a.get_history().process_type != ProcessType::Freeforall) {
       logg[LFindScatter].debug("Skipping collided particles at time ",
                                data_a.position().x0(), " due to process ",
                                data_a.id_process(), "\n    ", data_a, "\n<-> ",
-- 
2.43.0


From 54b1d883eb5f249edbf3ee9f70e8a7f51cb1eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:29 +0000
Subject: [PATCH 45/49] fix: discrete smearing touches only existing cells at
 and beyond lattice borders

---
 src/include/smash/lattice.h | 46 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 8aa3503..2cd5cff 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -725,7 +725,9 @@ class RectangularLattice {
   /**
    * Iterates only over nodes corresponding to the center cell (the cell
    * containing the given point) and its nearest neighbors in the -x, +x, -y,
-   * +y, -z, +z directions, and applies a function to each node.
+   * +y, -z, +z directions, and applies a function to each node. If the lattice
+   * is not periodic, only existing cells are visited, and none if the point
+   * lies outside of the lattice.
    * Useful for adding quantities from one particle to the lattice.
    *
    * \tparam F Type of the function. Arguments are the current node and the 3
@@ -736,39 +738,39 @@ class RectangularLattice {
   template <typename F>
   void iterate_nearest_neighbors(const ThreeVector& point, F&& func) {
     // get the 3D indices of the cell containing the given point
-    const int ix = numeric_cast<int>(
+    int ix = numeric_cast<int>(
         std::floor((point.x1() - origin_[0]) / cell_sizes_[0]));
-    const int iy = numeric_cast<int>(
+    int iy = numeric_cast<int>(
         std::floor((point.x2() - origin_[1]) / cell_sizes_[1]));
-    const int iz = numeric_cast<int>(
+    int iz = numeric_cast<int>(
         std::floor((point.x3() - origin_[2]) / cell_sizes_[2]));
 
     logg[LLattice].debug(
         "Iterating over nearest neighbors of the cell at ix = ", ix,
         ", iy = ", iy, ", iz = ", iz);
 
+    if (periodic_) {
+      ix = positive_modulo(ix, n_cells_[0]);
+      iy = positive_modulo(iy, n_cells_[1]);
+      iz = positive_modulo(iz, n_cells_[2]);
+    } else if (out_of_bounds(ix, iy, iz)) {
+      return;
+    }
+
     // determine the 1D index of the center cell
     const int i = index1d(ix, iy, iz);
     func(lattice_[i], i, i);
 
-    // determine the indeces of nearby cells, perform function on them
-    int ileft = index_left(ix, iy, iz);
-    func(lattice_[ileft], ileft, i);
-
-    int iright = index_right(ix, iy, iz);
-    func(lattice_[iright], iright, i);
-
-    int idown = index_down(ix, iy, iz);
-    func(lattice_[idown], idown, i);
-
-    int iup = index_up(ix, iy, iz);
-    func(lattice_[iup], iup, i);
-
-    int ibackward = index_backward(ix, iy, iz);
-    func(lattice_[ibackward], ibackward, i);
-
-    int iforward = index_forward(ix, iy, iz);
-    func(lattice_[iforward], iforward, i);
+    // determine the indices of nearby cells, perform function on them; beyond
+    // the border of a lattice that is not periodic there is no nearby cell
+    for (const int neighbor :
+         {index_left(ix, iy, iz), index_right(ix, iy, iz),
+          index_down(ix, iy, iz), index_up(ix, iy, iz),
+          index_backward(ix, iy, iz), index_forward(ix, iy, iz)}) {
+      if (periodic_ || neighbor != i) {
+        func(lattice_[neighbor], neighbor, i);
+      }
+    }
   }
 
   /**
-- 
2.43.0


From a1e192b90ce55ffaaff471f926ebd94c49817351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:29 +0000
Subject: [PATCH 46/49] fix: name lattice files of the Eckart density after the
 density type asked for

---
 src/include/smash/experiment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index d880f20..022c5d3 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2212,7 +2212,7 @@ void Experiment<Modus>::initialize_new_event() {
             break;
           default:
             output->at_eventstart(event_, ThermodynamicQuantity::EckartDensity,
-                                  DensityType::BaryonicIsospin,
+                                  dens_type_lattice_printout_,
                                   *jmu_custom_lat_);
         }
       }
-- 
2.43.0


From 35f782175ecc95669c95d0f6b21860e745efe05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:29 +0000
Subject: [PATCH 47/49] fix: Eckart density at a point is defined for currents
 of mixed sign

---
 src/thermodynamicoutput.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/thermodynamicoutput.cc b/src/thermodynamicoutput.cc
index 87a65bb..8257604 100644
--- a/src/thermodynamicoutput.cc
+++ b/src/thermodynamicoutput.cc
@@ -185,13 +185,22 @@ void ThermodynamicOutput::at_intermediate_time(
   std::fprintf(file_.get(), "%6.2f ", clock->current_time());
   constexpr bool compute_gradient = false;
   if (out_par_.td_rho_eckart) {
-    FourVector jmu = FourVector();
+    /* The density is the difference of those of the positive and the negative
+     * current, each summed over all ensembles, because the net current can be
+     * space-like (see the comment in current_eckart_impl). */
+    ParticleList all_particles;
     for (const Particles &particles : ensembles) {
-      jmu += std::get<1>(current_eckart(
-          out_par_.td_position, particles, dens_param, out_par_.td_dens_type,
-          compute_gradient, out_par_.td_smearing));
+      all_particles.insert(all_particles.end(), particles.begin(),
+                           particles.end());
     }
-    std::fprintf(file_.get(), "%15.12f ", jmu.abs());
+    double rho = std::get<0>(current_eckart(
+        out_par_.td_position, all_particles, dens_param, out_par_.td_dens_type,
+        compute_gradient, out_par_.td_smearing));
+    if (!out_par_.td_smearing) {
+      // without smearing, all particles are weighted with 1
+      rho /= dens_param.norm_factor_sf();
+    }
+    std::fprintf(file_.get(), "%15.12f ", rho);
   }
   if (out_par_.td_tmn || out_par_.td_tmn_landau || out_par_.td_v_landau) {
     EnergyMomentumTensor Tmn;
-- 
2.43.0


From 4117fdd98df0e8e1785d5ef38b02c63c1e0e733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:29 +0000
Subject: [PATCH 48/49] fix: header of the thermodynamics output says if only
 participants are counted

---
 src/experiment.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/experiment.cc b/src/experiment.cc
index 6059e09..76a43ef 100644
--- a/src/experiment.cc
+++ b/src/experiment.cc
@@ -144,7 +144,7 @@ ExperimentParameters create_experiment_parameters(Configuration &config) {
 
   // sets whether to consider only participants in thermodynamic outputs or not
   const bool only_participants =
-      config.take(InputKeys::output_thermodynamics_onlyParticipants);
+      config.read(InputKeys::output_thermodynamics_onlyParticipants);
 
   if (only_participants && config.has_section(InputSections::potentials)) {
     throw std::invalid_argument(
-- 
2.43.0


From 744b103b4947bb5fa1bcdf63f5e02dedbefc0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:50 +0000
Subject: [PATCH 49/49] fix: discrete smearing counts the own cell once if it
 is its own neighbor

---
 src/include/smash/density.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/include/smash/density.h b/src/include/smash/density.h
index 95b91de..6d653fe 100644
--- a/src/include/smash/density.h
+++ b/src/include/smash/density.h
@@ -588,14 +588,15 @@ void update_lattice_with_list_of_particles(RectangularLattice<T> *lat,
       // unweighted contribution to density
       const double common_weight =
           dens_factor / (par.ntest() * par.nensembles() * V_cell);
-      lat->iterate_nearest_neighbors(
-          pos, [&](T &node, int iterated_index, int center_index) {
-            node.add_particle(
-                part, common_weight *
-                          // the contribution to density is weighted depending
-                          // on what node it is added to
-                          (iterated_index == center_index ? big : small));
-          });
+      // the first node visited is the center, which can also be a neighbor of
+      // itself if the lattice is periodic and has one cell in some direction
+      bool is_center = true;
+      lat->iterate_nearest_neighbors(pos, [&](T &node, int, int) {
+        // the contribution to density is weighted depending on what node it is
+        // added to
+        node.add_particle(part, common_weight * (is_center ? big : small));
+        is_center = false;
+      });
     } else if (par.smearing() == SmearingMode::Triangular) {
       // get the radii for triangular smearing
       const std::array<double, 3> triangular_radius = {
-- 
2.43.0

