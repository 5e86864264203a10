From 4dfcd629f77d25e8c672fd69870af0bf4be736dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 01/28] fix: leave the matrix element cache usable after a
 failed update

---
 pairinteraction/MatrixElementCache.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 99f6aa3..a335986 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -625,7 +625,7 @@ void MatrixElementCache::precalculate(const std::vector<StateOne> &basis_one, in
     }
 }
 
-int MatrixElementCache::update() {
+int MatrixElementCache::update() try {
 
     // --- Return if the cache is already up-to-date ---
     if (cache_radial_missing.empty() && cache_angular_missing.empty() &&
@@ -963,6 +963,24 @@ int MatrixElementCache::update() {
     }
 
     return 1;
+} catch (...) {
+    // Forget the requested elements and end the transaction. Otherwise, each subsequent call would
+    // run into the same error again.
+    cache_radial_missing.clear();
+    cache_angular_missing.clear();
+    cache_reduced_commutes_s_missing.clear();
+    cache_reduced_commutes_l_missing.clear();
+    cache_reduced_multipole_missing.clear();
+
+    if (!dbname.empty()) {
+        try {
+            stmt->exec("rollback transaction;");
+        } catch (sqlite::error const &) {
+            // no transaction has been active
+        }
+    }
+
+    throw;
 }
 
 size_t MatrixElementCache::size() {
-- 
2.43.0


From 2973d93a6f9fd5134adf8e8c4a8ba5f6ba25829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 02/28] fix: compute missing radial matrix elements with the
 method they were requested with

---
 pairinteraction/MatrixElementCache.cpp | 4 ++--
 pairinteraction/MatrixElementCache.hpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index a335986..1b66a9e 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -529,7 +529,7 @@ void MatrixElementCache::precalculateDiamagnetism(const std::vector<StateOne> &b
 /// Utility methods ////////////////////////////////////////////////
 ////////////////////////////////////////////////////////////////////
 
-double MatrixElementCache::calcRadialElement(const QuantumDefect &qd1, int power,
+double MatrixElementCache::calcRadialElement(method_t method, const QuantumDefect &qd1, int power,
                                              const QuantumDefect &qd2) {
     if (method == NUMEROV) {
         return std::pow(au2um, power) * IntegrateRadialElement<Numerov>(qd1, power, qd2);
@@ -784,7 +784,7 @@ int MatrixElementCache::update() try {
             double val = 0;
             QuantumDefect qd1(cached.species, cached.n[0], cached.l[0], cached.j[0], defectdbname);
             QuantumDefect qd2(cached.species, cached.n[1], cached.l[1], cached.j[1], defectdbname);
-            val = calcRadialElement(qd1, cached.kappa, qd2);
+            val = calcRadialElement(cached.method, qd1, cached.kappa, qd2);
 
             cache_radial.insert({cached, val});
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 34db630..9d1b2a5 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -86,7 +86,8 @@ private:
     int update();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
                       bool calcMultipole, bool calcMomentum, bool calcRadial);
-    double calcRadialElement(const QuantumDefect &qd1, int power, const QuantumDefect &qd2);
+    double calcRadialElement(method_t method, const QuantumDefect &qd1, int power,
+                             const QuantumDefect &qd2);
     void precalculate(const std::vector<StateOne> &basis_one, int kappa_angular, int q,
                       int kappa_radial, bool calcElectricMultipole, bool calcMagneticMomentum,
                       bool calcRadial);
-- 
2.43.0


From 85a3ca0b6f07f3aba1820350b254b6dca3b801a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 03/28] fix: take the lock when clearing the cache

---
 pairinteraction/Cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Cache.hpp b/pairinteraction/Cache.hpp
index af917fb..356dd24 100644
--- a/pairinteraction/Cache.hpp
+++ b/pairinteraction/Cache.hpp
@@ -97,7 +97,10 @@ public:
      *
      * Delete all elements in the cache
      */
-    void clear() { cache.clear(); }
+    void clear() {
+        std::lock_guard<std::mutex> lock(cache_mutex);
+        cache.clear();
+    }
 };
 
 #endif // CACHE_H
-- 
2.43.0


From 8ef13250b1bcc9ce3dad6e0c81b94321aa12563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 04/28] fix: serialize quantum defect lookups of different
 databases

---
 pairinteraction/QuantumDefect.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index b3fd1d6..389f9db 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -28,6 +28,7 @@
 #include <exception>
 #include <fstream>
 #include <iostream>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -86,6 +87,9 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
 void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
     static Cache<Key, Element, Hash> cache;
     static std::string used_db_name;
+    static std::mutex setup_mutex; // protects the cache and its association with a database
+
+    std::lock_guard<std::mutex> lock(setup_mutex);
 
     if (used_db_name != db_name) {
         used_db_name = db_name;
-- 
2.43.0


From d188a2ef13f2715b6a96e0a2077d9ca348aeb8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 05/28] fix: refuse a quantum defect database that cannot be
 opened

---
 pairinteraction/QuantumDefect.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index 389f9db..9dce33a 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -30,6 +30,7 @@
 #include <iostream>
 #include <mutex>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <utility>
 
@@ -77,6 +78,9 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
         static thread_local sqlite::handle db(":memory:");
         sqlite::statement stmt(db);
         std::ifstream ifs(database);
+        if (!ifs) {
+            throw std::runtime_error("The database " + database + " could not be opened.");
+        }
         std::stringstream buffer;
         buffer << ifs.rdbuf();
         stmt.exec(buffer.str());
-- 
2.43.0


From 62079a0a1937b13002905e470f14e6811de89423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 06/28] fix: let copies of a quantum defect refer to their own
 values

---
 pairinteraction/QuantumDefect.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pairinteraction/QuantumDefect.hpp b/pairinteraction/QuantumDefect.hpp
index 891a46b..cf2a800 100644
--- a/pairinteraction/QuantumDefect.hpp
+++ b/pairinteraction/QuantumDefect.hpp
@@ -109,6 +109,15 @@ public:
      * j) */
     QuantumDefect(std::string const &species, int n, int l, double j, std::string const &database);
 
+    /** \brief Copy constructor
+     *
+     * The reference members of the copy refer to the values of the copy.
+     */
+    QuantumDefect(QuantumDefect const &other)
+        : QuantumDefect(other.species, other.n, other.l, other.j, nullptr) {
+        e = other.e;
+    }
+
     /** \brief Atomic species */
     const std::string species;
 
-- 
2.43.0


From a4b0756cd3b1105e03edf3ad15401c6d39e664c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 07/28] fix: save configuration keys as they are

---
 pairinteraction/ConfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 1b80465..71dd948 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -41,7 +41,8 @@ void Configuration::save_to_json(std::string const &filename) const {
     ptree pt;
 
     for (auto const &p : *this) {
-        pt.put(p.first, p.second.str());
+        // put() would take dots in the key as separators of a path
+        pt.push_back(ptree::value_type(p.first, ptree(p.second.str())));
     }
 
     write_json(filename, pt);
-- 
2.43.0


From 421e7d87ecf773f03ac386bca46acdbcfd1a7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 08/28] fix: visit every row once when iterating over a
 statement

---
 pairinteraction/SQLite.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 7ee0b6e..21d5164 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -259,13 +259,12 @@ public:
     class iterator {
     private:
         statement *m_stmt;
-        bool m_done;
         bool m_end;
 
     public:
-        iterator() : m_stmt{nullptr}, m_done{true}, m_end{true} {}
+        iterator() : m_stmt{nullptr}, m_end{true} {}
 
-        explicit iterator(statement *p) : m_stmt{p}, m_done{false}, m_end{false} { m_stmt->step(); }
+        explicit iterator(statement *p) : m_stmt{p}, m_end{!m_stmt->step()} {}
 
         statement &operator*() const {
 #ifndef NDEBUG
@@ -275,10 +274,8 @@ public:
             return *m_stmt;
         }
         iterator &operator++() {
-            if (!m_done) {
-                m_done = m_stmt->step();
-            } else {
-                m_end = true;
+            if (!m_end) {
+                m_end = !m_stmt->step();
             }
             return *this;
         }
-- 
2.43.0


From 8760eac78bd0cfe785f9580f4faa3005eed2803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 09/28] fix: include the out-of-plane derivatives of the
 plate's Green tensor

The dipole-quadrupole tensors of the plate were differentiated at y = 0, which
dropped the derivatives along y: the tensors were neither symmetric nor
traceless in the quadrupole indices.
---
 pairinteraction/GreenTensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 495b730..513c531 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -184,6 +184,10 @@ TensorType GreenTensor::getDQTensorPlate(double x, double zA, double zB) const {
     plate_tensor_second_gradient(2, 0, 0) = -zp;
     plate_tensor_second_gradient(0, 2, 2) = -x;
     plate_tensor_second_gradient(2, 0, 2) = x;
+    plate_tensor_second_gradient(0, 1, 1) = -x;
+    plate_tensor_second_gradient(1, 0, 1) = -x;
+    plate_tensor_second_gradient(1, 2, 1) = zp;
+    plate_tensor_second_gradient(2, 1, 1) = -zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
@@ -223,6 +227,10 @@ TensorType GreenTensor::getQDTensorPlate(double x, double zA, double zB) const {
     gradient_plate_tensor_second(0, 2, 0) = zp;
     gradient_plate_tensor_second(2, 0, 2) = -x;
     gradient_plate_tensor_second(2, 2, 0) = x;
+    gradient_plate_tensor_second(1, 0, 1) = x;
+    gradient_plate_tensor_second(1, 1, 0) = x;
+    gradient_plate_tensor_second(1, 1, 2) = -zp;
+    gradient_plate_tensor_second(1, 2, 1) = zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
-- 
2.43.0


From 50810c09d7c558c2ccb309f50e6bb5b1f53c2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 10/28] fix: place the atoms at their distances from the
 surface

The heights were computed with the sine of twice the angle, so that atoms
inside the plate were accepted.
---
 pairinteraction/GreenTensor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 513c531..6a40cee 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -37,10 +37,8 @@ void GreenTensor::addSurface(double d) {
         throw std::runtime_error("The atoms must be in the xz-plane if a surface is present");
     }
 
-    double angle = std::atan(x / z);
-
-    zA = d - z * std::sin(angle) / 2.;
-    zB = d + z * std::sin(angle) / 2.;
+    zA = d - z / 2.;
+    zB = d + z / 2.;
 
     if (zA < 0 || zB < 0) {
         throw std::runtime_error(
-- 
2.43.0


From 150fb680084d493c6a0746050f57967e051b32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 11/28] fix: initialize a new interaction in the unperturbed
 basis

---
 pairinteraction/SystemBase.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 47b39bf..2a6e913 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -517,6 +517,13 @@ void SystemBase<Scalar, State>::buildInteraction() {
     // Build basis
     this->buildBasis();
 
+    // Reset the Hamiltonian if it already contains an interaction that is outdated, so that the new
+    // interaction is initialized in the basis it will be added in
+    if (is_new_hamiltonian_required && is_interaction_already_contained) {
+        basisvectors = basisvectors_unperturbed_cache;
+        hamiltonian = hamiltonian_unperturbed_cache;
+    }
+
     // Initialize interaction
     this->initializeInteraction(); // this method checks by itself whether a new initialization
                                    // is required
-- 
2.43.0


From 70288a12a12381a5e965f8a60806a171177ec080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 12/28] fix: rotate the interaction out of the basis it is
 given in

---
 pairinteraction/SystemBase.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 2a6e913..eafeda6 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -827,15 +827,19 @@ void SystemBase<Scalar, State>::rotate(double alpha, double beta,
     // Get the rotator for the basis states
     Eigen::SparseMatrix<Scalar> transformator = this->buildStaterotator(alpha, beta, gamma);
 
-    // Rotate basis
-    this->transformInteraction(basisvectors.adjoint());
+    // Rotate basis, take into account that the interaction is given in the unperturbed basis
+    this->transformInteraction(basisvectors_unperturbed_cache.size() != 0
+                                   ? basisvectors_unperturbed_cache.adjoint()
+                                   : basisvectors.adjoint());
 
     basisvectors = transformator * basisvectors;
     if (basisvectors_unperturbed_cache.size() != 0) {
         basisvectors_unperturbed_cache = transformator * basisvectors_unperturbed_cache;
     }
 
-    this->transformInteraction(basisvectors);
+    this->transformInteraction(basisvectors_unperturbed_cache.size() != 0
+                                   ? basisvectors_unperturbed_cache
+                                   : basisvectors);
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From cc4c9bca297b6ba242c6dd5e4ec54c6330671223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 13/28] fix: keep the restrictions of a basis that is refused

---
 pairinteraction/SystemBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index eafeda6..08d046f 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -552,9 +552,6 @@ void SystemBase<Scalar, State>::buildBasis() {
         // Initialize the basis
         this->initializeBasis();
 
-        // Forget basis restrictions as they were applied now
-        this->forgetRestrictions();
-
     } else {
         this->updateEverything();
     }
@@ -566,6 +563,9 @@ void SystemBase<Scalar, State>::buildBasis() {
     if (basisvectors.cols() == 0) {
         throw std::runtime_error("The basis contains no vectors.");
     }
+
+    // Forget basis restrictions as they were applied now
+    this->forgetRestrictions();
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From 9f5aa8cf6b560e2eb5701fc558b07f5e64e2e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 14/28] fix: do not conjugate the entries of a complex
 Hamiltonian

---
 pairinteraction/SystemBase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 08d046f..b805577 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1258,7 +1258,9 @@ Scalar SystemBase<Scalar, State>::getHamiltonianEntry(const State &state_row,
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    return (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    // The dot product conjugates its first factor
+    return utils::conjugate(
+        Scalar((basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col))));
 }
 
 template <class Scalar, class State>
@@ -1269,7 +1271,8 @@ void SystemBase<Scalar, State>::setHamiltonianEntry(const State &state_row, cons
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    value -= (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    value -= utils::conjugate(
+        Scalar((basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col))));
 
     Eigen::SparseMatrix<Scalar> tmp(states.size(), states.size());
     tmp.reserve(2);
-- 
2.43.0


From 577d8eb7c269d41bba0befdb5c2858822ba54b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:39 +0000
Subject: [PATCH 15/28] fix: keep the fields of an atom if a new field is
 refused

---
 pairinteraction/SystemOne.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 649a4af..e3cf5d0 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -55,21 +55,21 @@ const std::string &SystemOne<Scalar>::getSpecies() const {
 
 template <typename Scalar>
 void SystemOne<Scalar>::setEfield(std::array<double, 3> field) {
+    // Transform the electric field into spherical coordinates (throws if the field is not allowed)
+    this->changeToSphericalbasis(field, efield_spherical);
+
     this->onParameterChange();
     efield = field;
-
-    // Transform the electric field into spherical coordinates
-    this->changeToSphericalbasis(efield, efield_spherical);
 }
 
 template <typename Scalar>
 void SystemOne<Scalar>::setBfield(std::array<double, 3> field) {
+    // Transform the magnetic field into spherical coordinates (throws if the field is not allowed)
+    this->changeToSphericalbasis(field, bfield_spherical);
+
     this->onParameterChange();
     bfield = field;
 
-    // Transform the magnetic field into spherical coordinates
-    this->changeToSphericalbasis(bfield, bfield_spherical);
-
     diamagnetism_terms[{{0, +0}}] = bfield_spherical[+0] * bfield_spherical[+0] -
         bfield_spherical[+1] * bfield_spherical[-1] * 2.;
     diamagnetism_terms[{{2, +0}}] =
-- 
2.43.0


From cb1d48da682cd599228ebe0f777225395c4bf8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:39 +0000
Subject: [PATCH 16/28] fix: do not combine atoms that interact with different
 ions

---
 pairinteraction/SystemOne.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index e3cf5d0..9fca825 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -737,6 +737,12 @@ void SystemOne<Scalar>::incorporate(SystemBase<Scalar, StateOne> &system) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (charge != dynamic_cast<SystemOne<Scalar> &>(system).charge ||
+        ordermax != dynamic_cast<SystemOne<Scalar> &>(system).ordermax ||
+        distance != dynamic_cast<SystemOne<Scalar> &>(system).distance) {
+        throw std::runtime_error("The values of the variables 'charge', 'ordermax', and "
+                                 "'distance' of the ion must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
-- 
2.43.0


From c2f545118bc56f16066957eff6e150314331b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 17/28] fix: consider the direction of the interatomic axis for
 odd multipoles

---
 pairinteraction/SystemTwo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 87849be..b81c1a9 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1358,6 +1358,9 @@ void SystemTwo<Scalar>::addInteraction() {
     } else {
         for (unsigned int order = 3; order <= ordermax; ++order) {
             double powerlaw = 1. / std::pow(distance, order);
+            if (distance_z < 0 && order % 2 == 0) { // the multipoles are of different parity
+                powerlaw *= -1;
+            }
             this->hamiltonian += interaction_multipole[order] * powerlaw;
         }
     }
-- 
2.43.0


From 4226a647ffff8962e57c20affea949723a6656bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 18/28] fix: no interaction of atoms at an angle if its order
 is too low

---
 pairinteraction/SystemTwo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index b81c1a9..d9aa487 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -738,6 +738,10 @@ void SystemTwo<Scalar>::initializeInteraction() {
                 "higher order than dipole-quadrupole cannot be considered.");
         }
 
+    } else if (ordermax < 3) {
+
+        // There is no interaction of such a low order
+
     } else if (distance_x != 0) {
 
         // We know from before that distance_y is zero so that we can easily calculate the
-- 
2.43.0


From 52fc582bcde6a9b99c09767ea96318d812dfede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 19/28] fix: keep the Green tensor approach if disabling it is
 refused

---
 pairinteraction/SystemTwo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index d9aa487..3e7183c 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -88,12 +88,13 @@ const std::array<std::string, 2> &SystemTwo<Scalar>::getSpecies() {
 
 template <typename Scalar>
 void SystemTwo<Scalar>::enableGreenTensor(bool GTboolean) {
-    this->onParameterChange();
-    GTbool = GTboolean;
-    if (!GTbool && surface_distance != std::numeric_limits<double>::max()) {
+    if (!GTboolean && surface_distance != std::numeric_limits<double>::max()) {
         throw std::runtime_error("If there is interaction with a surface, the Green tensor "
                                  "approach must not be disabled.");
     }
+
+    this->onParameterChange();
+    GTbool = GTboolean;
 }
 
 template <typename Scalar>
-- 
2.43.0


From c85d0b6b3c25f3a72987d2a48a9a843c884223a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 20/28] fix: do not combine pairs of atoms that interact with
 different surfaces

---
 pairinteraction/SystemTwo.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 3e7183c..50984d9 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1493,6 +1493,14 @@ void SystemTwo<Scalar>::incorporate(SystemBase<Scalar, StateTwo> &system) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (GTbool != dynamic_cast<SystemTwo &>(system).GTbool) {
+        throw std::runtime_error(
+            "The value of the variable 'GTbool' must be the same for both systems.");
+    }
+    if (surface_distance != dynamic_cast<SystemTwo &>(system).surface_distance) {
+        throw std::runtime_error(
+            "The value of the variable 'surface_distance' must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
-- 
2.43.0


From 404f79d987789802ada6cbdff83ad36a96ef6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 21/28] fix: basis states are those with physical momenta,
 reflections of integer spin

---
 pairinteraction/SystemOne.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 9fca825..e59e1e9 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -219,7 +219,7 @@ void SystemOne<Scalar>::initializeBasis() {
                 range_adapted_j = this->range_j;
             }
             for (auto j : range_adapted_j) {
-                if (std::fabs(j - l) > s || j < 0) {
+                if (std::fabs(j - l) > s || j < 0 || std::fmod(j - l - s, 1) != 0) {
                     continue;
                 }
 
@@ -245,7 +245,7 @@ void SystemOne<Scalar>::initializeBasis() {
                 }
 
                 for (auto m : range_allowed_m) {
-                    if (std::fabs(m) > j) {
+                    if (std::fabs(m) > j || std::fmod(m - j, 1) != 0) {
                         continue;
                     }
 
@@ -789,6 +789,13 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
         }
     }
 
+    // A state without momentum (integer spin) is already symmetric, with one of the two parities
+    if (sym_reflection_local != NA && state.getM() == 0) {
+        if ((std::pow(-1, state.getL() - state.getJ()) > 0) != (sym_reflection_local == EVEN)) {
+            return;
+        }
+    }
+
     // Store the energy of the unperturbed one atom state
     hamiltonian_triplets.emplace_back(idx, idx, energy);
 
@@ -803,8 +810,10 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
 
     // Add further entries to the current basis vector if required by symmetries
     if (sym_reflection_local != NA && state.getM() != 0) {
-        value *= std::pow(-1, state.getL() + state.getM() - state.getJ()) *
-            utils::imaginary_unit<Scalar>();
+        value *= std::pow(-1, state.getL() + state.getM() - state.getJ());
+        if (std::fmod(state.getJ(), 1) != 0) { // applying the reflection twice changes the sign
+            value *= utils::imaginary_unit<Scalar>();
+        }
         value *= (sym_reflection_local == EVEN) ? 1 : -1;
         // S_y is invariant under reflection through xz-plane
         // TODO is the s quantum number of importance here?
-- 
2.43.0


From 80e44227d0800bb2c33fe206b235efabeaf1472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:51 +0000
Subject: [PATCH 22/28] fix: total momenta obey the triangle inequality

---
 pairinteraction/SystemOne.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index e59e1e9..a5168f4 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -219,7 +219,7 @@ void SystemOne<Scalar>::initializeBasis() {
                 range_adapted_j = this->range_j;
             }
             for (auto j : range_adapted_j) {
-                if (std::fabs(j - l) > s || j < 0 || std::fmod(j - l - s, 1) != 0) {
+                if (j < std::fabs(l - s) || j > l + s || std::fmod(j - l - s, 1) != 0) {
                     continue;
                 }
 
-- 
2.43.0


From 1f4140e6c34ef2692af2db412b1d2c9c960c6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:43 +0000
Subject: [PATCH 23/28] fix: C6 sums over all fine structure components of the
 virtual states

For triplet states, the state in the middle of the multiplet was only taken
into account if both of the other ones are coupled, or not at all.
---
 pairinteraction/PerturbativeInteraction.cpp | 48 +++++++--------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 9dd04e9..c32e952 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -62,30 +62,18 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
                 for (int l1 : array_l1) {
 
                     std::set<float> array_j0;
-                    if (std::abs(std::abs(l0 - state.getS(0)) - state.getJ(0)) < 2) {
-                        array_j0.insert(std::abs(l0 - state.getS(0)));
-                    }
-                    if (std::abs(l0 + state.getS(0) - state.getJ(0)) < 2) {
-                        array_j0.insert(l0 + state.getS(0));
-                    }
-                    if (array_j0.size() == 2) {
-                        for (float j0 = std::abs(l0 - state.getS(0)) + 1; j0 < l0 + state.getS(0);
-                             ++j0) {
+                    for (float j0 = std::abs(l0 - state.getS(0)); j0 <= l0 + state.getS(0);
+                         ++j0) {
+                        if (std::abs(j0 - state.getJ(0)) < 2) {
                             array_j0.insert(j0);
                         }
                     }
                     for (float j0 : array_j0) {
 
                         std::set<float> array_j1;
-                        if (std::abs(std::abs(l1 - state.getS(1)) - state.getJ(1)) < 2) {
-                            array_j1.insert(std::abs(l1 - state.getS(1)));
-                        }
-                        if (std::abs(l1 + state.getS(1) - state.getJ(1)) < 2) {
-                            array_j1.insert(l1 + state.getS(1));
-                        }
-                        if (array_j1.size() == 2) {
-                            for (float j1 = std::abs(l1 - state.getS(1)) + 1;
-                                 j1 < l1 + state.getS(1); ++j1) {
+                        for (float j1 = std::abs(l1 - state.getS(1)); j1 <= l1 + state.getS(1);
+                             ++j1) {
+                            if (std::abs(j1 - state.getJ(1)) < 2) {
                                 array_j1.insert(j1);
                             }
                         }
@@ -201,24 +189,20 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         for (int l1 : array_l1) {
 
                             std::set<float> array_j0;
-                            if (std::abs(std::abs(l0 - s[0]) - state_col.getJ(0)) < 2 &&
-                                std::abs(std::abs(l0 - s[0]) - state_row.getJ(0)) < 2) {
-                                array_j0.insert(std::abs(l0 - s[0]));
-                            }
-                            if (std::abs(l0 + s[0] - state_col.getJ(0)) < 2 &&
-                                std::abs(l0 + s[0] - state_row.getJ(0)) < 2) {
-                                array_j0.insert(l0 + s[0]);
+                            for (float j0 = std::abs(l0 - s[0]); j0 <= l0 + s[0]; ++j0) {
+                                if (std::abs(j0 - state_col.getJ(0)) < 2 &&
+                                    std::abs(j0 - state_row.getJ(0)) < 2) {
+                                    array_j0.insert(j0);
+                                }
                             }
                             for (float j0 : array_j0) {
 
                                 std::set<float> array_j1;
-                                if (std::abs(std::abs(l1 - s[1]) - state_col.getJ(1)) < 2 &&
-                                    std::abs(std::abs(l1 - s[1]) - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(std::abs(l1 - s[1]));
-                                }
-                                if (std::abs(l1 + s[1] - state_col.getJ(1)) < 2 &&
-                                    std::abs(l1 + s[1] - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(l1 + s[1]);
+                                for (float j1 = std::abs(l1 - s[1]); j1 <= l1 + s[1]; ++j1) {
+                                    if (std::abs(j1 - state_col.getJ(1)) < 2 &&
+                                        std::abs(j1 - state_row.getJ(1)) < 2) {
+                                        array_j1.insert(j1);
+                                    }
                                 }
                                 for (float j1 : array_j1) {
 
-- 
2.43.0


From 9398537f2fee99b426fcc8dcde7d3c359f6aeb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:43 +0000
Subject: [PATCH 24/28] fix: orbital angular momenta of the virtual states of
 C6

Unphysical states with l >= n were taken into account; if the angular momenta
of the row and the column differ by two, that of the virtual state is in between.
---
 pairinteraction/PerturbativeInteraction.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index c32e952..8c87592 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -44,7 +44,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
         for (int n1 = state.getN(1) - deltaN; n1 <= state.getN(1) + deltaN; ++n1) {
 
             std::vector<int> array_l0;
-            if (state.getL(0) > 0) {
+            if (state.getL(0) > 0 && state.getL(0) <= n0) {
                 array_l0.push_back(state.getL(0) - 1);
             }
             if (state.getL(0) < n0 - 1) {
@@ -53,7 +53,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
             for (int l0 : array_l0) {
 
                 std::vector<int> array_l1;
-                if (state.getL(1) > 0) {
+                if (state.getL(1) > 0 && state.getL(1) <= n1) {
                     array_l1.push_back(state.getL(1) - 1);
                 }
                 if (state.getL(1) < n1 - 1) {
@@ -159,14 +159,14 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         if (state_col.getL(0) < n0 - 1) {
                             array_l0.push_back(state_col.getL(0) + 1);
                         }
-                        if (state_col.getL(0) > 0) {
+                        if (state_col.getL(0) > 0 && state_col.getL(0) <= n0) {
                             array_l0.push_back(state_col.getL(0) - 1);
                         }
-                    } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
+                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
                                state_col.getL(0) < n0 - 1) {
                         array_l0.push_back(state_col.getL(0) + 1);
-                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
-                               state_col.getL(0) > 0) {
+                    } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
+                               state_col.getL(0) <= n0) {
                         array_l0.push_back(state_col.getL(0) - 1);
                     }
                     for (int l0 : array_l0) {
@@ -176,14 +176,14 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                             if (state_col.getL(1) < n1 - 1) {
                                 array_l1.push_back(state_col.getL(1) + 1);
                             }
-                            if (state_col.getL(1) > 0) {
+                            if (state_col.getL(1) > 0 && state_col.getL(1) <= n1) {
                                 array_l1.push_back(state_col.getL(1) - 1);
                             }
-                        } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
+                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
                                    state_col.getL(1) < n1 - 1) {
                             array_l1.push_back(state_col.getL(1) + 1);
-                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
-                                   state_col.getL(1) > 0) {
+                        } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
+                                   state_col.getL(1) <= n1) {
                             array_l1.push_back(state_col.getL(1) - 1);
                         }
                         for (int l1 : array_l1) {
-- 
2.43.0


From c5b55a1fc78e78acbb39ead8502eb05bed927d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:32 +0000
Subject: [PATCH 25/28] fix: serialize the name of the quantum defect database

---
 pairinteraction/MatrixElementCache.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 9d1b2a5..faf8a26 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -215,6 +215,7 @@ private:
     template <class Archive>
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &CEREAL_NVP(method);
+        ar &CEREAL_NVP(defectdbname);
         ar &CEREAL_NVP(dbname);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
             CEREAL_NVP(cache_reduced_commutes_s) & CEREAL_NVP(cache_reduced_commutes_l) &
-- 
2.43.0


From d905b21afd712203fa3fd188bf51c900d8177e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:32 +0000
Subject: [PATCH 26/28] fix: serialize the ion, its distance and order of
 systems of one atom

---
 pairinteraction/SystemOne.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemOne.hpp b/pairinteraction/SystemOne.hpp
index ef9fdd1..f1d91e7 100644
--- a/pairinteraction/SystemOne.hpp
+++ b/pairinteraction/SystemOne.hpp
@@ -170,11 +170,12 @@ private:
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateOne>>(this));
         ar &CEREAL_NVP(species);
         ar &CEREAL_NVP(efield) & CEREAL_NVP(bfield) & CEREAL_NVP(diamagnetism) &
+            CEREAL_NVP(charge) & CEREAL_NVP(ordermax) & CEREAL_NVP(distance) &
             CEREAL_NVP(sym_reflection) & CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(efield_spherical) & CEREAL_NVP(bfield_spherical) &
             CEREAL_NVP(diamagnetism_terms);
         ar &CEREAL_NVP(interaction_efield) & CEREAL_NVP(interaction_bfield) &
-            CEREAL_NVP(interaction_diamagnetism);
+            CEREAL_NVP(interaction_diamagnetism) & CEREAL_NVP(interaction_multipole);
     }
 };
 
-- 
2.43.0


From c821a1a4b0574e95dda73a3e46104d16edee553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:32 +0000
Subject: [PATCH 27/28] fix: serialize the choice of products, the Le Roy
 radius and the Green tensor of pairs

---
 pairinteraction/SystemTwo.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemTwo.hpp b/pairinteraction/SystemTwo.hpp
index 54249a7..e2ba655 100644
--- a/pairinteraction/SystemTwo.hpp
+++ b/pairinteraction/SystemTwo.hpp
@@ -186,8 +186,10 @@ private:
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateTwo>>(this));
         ar &CEREAL_NVP(species) & CEREAL_NVP(system1) & CEREAL_NVP(system2);
+        ar &CEREAL_NVP(one_atom_basisvectors_indices) & CEREAL_NVP(minimal_le_roy_radius);
         ar &CEREAL_NVP(distance) & CEREAL_NVP(distance_x) & CEREAL_NVP(distance_y) &
-            CEREAL_NVP(distance_z) & CEREAL_NVP(surface_distance) & CEREAL_NVP(ordermax);
+            CEREAL_NVP(distance_z) & CEREAL_NVP(GTbool) & CEREAL_NVP(surface_distance) &
+            CEREAL_NVP(ordermax);
         ar &CEREAL_NVP(sym_permutation) & CEREAL_NVP(sym_inversion) & CEREAL_NVP(sym_reflection) &
             CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(angle_terms) & CEREAL_NVP(greentensor_terms_dd) &
-- 
2.43.0


From f7e00801b4a61d88dac347f5c278d532626f3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:31 +0000
Subject: [PATCH 28/28] fix: keep the entries of the last column when a
 Hamiltonianmatrix is deserialized

finalize() derives the number of entries from the outer index array, whose last
element was never copied: with all entries in the last column, none were kept.
---
 pairinteraction/Hamiltonianmatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 5ca7da1..0fb9d55 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -462,7 +462,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
     std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
     std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.finalize();
+    entries_.outerIndexPtr()[entries_.outerSize()] = entries_data.size();
 
     // build matrix "basis_"
     std::vector<Scalar> basis_data;
@@ -473,7 +473,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
     std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
     std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.finalize();
+    basis_.outerIndexPtr()[basis_.outerSize()] = basis_data.size();
 }
 
 template <typename Scalar>
-- 
2.43.0

