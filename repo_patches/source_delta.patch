From dd9173f666142efb49ab7717978e38dc1a5cdda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 01/75] fix: take the cache lock in Cache::clear

Clearing while another thread saves or restores raced on the table and could
destroy an element while it was being copied.
---
 pairinteraction/Cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Cache.hpp b/pairinteraction/Cache.hpp
index af917fb..356dd24 100644
--- a/pairinteraction/Cache.hpp
+++ b/pairinteraction/Cache.hpp
@@ -97,7 +97,10 @@ public:
      *
      * Delete all elements in the cache
      */
-    void clear() { cache.clear(); }
+    void clear() {
+        std::lock_guard<std::mutex> lock(cache_mutex);
+        cache.clear();
+    }
 };
 
 #endif // CACHE_H
-- 
2.43.0


From 58459bd3179f1ac9bfda4382c33924cd6a9c7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 02/75] fix: let the statement iterator deliver every row
 exactly once

The iterator ignored the result of its first step and took a fetched row for
the end, so that a range-based for loop was right for exactly two rows only:
no rows gave two spurious iterations (or an error), three gave two.
---
 pairinteraction/SQLite.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 7ee0b6e..21d5164 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -259,13 +259,12 @@ public:
     class iterator {
     private:
         statement *m_stmt;
-        bool m_done;
         bool m_end;
 
     public:
-        iterator() : m_stmt{nullptr}, m_done{true}, m_end{true} {}
+        iterator() : m_stmt{nullptr}, m_end{true} {}
 
-        explicit iterator(statement *p) : m_stmt{p}, m_done{false}, m_end{false} { m_stmt->step(); }
+        explicit iterator(statement *p) : m_stmt{p}, m_end{!m_stmt->step()} {}
 
         statement &operator*() const {
 #ifndef NDEBUG
@@ -275,10 +274,8 @@ public:
             return *m_stmt;
         }
         iterator &operator++() {
-            if (!m_done) {
-                m_done = m_stmt->step();
-            } else {
-                m_end = true;
+            if (!m_end) {
+                m_end = !m_stmt->step();
             }
             return *this;
         }
-- 
2.43.0


From 55616f23dcfd47c702cbfd75276b5834f0502bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 03/75] fix: make concurrent quantum defect requests safe

Two threads missing the same level both saved it, and the second one failed
with "Cache smashing detected"; the name of the database in use was read and
written without synchronization.
---
 pairinteraction/QuantumDefect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index b3fd1d6..a9c3b77 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -28,6 +28,7 @@
 #include <exception>
 #include <fstream>
 #include <iostream>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -86,6 +87,11 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
 void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
     static Cache<Key, Element, Hash> cache;
     static std::string used_db_name;
+    static std::mutex setup_mutex;
+
+    // Selecting the database, looking up the cache, and filling it must not be
+    // interleaved with the same steps taken by another thread
+    std::lock_guard<std::mutex> lock(setup_mutex);
 
     if (used_db_name != db_name) {
         used_db_name = db_name;
-- 
2.43.0


From 622df8699ccd1163907a587694a4b0583af17c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 04/75] fix: answer quantum defect requests from the selected
 database only

All custom databases were executed into one connection per thread: tables of
an earlier database stayed visible (a missing file silently used them, a
script without DROP TABLE failed or was merged), and a file that had changed
was answered from the cache of its old content.
---
 pairinteraction/QuantumDefect.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index a9c3b77..ccdbc62 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -30,6 +30,7 @@
 #include <iostream>
 #include <mutex>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <utility>
 
@@ -75,12 +76,23 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
         setup(embedded_database, database);
     } else {
         static thread_local sqlite::handle db(":memory:");
-        sqlite::statement stmt(db);
+        static thread_local std::string loaded;
         std::ifstream ifs(database);
+        if (!ifs) {
+            throw std::runtime_error("Could not open the quantum defect database " + database);
+        }
         std::stringstream buffer;
         buffer << ifs.rdbuf();
-        stmt.exec(buffer.str());
-        setup(db, database);
+        if (loaded != buffer.str()) {
+            // Start from an empty database so that nothing of the previous one remains
+            sqlite::handle fresh(":memory:");
+            sqlite::statement stmt(fresh);
+            stmt.exec(buffer.str());
+            db = std::move(fresh);
+            loaded = buffer.str();
+        }
+        // The cached values belong to the content of the database, not to its name
+        setup(db, "content:" + loaded);
     }
 }
 
-- 
2.43.0


From f4875f9747c802ded032726a71aec1a6d321a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 05/75] fix: save configuration keys that contain dots or are
 empty

ptree::put interprets a dot as a path separator, so that such keys were
written as nested objects, which load_from_json does not read back (and
together with their own prefix could not be written at all).
---
 pairinteraction/ConfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 1b80465..9fe4bb7 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -41,7 +41,8 @@ void Configuration::save_to_json(std::string const &filename) const {
     ptree pt;
 
     for (auto const &p : *this) {
-        pt.put(p.first, p.second.str());
+        // put() would take dots in the key for levels of a hierarchy
+        pt.push_back(ptree::value_type(p.first, ptree(p.second.str())));
     }
 
     write_json(filename, pt);
-- 
2.43.0


From 17d664d3d647d6f5d9a13609f4d1748dd7af5f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 06/75] fix: store floating-point configuration values without
 losing digits

Values were written with the default precision of six digits. Besides giving
back another number, this made the result cache of the backend, whose keys
are these strings, mix up calculations that differ in the seventh digit.
---
 pairinteraction/ConfParser.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pairinteraction/ConfParser.hpp b/pairinteraction/ConfParser.hpp
index 833b9a2..26df154 100644
--- a/pairinteraction/ConfParser.hpp
+++ b/pairinteraction/ConfParser.hpp
@@ -20,9 +20,12 @@
 #ifndef CONF_PARSER_H
 #define CONF_PARSER_H
 
+#include <iomanip>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 /** \brief %Configuration storage
  *
@@ -37,6 +40,14 @@ private:
     class value {
         std::string m_value;
 
+        template <typename T>
+        static bool reads_as(std::string const &text, T const &number) {
+            T back{};
+            std::istringstream is(text);
+            is >> back;
+            return back == number;
+        }
+
     public:
         value() = default;
 
@@ -48,6 +59,15 @@ private:
         value &operator<<(T const &rhs) {
             std::ostringstream os;
             os << rhs;
+            if constexpr (std::is_floating_point<T>::value) {
+                // Use as many digits as it takes to read the same number again
+                for (int digits = os.precision() + 1;
+                     digits <= std::numeric_limits<T>::max_digits10 && !reads_as(os.str(), rhs);
+                     ++digits) {
+                    os.str("");
+                    os << std::setprecision(digits) << rhs;
+                }
+            }
             m_value = os.str();
             return *this;
         }
-- 
2.43.0


From 2b2483f8ac14ff7f317bb0704f79300851dcab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 07/75] fix: unrestricted deltaM keeps all m states for a
 negative start m

With deltaMSingle < 0 meaning no restriction, the window was computed from
the signed m of the start state, so that a negative m dropped states with
large positive m.
---
 pairinteraction/Basisnames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index d33ce83..61fe493 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -143,7 +143,7 @@ void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = std::fmax(startstate.m[0], startstate.m[1]) +
+        delta_m = std::fmax(std::fabs(startstate.m[0]), std::fabs(startstate.m[1])) +
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
 
@@ -208,7 +208,7 @@ void BasisnamesOne::build(StateOneOld startstate, const std::string &species) {
         delta_j = startstate.j + startstate.n + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = startstate.m + startstate.n + delta_n - 0.5;
+        delta_m = std::fabs(startstate.m) + startstate.n + delta_n - 0.5;
     }
 
     // loop over quantum numbers
-- 
2.43.0


From 1ec0255c0a4dd1f11aabad7acbca1be647b265b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 08/75] fix: compressing a Hamiltonian matrix discards its
 outdated serialized form

Saving (or hashing) a matrix, filling it anew and saving it again wrote the
old content, because compress() did not clear the cached bytes.
---
 pairinteraction/Hamiltonianmatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 5ca7da1..f142c89 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -84,6 +84,7 @@ void Hamiltonianmatrix<Scalar>::addEntries(idx_t row, idx_t col, Scalar val) {
 
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::compress(size_t nBasis, size_t nCoordinates) {
+    bytes.clear();
     basis_.resize(nCoordinates, nBasis);
     entries_.resize(nBasis, nBasis);
     basis_.setFromTriplets(triplets_basis.begin(), triplets_basis.end());
-- 
2.43.0


From 10f1f8351d788eeec307de7cae489e47b3390b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 09/75] fix: a stored matrix whose columns before the last are
 empty is read back

finalize() fills the end of the outer index array from the last non-zero
entry on, so that a matrix with entries in its first and only column (or only
in the last column) came back empty and malformed.
---
 pairinteraction/Hamiltonianmatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index f142c89..d69decd 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -463,7 +463,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
     std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
     std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.finalize();
+    entries_.outerIndexPtr()[entries_.outerSize()] = entries_data.size();
 
     // build matrix "basis_"
     std::vector<Scalar> basis_data;
@@ -474,7 +474,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
     std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
     std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.finalize();
+    basis_.outerIndexPtr()[basis_.outerSize()] = basis_data.size();
 }
 
 template <typename Scalar>
-- 
2.43.0


From b52c71c746863679d2b26450d37f87cc8f79a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 10/75] fix: a damaged matrix file is refused without harm

A file with vectors or indices that do not fit together was copied beyond the
allocated memory; a refused file was left open and its bytes were later saved
in place of the matrix; saving to a file that cannot be opened crashed.
---
 pairinteraction/Hamiltonianmatrix.cpp | 88 ++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 22 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index d69decd..6e6aede 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -408,9 +408,48 @@ void Hamiltonianmatrix<Scalar>::doSerialization() {
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::deserialize(bytes_t &bytesin) {
     bytes = bytesin;
-    doDeserialization();
+    try {
+        doDeserialization();
+    } catch (...) {
+        bytes.clear(); // the matrix has not been changed
+        throw;
+    }
+}
+
+namespace {
+
+// Build a sparse matrix out of deserialized vectors, making sure that they fit together
+template <typename Scalar>
+Eigen::SparseMatrix<Scalar>
+buildSparseMatrix(storage_idx_t rows, storage_idx_t cols, const std::vector<Scalar> &data,
+                  const std::vector<idx_t> &indices, const std::vector<idx_t> &indptr) {
+    bool valid = rows >= 0 && cols >= 0 && indices.size() == data.size() &&
+        indptr.size() == static_cast<size_t>(cols);
+    for (size_t i = 0; valid && i < indices.size(); ++i) {
+        valid = indices[i] < static_cast<idx_t>(rows);
+    }
+    for (size_t i = 0; valid && i < indptr.size(); ++i) {
+        valid = indptr[i] >= (i == 0 ? 0 : indptr[i - 1]) && indptr[i] <= data.size();
+    }
+    if (valid) {
+        valid = indptr.empty() ? data.empty() : indptr[0] == 0;
+    }
+    if (!valid) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+
+    Eigen::SparseMatrix<Scalar> matrix(rows, cols);
+    matrix.makeCompressed();
+    matrix.resizeNonZeros(data.size());
+    std::copy(data.begin(), data.end(), matrix.valuePtr());
+    std::copy(indices.begin(), indices.end(), matrix.innerIndexPtr());
+    std::copy(indptr.begin(), indptr.end(), matrix.outerIndexPtr());
+    matrix.outerIndexPtr()[matrix.outerSize()] = data.size();
+    return matrix;
 }
 
+} // namespace
+
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::doDeserialization() {
     // deserialize vectors of primitive data types
@@ -454,27 +493,27 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
         throw std::runtime_error(msg);
     }
 
-    // build matrix "entries_"
+    if ((((entries_flags & csr_not_csc) > 0) != (entries_.IsRowMajor != 0)) ||
+        (((basis_flags & csr_not_csc) > 0) != (basis_.IsRowMajor != 0)) ||
+        (utils::is_complex<Scalar>::value &&
+         (entries_data_imag.size() != entries_data_real.size() ||
+          basis_data_imag.size() != basis_data_real.size())) ||
+        entries_rows != entries_cols || entries_cols != basis_cols) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+
+    // build matrices
     std::vector<Scalar> entries_data;
     mergeComplex(entries_data_real, entries_data_imag, entries_data);
-    entries_ = Eigen::SparseMatrix<Scalar>(entries_rows, entries_cols);
-    entries_.makeCompressed();
-    entries_.resizeNonZeros(entries_data.size());
-    std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
-    std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
-    std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.outerIndexPtr()[entries_.outerSize()] = entries_data.size();
-
-    // build matrix "basis_"
+    auto entries =
+        buildSparseMatrix(entries_rows, entries_cols, entries_data, entries_indices, entries_indptr);
+
     std::vector<Scalar> basis_data;
     mergeComplex(basis_data_real, basis_data_imag, basis_data);
-    basis_ = Eigen::SparseMatrix<Scalar>(basis_rows, basis_cols);
-    basis_.makeCompressed();
-    basis_.resizeNonZeros(basis_data.size());
-    std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
-    std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
-    std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.outerIndexPtr()[basis_.outerSize()] = basis_data.size();
+    auto basis = buildSparseMatrix(basis_rows, basis_cols, basis_data, basis_indices, basis_indptr);
+
+    entries_.swap(entries);
+    basis_.swap(basis);
 }
 
 template <typename Scalar>
@@ -498,6 +537,9 @@ void Hamiltonianmatrix<Scalar>::save(const std::string &fname) {
     // open file
     FILE *pFile;
     pFile = fopen(fname.c_str(), "wb");
+    if (pFile == nullptr) {
+        throw std::runtime_error("The file " + fname + " could not be opened for writing.");
+    }
 
     // write
     fwrite(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
@@ -518,14 +560,15 @@ bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
 
             // read
             bytes.resize(size_file / sizeof(byte_t));
-            size_t size_result = fread(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
-            if (size_result != size_file) {
-                throw std::runtime_error("Matrix could not be read from file.");
-            }
+            size_t size_result = fread(bytes.data(), 1, sizeof(byte_t) * bytes.size(), pFile);
 
             // close file
             fclose(pFile);
 
+            if (size_result != size_file) {
+                throw std::runtime_error("Matrix could not be read from file.");
+            }
+
             doDeserialization();
 
             return true;
@@ -533,6 +576,7 @@ bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
         return false;
 
     } catch (std::exception &e) {
+        bytes.clear(); // the matrix has not been changed
 #pragma omp critical(textoutput)
         std::cerr << e.what() << std::endl;
         return false;
-- 
2.43.0


From 221cc0eb3bd5beb4ce47d259047f5dfb044cfc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 11/75] fix: the graphical interface reads energies that are
 all zero

A stored matrix without any explicit entry was taken for a matrix without any
basis vector.
---
 pairinteraction_gui/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/loader.py b/pairinteraction_gui/loader.py
index f831fb7..c6a0de2 100644
--- a/pairinteraction_gui/loader.py
+++ b/pairinteraction_gui/loader.py
@@ -91,7 +91,7 @@ class Eigensystem(BinaryLoader):
         if self._energies is None:
             with open(self._filename + ".mat", "rb") as f:
                 tmp = self.readMatrix(f)
-                if tmp.size:
+                if tmp.shape[0]:
                     self._energies = np.real(tmp.diagonal())
                 else:
                     self._energies = np.array([])
@@ -106,7 +106,7 @@ class Eigensystem(BinaryLoader):
                     f.seek(self._shift, 0)
                 else:
                     tmp = self.readMatrix(f)
-                    if tmp.size:
+                    if tmp.shape[0]:
                         self._energies = np.real(tmp.diagonal())
                     else:
                         self._energies = np.array([])
-- 
2.43.0


From 67bc133ee7d36eeeb4e565b411a9a9109238f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 12/75] fix: take each vector of a reflection-symmetric pair
 sector once

With reflection and an exchange symmetry (inversion or permutation), pairs of
states of one multiplet with M != 0 were taken twice, as the sign of m of the
first atom does not tell such a pair from its reflection.
---
 pairinteraction/Hamiltonianmatrix.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 6e6aede..02a44e5 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -735,8 +735,13 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
                             continue;
                         }
 
-                        // In case of reflection symmetry: skip half of the coordinates
-                        if (sym.reflection != NA && state.m[0] < 0 && !skip_reflection) {
+                        // In case of reflection symmetry: skip half of the coordinates (if the two
+                        // atoms are exchanged by a further symmetry, the sign of m[0] alone does
+                        // not tell a coordinate from its reflection)
+                        bool exchange =
+                            (sym.inversion != NA || sym.permutation != NA) && col_1 != col_2;
+                        bool skip_half = (exchange && M != 0) ? M < 0 : state.m[0] < 0;
+                        if (sym.reflection != NA && skip_half && !skip_reflection) {
                             continue;
                         }
 
-- 
2.43.0


From 75907ec0ab929dd5c8aa32e59d5c771eb728a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 13/75] fix: states added after the basis exists are refused at
 once instead of making every later query fail

---
 pairinteraction/SystemBase.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 47b39bf..71df8d3 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -139,11 +139,15 @@ void SystemBase<Scalar, State>::restrictM(std::set<float> m) {
 
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::addStates(const State &s) {
-    states_to_add.insert(s);
+    this->addStates(std::set<State>({s}));
 }
 
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::addStates(const std::set<State> &s) {
+    if (!states.empty()) {
+        throw std::runtime_error(
+            "States cannot be added anymore once the basis vectors have been created.");
+    }
     states_to_add.insert(s.begin(), s.end());
 }
 
@@ -1628,11 +1632,6 @@ void SystemBase<Scalar, State>::updateEverything() {
         this->onStatesChange();
     }
 
-    if (!states_to_add.empty()) {
-        throw std::runtime_error(
-            "States cannot be added anymore once the basis vectors have been created.");
-    }
-
     // Forget basis restrictions as they were applied now
     this->forgetRestrictions();
 }
-- 
2.43.0


From 3086d3071f3e04be33b81e8305a03ad5f3dcd322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 14/75] fix: getStatesMultiIndex() returned the list of states
 before the basis was built or restrictions were applied

---
 pairinteraction/SystemBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 71df8d3..c9bc0e8 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -318,6 +318,7 @@ template <class Scalar, class State>
 const typename states_set<State>::type &
 SystemBase<Scalar, State>::getStatesMultiIndex() { // TODO @hmenke typemap for "const typename
                                                    // states_set<T>::type &"
+    this->buildBasis();
     return states;
 }
 
-- 
2.43.0


From f2cf84b44895ad3bd63de627a48bdf5dc37660bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 15/75] fix: a system whose restrictions left no states
 answered the next query as if it had not been restricted

---
 pairinteraction/SystemBase.cpp | 15 +++++++++------
 pairinteraction/SystemBase.hpp |  1 +
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index c9bc0e8..a08ae6d 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -529,6 +529,11 @@ void SystemBase<Scalar, State>::buildInteraction() {
 
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::buildBasis() {
+    // Once the restrictions have removed the entire basis, there is nothing to build anymore
+    if (is_basis_removed) {
+        throw std::runtime_error("The basis contains no states.");
+    }
+
     // Check variables for consistency
     if (((hamiltonian.size() == 0) != states.empty()) ||
         ((hamiltonian.size() == 0) != (basisvectors.size() == 0))) {
@@ -550,11 +555,9 @@ void SystemBase<Scalar, State>::buildBasis() {
         // Initialize the basis
         this->initializeBasis();
 
-        // Forget basis restrictions as they were applied now
-        this->forgetRestrictions();
-
     } else {
         this->updateEverything();
+        is_basis_removed = states.empty();
     }
 
     // Check whether the basis is empty
@@ -564,6 +567,9 @@ void SystemBase<Scalar, State>::buildBasis() {
     if (basisvectors.cols() == 0) {
         throw std::runtime_error("The basis contains no vectors.");
     }
+
+    // Forget basis restrictions as they were applied now
+    this->forgetRestrictions();
 }
 
 template <class Scalar, class State>
@@ -1632,9 +1638,6 @@ void SystemBase<Scalar, State>::updateEverything() {
         // Comunicate that the list of states has changed
         this->onStatesChange();
     }
-
-    // Forget basis restrictions as they were applied now
-    this->forgetRestrictions();
 }
 
 template class SystemBase<std::complex<double>, StateOne>;
diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 4482306..bf1269c 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -301,6 +301,7 @@ protected:
     bool memory_saving{false};
     bool is_interaction_already_contained{false};
     bool is_new_hamiltonian_required{false};
+    bool is_basis_removed{false};
 
     typename states_set<State>::type states;
     Eigen::SparseMatrix<Scalar> basisvectors;
-- 
2.43.0


From 969c520a145ee35e7e554faad2ae87e39e3dab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 16/75] fix: after a parameter change the basis vectors of the
 old diagonalization were still reported and used

---
 pairinteraction/SystemBase.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index a08ae6d..2cba63e 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -482,19 +482,7 @@ void SystemBase<Scalar, State>::buildHamiltonian() {
 
     // Initialize Hamiltonian matrix with interaction if required
     if (is_new_hamiltonian_required) {
-        if (is_interaction_already_contained) {
-
-            // Check variables for consistency
-            if (memory_saving || basisvectors_unperturbed_cache.size() == 0 ||
-                hamiltonian_unperturbed_cache.size() == 0) {
-                throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) +
-                                         ":" + std::to_string(__LINE__) + ".");
-            }
-
-            // Reset the Hamiltonian if it already contains the interaction
-            basisvectors = basisvectors_unperturbed_cache;
-            hamiltonian = hamiltonian_unperturbed_cache;
-        } else if (!memory_saving) {
+        if (!memory_saving) {
 
             // Store the Hamiltonian without interaction
             basisvectors_unperturbed_cache = basisvectors;
@@ -1336,6 +1324,15 @@ void SystemBase<Scalar, State>::onParameterChange() {
             "parameters after interaction was added to the Hamiltonian.");
     }
 
+    // Reset the Hamiltonian and the basis vectors if they already contain the interaction
+    if (is_interaction_already_contained) {
+        basisvectors.swap(basisvectors_unperturbed_cache);
+        hamiltonian.swap(hamiltonian_unperturbed_cache);
+        basisvectors_unperturbed_cache.resize(0, 0);
+        hamiltonian_unperturbed_cache.resize(0, 0);
+        is_interaction_already_contained = false;
+    }
+
     is_new_hamiltonian_required = true;
 }
 
-- 
2.43.0


From 54dd0ee679a9dd927cbf7a94872ec97efa61d7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 17/75] fix: complex entries of the Hamiltonian were read
 conjugated and therefore set wrongly

---
 pairinteraction/SystemBase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 2cba63e..c8754fd 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1246,7 +1246,8 @@ Scalar SystemBase<Scalar, State>::getHamiltonianEntry(const State &state_row,
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    return (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    // Eigen's dot() conjugates the vector on which it is called
+    return basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 }
 
 template <class Scalar, class State>
@@ -1257,7 +1258,7 @@ void SystemBase<Scalar, State>::setHamiltonianEntry(const State &state_row, cons
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    value -= (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    value -= this->getHamiltonianEntry(state_row, state_col);
 
     Eigen::SparseMatrix<Scalar> tmp(states.size(), states.size());
     tmp.reserve(2);
-- 
2.43.0


From 1fff3878802664821761fd404404766407e80cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 18/75] fix: asking for the basis vectors of more states than
 there are vectors read beyond the list of indices

---
 pairinteraction/SystemBase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index c8754fd..2251d99 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1160,6 +1160,10 @@ SystemBase<Scalar, State>::getBasisvectorIndex(const std::vector<State> &searche
         }
     }
 
+    if (Eigen::Index(searched_states.size()) > basisvectors.cols()) {
+        throw std::runtime_error("There is a state for which no basis vector could be found.");
+    }
+
     // Construct canonical basis vectors
     Eigen::SparseMatrix<Scalar> canonicalbasis;
     {
-- 
2.43.0


From 1d961d3ce36aeb4012025475f49803238c7b789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 19/75] fix: rotating a diagonalized system transformed its
 interaction matrices with the wrong basis

---
 pairinteraction/SystemBase.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 2251d99..aea01c9 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -819,15 +819,18 @@ void SystemBase<Scalar, State>::rotate(double alpha, double beta,
     // Get the rotator for the basis states
     Eigen::SparseMatrix<Scalar> transformator = this->buildStaterotator(alpha, beta, gamma);
 
-    // Rotate basis
-    this->transformInteraction(basisvectors.adjoint());
-
-    basisvectors = transformator * basisvectors;
+    // Rotate basis (the matrices used to add the interaction belong to the unperturbed basis)
     if (basisvectors_unperturbed_cache.size() != 0) {
+        this->transformInteraction(basisvectors_unperturbed_cache.adjoint());
         basisvectors_unperturbed_cache = transformator * basisvectors_unperturbed_cache;
-    }
+        this->transformInteraction(basisvectors_unperturbed_cache);
 
-    this->transformInteraction(basisvectors);
+        basisvectors = transformator * basisvectors;
+    } else {
+        this->transformInteraction(basisvectors.adjoint());
+        basisvectors = transformator * basisvectors;
+        this->transformInteraction(basisvectors);
+    }
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From 1215c00e6d09230ff633405634b842a86917f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 20/75] fix: a refused combination of two systems left the
 first one changed and inconsistent

---
 pairinteraction/SystemBase.cpp | 63 +++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index aea01c9..be4f6e3 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -842,10 +842,7 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     size_t size_this = basisvectors.cols();
     size_t size_other = system.basisvectors.cols();
 
-    // --- Combine system specific variables ---
-    this->incorporate(system);
-
-    // --- Combine universal variables ---
+    // --- Check whether the systems can be combined ---
     if (memory_saving != system.memory_saving) {
         throw std::runtime_error(
             "The value of the variable 'memory_saving' must be the same for both systems.");
@@ -859,19 +856,27 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             "The value of the variable 'is_new_hamiltonian_required' must be the same "
             "for both systems.");
     }
+    if (((basisvectors_unperturbed_cache.size() != 0) !=
+         (system.basisvectors_unperturbed_cache.size() != 0)) ||
+        ((hamiltonian_unperturbed_cache.size() != 0) !=
+         (system.hamiltonian_unperturbed_cache.size() != 0))) {
+        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
+                                 std::to_string(__LINE__) + ".");
+    }
 
     // --- Combine states and build transformators ---
+    auto states_combined = states;
     Eigen::SparseMatrix<Scalar> transformator;
     {
         std::vector<Eigen::Triplet<Scalar>> transformator_triplets;
         transformator_triplets.reserve(system.states.size());
 
         for (const auto &entry : system.states) {
-            auto state_iter = states.template get<1>().find(entry.state);
+            auto state_iter = states_combined.template get<1>().find(entry.state);
 
-            size_t newidx = states.size();
-            if (state_iter == states.template get<1>().end()) {
-                states.push_back(enumerated_state<State>(newidx, entry.state));
+            size_t newidx = states_combined.size();
+            if (state_iter == states_combined.template get<1>().end()) {
+                states_combined.push_back(enumerated_state<State>(newidx, entry.state));
             } else {
                 newidx = state_iter->idx;
             }
@@ -879,20 +884,31 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             transformator_triplets.emplace_back(newidx, entry.idx, 1);
         }
 
-        transformator.resize(states.size(), system.basisvectors.rows());
+        transformator.resize(states_combined.size(), system.basisvectors.rows());
         transformator.setFromTriplets(transformator_triplets.begin(), transformator_triplets.end());
     }
 
-    // --- Combine basisvectors and basisvectors_unperturbed_cache ---
-    basisvectors.conservativeResize(states.size(), size_this + size_other);
-    basisvectors.rightCols(size_other) = transformator * system.basisvectors;
+    // --- Combine basisvectors ---
+    Eigen::SparseMatrix<Scalar> basisvectors_combined = basisvectors;
+    basisvectors_combined.conservativeResize(states_combined.size(), size_this + size_other);
+    basisvectors_combined.rightCols(size_other) = transformator * system.basisvectors;
 
-    if ((basisvectors_unperturbed_cache.size() != 0) !=
-        (system.basisvectors_unperturbed_cache.size() != 0)) {
-        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
-                                 std::to_string(__LINE__) + ".");
+    // --- Check if basis vectors are orthogonal ---
+    Eigen::SparseMatrix<Scalar> tmp = (basisvectors_combined.leftCols(size_this).adjoint() *
+                                       basisvectors_combined.rightCols(size_other))
+                                          .pruned(1e-12, 1);
+    if (tmp.nonZeros() != 0) {
+        throw std::runtime_error(
+            "Two systems cannot be combined if their basis vectors are not orthogonal.");
     }
 
+    // --- Combine system specific variables ---
+    this->incorporate(system);
+
+    // --- Apply the combined states and basisvectors, combine basisvectors_unperturbed_cache ---
+    states = states_combined;
+    basisvectors = basisvectors_combined;
+
     if (basisvectors_unperturbed_cache.size() != 0) {
         basisvectors_unperturbed_cache.conservativeResize(
             states.size(),
@@ -901,15 +917,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             transformator * system.basisvectors_unperturbed_cache;
     }
 
-    // --- Check if basis vectors are orthogonal ---
-    Eigen::SparseMatrix<Scalar> tmp =
-        (basisvectors.leftCols(size_this).adjoint() * basisvectors.rightCols(size_other))
-            .pruned(1e-12, 1);
-    if (tmp.nonZeros() != 0) {
-        throw std::runtime_error(
-            "Two systems cannot be combined if their basis vectors are not orthogonal.");
-    }
-
     // --- Combine hamiltonian and hamiltonian_unperturbed_cache ---
     Eigen::SparseMatrix<Scalar> shifter(hamiltonian.rows() + system.hamiltonian.rows(),
                                         system.hamiltonian.rows());
@@ -928,12 +935,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
                                    hamiltonian.cols() + system.hamiltonian.cols());
     hamiltonian.rightCols(system.hamiltonian.cols()) = shifter * system.hamiltonian;
 
-    if ((hamiltonian_unperturbed_cache.size() != 0) !=
-        (system.hamiltonian_unperturbed_cache.size() != 0)) {
-        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
-                                 std::to_string(__LINE__) + ".");
-    }
-
     if (hamiltonian_unperturbed_cache.size() != 0) {
         hamiltonian_unperturbed_cache.conservativeResize(
             hamiltonian_unperturbed_cache.rows() + system.hamiltonian_unperturbed_cache.rows(),
-- 
2.43.0


From 0ada3d0e127322671d9814f8ab70383e9b043b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 21/75] fix: removing basis vectors after a diagonalization
 applied the removal to unrelated columns of the cached unperturbed matrices

---
 pairinteraction/SystemBase.cpp | 23 ++++++++++++++++++++---
 pairinteraction/SystemBase.hpp |  2 ++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index be4f6e3..54f4a6c 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -487,6 +487,7 @@ void SystemBase<Scalar, State>::buildHamiltonian() {
             // Store the Hamiltonian without interaction
             basisvectors_unperturbed_cache = basisvectors;
             hamiltonian_unperturbed_cache = hamiltonian;
+            is_basis_transformed = false;
         }
 
         // Build interaction
@@ -674,6 +675,7 @@ void SystemBase<Scalar, State>::diagonalize(double energy_lower_bound, double en
         } else {
             basisvectors = (basisvectors * evecs).pruned(threshold, 1);
         }
+        is_basis_transformed = true;
     }
 #else  // WITH_INTEL_MKL
     (void)energy_lower_bound;
@@ -740,6 +742,7 @@ void SystemBase<Scalar, State>::diagonalize(double threshold) {
     } else {
         basisvectors = (basisvectors * evecs).pruned(threshold, 1);
     }
+    is_basis_transformed = true;
 
     // TODO call transformInteraction (see applyRightsideTransformator), perhaps not?
 }
@@ -753,6 +756,7 @@ void SystemBase<Scalar, State>::canonicalize() {
 
     // Transform the basis vectors
     basisvectors = basisvectors * basisvectors.adjoint();
+    is_basis_transformed = true;
 
     // TODO call transformInteraction (see applyRightsideTransformator), perhaps yes?
 }
@@ -908,6 +912,7 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     // --- Apply the combined states and basisvectors, combine basisvectors_unperturbed_cache ---
     states = states_combined;
     basisvectors = basisvectors_combined;
+    is_basis_transformed = is_basis_transformed || system.is_basis_transformed;
 
     if (basisvectors_unperturbed_cache.size() != 0) {
         basisvectors_unperturbed_cache.conservativeResize(
@@ -1329,8 +1334,9 @@ void SystemBase<Scalar, State>::onParameterChange() {
     // Throw error if the Hamiltonian cannot be changed anymore
     if (is_interaction_already_contained && basisvectors_unperturbed_cache.size() == 0) {
         throw std::runtime_error(
-            "If memory saving is activated or unitarize() has been called, one cannot change "
-            "parameters after interaction was added to the Hamiltonian.");
+            "If memory saving is activated, unitarize() has been called, or basis vectors have been "
+            "removed after a diagonalization, one cannot change parameters after interaction was "
+            "added to the Hamiltonian.");
     }
 
     // Reset the Hamiltonian and the basis vectors if they already contain the interaction
@@ -1340,6 +1346,7 @@ void SystemBase<Scalar, State>::onParameterChange() {
         basisvectors_unperturbed_cache.resize(0, 0);
         hamiltonian_unperturbed_cache.resize(0, 0);
         is_interaction_already_contained = false;
+        is_basis_transformed = false;
     }
 
     is_new_hamiltonian_required = true;
@@ -1470,6 +1477,14 @@ void SystemBase<Scalar, State>::applyRightsideTransformator(
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::applyRightsideTransformator(
     Eigen::SparseMatrix<Scalar> &transformator) {
+    // If the basis has been transformed, e.g. by a diagonalization, the transformator cannot be
+    // applied to the caches. Delete them as they are no longer meaningful.
+    if (is_basis_transformed) {
+        basisvectors_unperturbed_cache.resize(0, 0);
+        hamiltonian_unperturbed_cache.resize(0, 0);
+        this->deleteInteraction();
+    }
+
     // Apply transformator in order to remove columns from the basisvector matrix (i.e. basis
     // vectors)
     basisvectors = basisvectors * transformator;
@@ -1621,7 +1636,9 @@ void SystemBase<Scalar, State>::updateEverything() {
             }
         }
 
-        this->applyRightsideTransformator(triplets_transformator);
+        if (Eigen::Index(triplets_transformator.size()) < basisvectors.cols()) {
+            this->applyRightsideTransformator(triplets_transformator);
+        }
 
         ////////////////////////////////////////////////////////////////////
         /// Remove states that barely occur within the vectors /////////////
diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index bf1269c..bda4404 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -302,6 +302,7 @@ protected:
     bool is_interaction_already_contained{false};
     bool is_new_hamiltonian_required{false};
     bool is_basis_removed{false};
+    bool is_basis_transformed{false}; // whether columns differ from the ones of the unperturbed basis
 
     typename states_set<State>::type states;
     Eigen::SparseMatrix<Scalar> basisvectors;
@@ -401,6 +402,7 @@ private:
             CEREAL_NVP(states_to_add);
         ar &CEREAL_NVP(memory_saving) & CEREAL_NVP(is_interaction_already_contained) &
             CEREAL_NVP(is_new_hamiltonian_required);
+        ar &CEREAL_NVP(is_basis_removed) & CEREAL_NVP(is_basis_transformed);
         ar &CEREAL_NVP(states) & CEREAL_NVP(basisvectors) & CEREAL_NVP(hamiltonian);
         ar &CEREAL_NVP(basisvectors_unperturbed_cache) & CEREAL_NVP(hamiltonian_unperturbed_cache);
     }
-- 
2.43.0


From 4acde8a6aedf291cf6ff36e36901d3a7f586557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 22/75] fix: getMainStates reports a basis vector without any
 contributing state instead of using an uninitialized index

---
 pairinteraction/SystemBase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 54f4a6c..dd3bde8 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -386,6 +386,10 @@ std::vector<State> SystemBase<Scalar, State>::getMainStates() {
             }
         }
 
+        if (maxval == -1) {
+            throw std::runtime_error("There is a basis vector to which no state contributes.");
+        }
+
         states_with_maxval.push_back(states[row_with_maxval].state);
     }
 
-- 
2.43.0


From 36209783755b0597dbfe944a9362c0aaf391a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 23/75] fix: unitarize drops the interaction matrices that
 belong to the former basis vectors

---
 pairinteraction/SystemBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index dd3bde8..6bd4e78 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -809,6 +809,7 @@ void SystemBase<Scalar, State>::unitarize() {
     // Delete caches as they are no longer meaningful
     basisvectors_unperturbed_cache.resize(0, 0);
     hamiltonian_unperturbed_cache.resize(0, 0);
+    this->deleteInteraction();
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From 41e6930f211e9ffbbe25f8f9945b57493cbd6782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 24/75] fix: saving a SystemOne forgot the ion's charge,
 multipole order, distance and interaction

---
 pairinteraction/SystemOne.cpp | 4 +++-
 pairinteraction/SystemOne.hpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 649a4af..2f19ecb 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -34,7 +34,9 @@
 
 template <typename Scalar>
 SystemOne<Scalar>::SystemOne()
-    : efield({{0, 0, 0}}), bfield({{0, 0, 0}}), sym_rotation({static_cast<float>(ARB)}) {}
+    : efield({{0, 0, 0}}), bfield({{0, 0, 0}}), diamagnetism(true), charge(0), ordermax(0),
+      distance(std::numeric_limits<double>::max()), sym_reflection(NA),
+      sym_rotation({static_cast<float>(ARB)}) {}
 
 template <typename Scalar>
 SystemOne<Scalar>::SystemOne(std::string species, MatrixElementCache &cache)
diff --git a/pairinteraction/SystemOne.hpp b/pairinteraction/SystemOne.hpp
index ef9fdd1..f1d91e7 100644
--- a/pairinteraction/SystemOne.hpp
+++ b/pairinteraction/SystemOne.hpp
@@ -170,11 +170,12 @@ private:
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateOne>>(this));
         ar &CEREAL_NVP(species);
         ar &CEREAL_NVP(efield) & CEREAL_NVP(bfield) & CEREAL_NVP(diamagnetism) &
+            CEREAL_NVP(charge) & CEREAL_NVP(ordermax) & CEREAL_NVP(distance) &
             CEREAL_NVP(sym_reflection) & CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(efield_spherical) & CEREAL_NVP(bfield_spherical) &
             CEREAL_NVP(diamagnetism_terms);
         ar &CEREAL_NVP(interaction_efield) & CEREAL_NVP(interaction_bfield) &
-            CEREAL_NVP(interaction_diamagnetism);
+            CEREAL_NVP(interaction_diamagnetism) & CEREAL_NVP(interaction_multipole);
     }
 };
 
-- 
2.43.0


From 8e05542c97cb451dc88e97e709fe82d7b042d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 25/75] fix: systems with different ions were combined without
 complaint

---
 pairinteraction/SystemOne.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 2f19ecb..2fb9b90 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -725,20 +725,32 @@ void SystemOne<Scalar>::incorporate(SystemBase<Scalar, StateOne> &system) {
             "The value of the variable 'element' must be the same for both systems.");
     }
     if (efield != dynamic_cast<SystemOne<Scalar> &>(system).efield) {
-        throw std::runtime_error("The value of the variable 'distance' must be the same for both "
+        throw std::runtime_error("The value of the variable 'efield' must be the same for both "
                                  "systems."); // implies that efield_spherical is the same, too
     }
     if (bfield != dynamic_cast<SystemOne<Scalar> &>(system).bfield) {
-        throw std::runtime_error("The value of the variable 'angle' must be the same for both "
+        throw std::runtime_error("The value of the variable 'bfield' must be the same for both "
                                  "systems."); // implies that
                                               // bfield_spherical
                                               // is the same,
                                               // too
     }
     if (diamagnetism != dynamic_cast<SystemOne<Scalar> &>(system).diamagnetism) {
+        throw std::runtime_error(
+            "The value of the variable 'diamagnetism' must be the same for both systems.");
+    }
+    if (charge != dynamic_cast<SystemOne<Scalar> &>(system).charge) {
+        throw std::runtime_error(
+            "The value of the variable 'charge' must be the same for both systems.");
+    }
+    if (ordermax != dynamic_cast<SystemOne<Scalar> &>(system).ordermax) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (distance != dynamic_cast<SystemOne<Scalar> &>(system).distance) {
+        throw std::runtime_error(
+            "The value of the variable 'distance' must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
-- 
2.43.0


From a5edbaf2000b8907c0a4b8bebc901fbc844fcc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 26/75] fix: a field that is refused by a real-valued system
 was stored nevertheless

---
 pairinteraction/SystemOne.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 2fb9b90..b7c9b7d 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -58,19 +58,19 @@ const std::string &SystemOne<Scalar>::getSpecies() const {
 template <typename Scalar>
 void SystemOne<Scalar>::setEfield(std::array<double, 3> field) {
     this->onParameterChange();
-    efield = field;
 
-    // Transform the electric field into spherical coordinates
-    this->changeToSphericalbasis(efield, efield_spherical);
+    // Transform the electric field into spherical coordinates (throws if this is not possible)
+    this->changeToSphericalbasis(field, efield_spherical);
+    efield = field;
 }
 
 template <typename Scalar>
 void SystemOne<Scalar>::setBfield(std::array<double, 3> field) {
     this->onParameterChange();
-    bfield = field;
 
-    // Transform the magnetic field into spherical coordinates
-    this->changeToSphericalbasis(bfield, bfield_spherical);
+    // Transform the magnetic field into spherical coordinates (throws if this is not possible)
+    this->changeToSphericalbasis(field, bfield_spherical);
+    bfield = field;
 
     diamagnetism_terms[{{0, +0}}] = bfield_spherical[+0] * bfield_spherical[+0] -
         bfield_spherical[+1] * bfield_spherical[-1] * 2.;
-- 
2.43.0


From a9e009fd219df4804cc8a51e0ba0fcc79cb4ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 27/75] fix: a symmetry that is refused by a one-atom system
 was stored nevertheless

---
 pairinteraction/SystemOne.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index b7c9b7d..e48bb17 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -136,8 +136,10 @@ void SystemOne<Scalar>::setRydIonDistance(double d) {
 template <typename Scalar>
 void SystemOne<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto sym_reflection_previous = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = sym_reflection_previous;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -150,8 +152,10 @@ void SystemOne<Scalar>::setConservedMomentaUnderRotation(const std::set<float> &
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto sym_rotation_previous = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = sym_rotation_previous;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
-- 
2.43.0


From a9db47cc1fe760582b154e2e54601cf6b11783ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 28/75] fix: the reflection symmetry of states with integer
 momenta had the wrong phase and ignored m = 0

---
 pairinteraction/SystemOne.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index e48bb17..8cfb2d5 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -795,10 +795,15 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
     std::vector<Eigen::Triplet<Scalar>> &basisvectors_triplets,
     std::vector<Eigen::Triplet<Scalar>> &hamiltonian_triplets, parity_t &sym_reflection_local) {
     // In case of reflection symmetry, skip half of the basis vectors
-    if (sym_reflection_local != NA && state.getM() != 0) {
+    if (sym_reflection_local != NA) {
         if (state.getM() < 0) {
             return;
         }
+        // A state with m = 0 is its own mirror image and thus has a parity already
+        if (state.getM() == 0 &&
+            std::pow(-1, state.getL() - state.getJ()) != ((sym_reflection_local == EVEN) ? 1 : -1)) {
+            return;
+        }
     }
 
     // Store the energy of the unperturbed one atom state
@@ -815,8 +820,10 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
 
     // Add further entries to the current basis vector if required by symmetries
     if (sym_reflection_local != NA && state.getM() != 0) {
-        value *= std::pow(-1, state.getL() + state.getM() - state.getJ()) *
-            utils::imaginary_unit<Scalar>();
+        value *= std::pow(-1, state.getL() + state.getM() - state.getJ());
+        if (std::fmod(state.getM(), 1) != 0) { // half-integer momenta
+            value *= utils::imaginary_unit<Scalar>();
+        }
         value *= (sym_reflection_local == EVEN) ? 1 : -1;
         // S_y is invariant under reflection through xz-plane
         // TODO is the s quantum number of importance here?
-- 
2.43.0


From 941da921844df6995a968893c0a6d083e56941ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 29/75] fix: states with unphysical quantum numbers j and m
 were added to the basis

---
 pairinteraction/SystemOne.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 8cfb2d5..632b351 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -182,7 +182,6 @@ void SystemOne<Scalar>::initializeBasis() {
     ////////////////////////////////////////////////////////////////////
 
     // TODO check whether symmetries are applicable
-    // TODO check whether range_j, range_m is half-integer or integer valued
 
     float s = 0.5;
     if (std::isdigit(species.back()) != 0) {
@@ -225,7 +224,7 @@ void SystemOne<Scalar>::initializeBasis() {
                 range_adapted_j = this->range_j;
             }
             for (auto j : range_adapted_j) {
-                if (std::fabs(j - l) > s || j < 0) {
+                if (std::fabs(j - l) > s || j < std::fabs(l - s) || std::fmod(j - l - s, 1) != 0) {
                     continue;
                 }
 
@@ -251,7 +250,7 @@ void SystemOne<Scalar>::initializeBasis() {
                 }
 
                 for (auto m : range_allowed_m) {
-                    if (std::fabs(m) > j) {
+                    if (std::fabs(m) > j || std::fmod(j - m, 1) != 0) {
                         continue;
                     }
 
-- 
2.43.0


From 2e23ec2006d139c83a1506a3f36081a06e60e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 30/75] fix: a refused basis left some of its states behind

---
 pairinteraction/SystemBase.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 6bd4e78..8c22681 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -546,7 +546,15 @@ void SystemBase<Scalar, State>::buildBasis() {
     if (states.empty()) {
 
         // Initialize the basis
-        this->initializeBasis();
+        try {
+            this->initializeBasis();
+        } catch (...) {
+            // Do not keep a partially initialized basis
+            states.clear();
+            basisvectors.resize(0, 0);
+            hamiltonian.resize(0, 0);
+            throw;
+        }
 
     } else {
         this->updateEverything();
-- 
2.43.0


From 9d46a6fe21d31cd79ed4eb62190a03c2001deeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 31/75] fix: whether an atom is inside the plate was decided
 with wrong heights

---
 pairinteraction/GreenTensor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 495b730..c7c60f3 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -37,10 +37,9 @@ void GreenTensor::addSurface(double d) {
         throw std::runtime_error("The atoms must be in the xz-plane if a surface is present");
     }
 
-    double angle = std::atan(x / z);
-
-    zA = d - z * std::sin(angle) / 2.;
-    zB = d + z * std::sin(angle) / 2.;
+    // Distances of the atoms to the surface if their center of mass is at the distance d
+    zA = d - z / 2.;
+    zB = d + z / 2.;
 
     if (zA < 0 || zB < 0) {
         throw std::runtime_error(
-- 
2.43.0


From c8348f6e7d87018a24bad83e506ca20ac3e4bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 32/75] fix: a surface that is refused by the Green tensor was
 stored nevertheless

---
 pairinteraction/GreenTensor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index c7c60f3..50a1de6 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -38,14 +38,17 @@ void GreenTensor::addSurface(double d) {
     }
 
     // Distances of the atoms to the surface if their center of mass is at the distance d
-    zA = d - z / 2.;
-    zB = d + z / 2.;
+    double zA_new = d - z / 2.;
+    double zB_new = d + z / 2.;
 
-    if (zA < 0 || zB < 0) {
+    if (zA_new < 0 || zB_new < 0) {
         throw std::runtime_error(
             "zA or zB < 0. One of the atoms is inside the plate. Plate is half-space z < 0.");
     }
 
+    zA = zA_new;
+    zB = zB_new;
+
     dd_tensor_calculated = false;
     dq_tensor_calculated = false;
     qd_tensor_calculated = false;
-- 
2.43.0


From ab66544a877720e4fcaf6cc7261d5021e8e04aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 33/75] fix: the dipole-quadrupole Green tensor of a surface
 lacked the derivatives along y

---
 pairinteraction/GreenTensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 50a1de6..be3f518 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -186,6 +186,10 @@ TensorType GreenTensor::getDQTensorPlate(double x, double zA, double zB) const {
     plate_tensor_second_gradient(2, 0, 0) = -zp;
     plate_tensor_second_gradient(0, 2, 2) = -x;
     plate_tensor_second_gradient(2, 0, 2) = x;
+    plate_tensor_second_gradient(0, 1, 1) = -x;
+    plate_tensor_second_gradient(1, 0, 1) = -x;
+    plate_tensor_second_gradient(1, 2, 1) = zp;
+    plate_tensor_second_gradient(2, 1, 1) = -zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
@@ -225,6 +229,10 @@ TensorType GreenTensor::getQDTensorPlate(double x, double zA, double zB) const {
     gradient_plate_tensor_second(0, 2, 0) = zp;
     gradient_plate_tensor_second(2, 0, 2) = -x;
     gradient_plate_tensor_second(2, 2, 0) = x;
+    gradient_plate_tensor_second(1, 0, 1) = x;
+    gradient_plate_tensor_second(1, 1, 0) = x;
+    gradient_plate_tensor_second(1, 1, 2) = -zp;
+    gradient_plate_tensor_second(1, 2, 1) = zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
-- 
2.43.0


From 9425be33aabea95644e90f69429edc7679193d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 34/75] fix: the Green tensor approach was disabled although
 the request was refused

---
 pairinteraction/SystemTwo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 87849be..3d94a87 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -88,12 +88,12 @@ const std::array<std::string, 2> &SystemTwo<Scalar>::getSpecies() {
 
 template <typename Scalar>
 void SystemTwo<Scalar>::enableGreenTensor(bool GTboolean) {
-    this->onParameterChange();
-    GTbool = GTboolean;
-    if (!GTbool && surface_distance != std::numeric_limits<double>::max()) {
+    if (!GTboolean && surface_distance != std::numeric_limits<double>::max()) {
         throw std::runtime_error("If there is interaction with a surface, the Green tensor "
                                  "approach must not be disabled.");
     }
+    this->onParameterChange();
+    GTbool = GTboolean;
 }
 
 template <typename Scalar>
-- 
2.43.0


From e72c79245eae42b04cbc224bfc026fcd7b23ed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 35/75] fix: a stored two-atom system forgot whether the Green
 tensor approach was enabled

---
 pairinteraction/SystemTwo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemTwo.hpp b/pairinteraction/SystemTwo.hpp
index 54249a7..dfd6ef6 100644
--- a/pairinteraction/SystemTwo.hpp
+++ b/pairinteraction/SystemTwo.hpp
@@ -187,7 +187,8 @@ private:
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateTwo>>(this));
         ar &CEREAL_NVP(species) & CEREAL_NVP(system1) & CEREAL_NVP(system2);
         ar &CEREAL_NVP(distance) & CEREAL_NVP(distance_x) & CEREAL_NVP(distance_y) &
-            CEREAL_NVP(distance_z) & CEREAL_NVP(surface_distance) & CEREAL_NVP(ordermax);
+            CEREAL_NVP(distance_z) & CEREAL_NVP(GTbool) & CEREAL_NVP(surface_distance) &
+            CEREAL_NVP(ordermax);
         ar &CEREAL_NVP(sym_permutation) & CEREAL_NVP(sym_inversion) & CEREAL_NVP(sym_reflection) &
             CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(angle_terms) & CEREAL_NVP(greentensor_terms_dd) &
-- 
2.43.0


From b7cd4f51e58a8bf1fd5d62f790d1cc956565dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 36/75] fix: two-atom systems with different surfaces or
 approaches were combined

---
 pairinteraction/SystemTwo.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 3d94a87..985ddc7 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1481,6 +1481,14 @@ void SystemTwo<Scalar>::incorporate(SystemBase<Scalar, StateTwo> &system) {
         throw std::runtime_error(
             "The value of the variable 'distance' must be the same for both systems.");
     }
+    if (GTbool != dynamic_cast<SystemTwo &>(system).GTbool) {
+        throw std::runtime_error(
+            "The value of the variable 'GTbool' must be the same for both systems.");
+    }
+    if (surface_distance != dynamic_cast<SystemTwo &>(system).surface_distance) {
+        throw std::runtime_error(
+            "The value of the variable 'surface_distance' must be the same for both systems.");
+    }
     if (ordermax != dynamic_cast<SystemTwo &>(system).ordermax) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
-- 
2.43.0


From fe8fb25e52b6e8daf27a4a9a17d3d7aff7612c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:53 +0000
Subject: [PATCH 37/75] fix: dipole-dipole interaction was considered although
 the order is below three

---
 pairinteraction/SystemTwo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 985ddc7..99a1957 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -738,7 +738,7 @@ void SystemTwo<Scalar>::initializeInteraction() {
                 "higher order than dipole-quadrupole cannot be considered.");
         }
 
-    } else if (distance_x != 0) {
+    } else if (distance_x != 0 && ordermax >= 3) {
 
         // We know from before that distance_y is zero so that we can easily calculate the
         // interaction angle
-- 
2.43.0


From 424f648329e59cc3d20bf17916cf5fa7f5afed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:53 +0000
Subject: [PATCH 38/75] fix: the direction was ignored by multipole interaction
 of even order

---
 pairinteraction/SystemTwo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 99a1957..598f467 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1358,6 +1358,9 @@ void SystemTwo<Scalar>::addInteraction() {
     } else {
         for (unsigned int order = 3; order <= ordermax; ++order) {
             double powerlaw = 1. / std::pow(distance, order);
+            if (distance_z < 0 && order % 2 == 0) {
+                powerlaw *= -1; // multipoles of different parity: the direction matters
+            }
             this->hamiltonian += interaction_multipole[order] * powerlaw;
         }
     }
-- 
2.43.0


From 9b75f0d2254a95c6dc0edc6b59555dc843b5106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 39/75] fix: a refused symmetry of a two-atom system was stored
 nevertheless

---
 pairinteraction/SystemTwo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 598f467..c9037e3 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -155,8 +155,10 @@ void SystemTwo<Scalar>::setConservedParityUnderInversion(parity_t parity) {
 template <typename Scalar>
 void SystemTwo<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto sym_reflection_previous = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = sym_reflection_previous;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -173,8 +175,10 @@ void SystemTwo<Scalar>::setConservedMomentaUnderRotation(const std::set<int> &mo
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto sym_rotation_previous = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = sym_rotation_previous;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
-- 
2.43.0


From 8c32de7e3a08be98a172a856898eec7f0f0212bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 40/75] fix: indices of one-atom vectors that do not exist were
 read out of bounds

---
 pairinteraction/SystemTwo.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index c9037e3..8eaede0 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -295,6 +295,11 @@ void SystemTwo<Scalar>::initializeBasis() {
 
     // Loop over the pairs
     for (const auto &[col_1, col_2] : pairs) {
+        if (col_1 >= system1.getNumBasisvectors() || col_2 >= system2.getNumBasisvectors()) {
+            throw std::runtime_error("The pair of indices [" + std::to_string(col_1) + "," +
+                                     std::to_string(col_2) +
+                                     "] does not belong to a pair of one-atom basis vectors.");
+        }
 
         // In case of artificial states, some symmetries won't work
         auto sym_inversion_local = sym_inversion;
-- 
2.43.0


From ae310ea10eebc4041ce74de3ca847efa2170d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 41/75] fix: a stored two-atom system forgot the selected pairs
 of one-atom vectors

---
 pairinteraction/SystemTwo.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/SystemTwo.hpp b/pairinteraction/SystemTwo.hpp
index dfd6ef6..0c1a481 100644
--- a/pairinteraction/SystemTwo.hpp
+++ b/pairinteraction/SystemTwo.hpp
@@ -191,6 +191,7 @@ private:
             CEREAL_NVP(ordermax);
         ar &CEREAL_NVP(sym_permutation) & CEREAL_NVP(sym_inversion) & CEREAL_NVP(sym_reflection) &
             CEREAL_NVP(sym_rotation);
+        ar &CEREAL_NVP(one_atom_basisvectors_indices);
         ar &CEREAL_NVP(angle_terms) & CEREAL_NVP(greentensor_terms_dd) &
             CEREAL_NVP(greentensor_terms_dq) & CEREAL_NVP(greentensor_terms_qd);
         ar &CEREAL_NVP(interaction_angulardipole) & CEREAL_NVP(interaction_multipole) &
-- 
2.43.0


From b80d1557b7d2ddc31db7fad69219ff0a4f33c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 42/75] fix: partner states outside the products of the present
 states overflowed the list of norms

---
 pairinteraction/SystemTwo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 8eaede0..d889c90 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1612,6 +1612,9 @@ void SystemTwo<Scalar>::addBasisvectors(const StateTwo &state, const size_t &col
     }
 
     basisvectors_triplets.emplace_back(row_new, col_new, value_new);
+    if (row_new >= sqnorm_list.size()) { // partner state that is not a product of present states
+        sqnorm_list.resize(row_new + 1, 0);
+    }
     sqnorm_list[row_new] += std::pow(std::abs(value_new), 2);
 }
 
-- 
2.43.0


From 5fb53807fee686a7cb67518d97190b98ab5a2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 43/75] fix: a field that is refused changed the Hamiltonian of
 a rotated or diagonalized system

---
 pairinteraction/SystemOne.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 632b351..8a1f745 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -57,19 +57,19 @@ const std::string &SystemOne<Scalar>::getSpecies() const {
 
 template <typename Scalar>
 void SystemOne<Scalar>::setEfield(std::array<double, 3> field) {
-    this->onParameterChange();
-
     // Transform the electric field into spherical coordinates (throws if this is not possible)
     this->changeToSphericalbasis(field, efield_spherical);
+
+    this->onParameterChange();
     efield = field;
 }
 
 template <typename Scalar>
 void SystemOne<Scalar>::setBfield(std::array<double, 3> field) {
-    this->onParameterChange();
-
     // Transform the magnetic field into spherical coordinates (throws if this is not possible)
     this->changeToSphericalbasis(field, bfield_spherical);
+
+    this->onParameterChange();
     bfield = field;
 
     diamagnetism_terms[{{0, +0}}] = bfield_spherical[+0] * bfield_spherical[+0] -
-- 
2.43.0


From 7f3aee7a34d3f7d1d9aec7301dfe143ccff8cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 44/75] fix: axes that are orthogonal up to rounding errors
 were refused

---
 pairinteraction/SystemBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 8c22681..143da41 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1553,7 +1553,7 @@ SystemBase<Scalar, State>::buildRotator(std::array<double, 3> to_z_axis,
     auto to_z_axis_mapped = Eigen::Map<Eigen::Matrix<double, 3, 1>>(&to_z_axis[0]).normalized();
     auto to_y_axis_mapped = Eigen::Map<Eigen::Matrix<double, 3, 1>>(&to_y_axis[0]).normalized();
 
-    double tolerance = 1e-16;
+    double tolerance = 1e-12;
     if (std::abs(to_z_axis_mapped.dot(to_y_axis_mapped)) > tolerance) {
         throw std::runtime_error("The z-axis and the y-axis are not orhogonal.");
     }
-- 
2.43.0


From 088ab6b3314d28d9695bd10ac130af9a35516ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 45/75] fix: several full turns were refused by real-valued
 systems because of rounding errors

---
 pairinteraction/SystemOne.hpp | 2 +-
 pairinteraction/SystemTwo.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemOne.hpp b/pairinteraction/SystemOne.hpp
index f1d91e7..6e85001 100644
--- a/pairinteraction/SystemOne.hpp
+++ b/pairinteraction/SystemOne.hpp
@@ -121,7 +121,7 @@ private:
                     std::vector<Eigen::Triplet<T>> &triplets, WignerD &wigner, const double &alpha,
                     const double &beta, const double &gamma) {
         // Check whether the angles are compatible to the used data type
-        double tolerance = 1e-16;
+        double tolerance = 1e-12;
         if (std::is_same<T, double>::value &&
             std::abs(std::remainder(alpha, 2 * M_PI)) > tolerance) {
             throw std::runtime_error(
diff --git a/pairinteraction/SystemTwo.hpp b/pairinteraction/SystemTwo.hpp
index 0c1a481..1d6f995 100644
--- a/pairinteraction/SystemTwo.hpp
+++ b/pairinteraction/SystemTwo.hpp
@@ -126,7 +126,7 @@ private:
                     std::vector<Eigen::Triplet<T>> &triplets, WignerD &wigner, const double &alpha,
                     const double &beta, const double &gamma) {
         // Check whether the angles are compatible to the used data type
-        double tolerance = 1e-16;
+        double tolerance = 1e-12;
         if (std::is_same<T, double>::value &&
             std::abs(std::remainder(alpha, 2 * M_PI)) > tolerance) {
             throw std::runtime_error(
-- 
2.43.0


From cef0368ea00b79b7d045aec1889b4bf4ef1848e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 46/75] fix: rotation elements of large momenta were wrong
 because of cancellation

---
 pairinteraction/WignerD.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pairinteraction/WignerD.cpp b/pairinteraction/WignerD.cpp
index b1ef195..61788da 100644
--- a/pairinteraction/WignerD.cpp
+++ b/pairinteraction/WignerD.cpp
@@ -37,16 +37,29 @@ std::complex<double> WignerD::operator()(float j, float m, float mp, double alph
 }
 
 double WignerD::evalWignerdPiHalf(float j, float m, float mp) {
-    double r = 0;
-    for (unsigned int k = std::max(0, static_cast<int>(mp - m)); k <= j + std::min(mp, -m); ++k) {
-        r += std::pow(-1, k) * boost::math::binomial_coefficient<double>(j + mp, k) *
-            boost::math::binomial_coefficient<double>(j - mp, k + m - mp);
+    // The element is a Jacobi polynomial at zero. Its recurrence is stable, in contrast to a sum of
+    // products of binomial coefficients, which suffers from cancellation if j is large.
+    auto degree = static_cast<unsigned int>(j - std::max(std::abs(m), std::abs(mp)));
+    auto a = static_cast<unsigned int>(std::abs(m - mp));
+    auto b = static_cast<unsigned int>(std::abs(m + mp));
+
+    double previous = 0;
+    double r = 1;
+    for (unsigned int k = 1; k <= degree; ++k) {
+        double s = 2. * k + a + b;
+        double next = (static_cast<double>(a) - b) / 2;
+        if (k > 1) {
+            next = (s - 1) * (static_cast<double>(a) * a - static_cast<double>(b) * b) * r;
+            next -= 2 * (k + a - 1.) * (k + b - 1.) * s * previous;
+            next /= 2. * k * (k + a + b) * (s - 2);
+        }
+        previous = r;
+        r = next;
     }
-    r *= std::pow(-1., m - mp) / std::pow(2., j) *
-        std::sqrt(
-             boost::math::factorial<double>(j + m) * boost::math::factorial<double>(j - m) /
-             (boost::math::factorial<double>(j + mp) * boost::math::factorial<double>(j - mp)));
-    return r;
+
+    r *= std::sqrt(boost::math::binomial_coefficient<double>(degree + a + b, b) /
+                   boost::math::binomial_coefficient<double>(degree + b, b) / std::pow(2., a + b));
+    return (mp < m && a % 2 != 0) ? -r : r;
 }
 
 double WignerD::evalWignerd(float j, float m, float mp, double beta) {
-- 
2.43.0


From 3ed2437400db5bc9aeaef26f38c602eb91b0888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 47/75] fix: magnetic dipole matrix elements between different
 l were not zero

---
 pairinteraction/MatrixElementCache.cpp | 5 +++++
 pairinteraction/MatrixElements.cpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 99f6aa3..0d83032 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -366,6 +366,11 @@ double MatrixElementCache::getMagneticDipole(StateOne const &state_row, StateOne
         throw std::runtime_error("The species must be the same for the final and initial state.");
     }
 
+    // The angular momenta do not act on the orbital angular momentum quantum number
+    if (state_row.getL() != state_col.getL()) {
+        return 0;
+    }
+
     const std::string &species = state_row.getSpecies();
     const float &s = state_row.getS();
 
diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 88edc3b..1365694 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -131,6 +131,11 @@ double MatrixElements::getElectricMomentum(
 
 double MatrixElements::getMagneticMomentum(StateOneOld const &state_row,
                                            StateOneOld const &state_col) {
+    // The angular momenta do not act on the orbital angular momentum quantum number
+    if (state_row.l != state_col.l) {
+        return 0;
+    }
+
     double val = au2GHz / au2G * muB *
         cache_radial[0][StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
                                     {{state_row.j, state_col.j}}, {{0, 0}})
-- 
2.43.0


From da6628a1b54479c881366b8c7b726e7d8d3a5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:12 +0000
Subject: [PATCH 48/75] fix: lines with too few columns crashed the import of
 electric dipole databases

---
 pairinteraction/MatrixElementCache.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 0d83032..159d465 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -152,6 +152,10 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
         std::vector<std::string> tk_vec(tk.begin(), tk.end());
 
         try {
+            if (tk_vec.size() < 7) {
+                throw std::invalid_argument("too few columns");
+            }
+
             int n1 = std::stoi(tk_vec[0]);
             int l1 = std::stoi(tk_vec[1]);
             float j1 = std::stof(tk_vec[2]);
-- 
2.43.0


From 159831b2bea502242bf5b3e7cd6222f245c2e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:54 +0000
Subject: [PATCH 49/75] fix: stored matrix elements of the engine were rounded,
 and lost when another process was faster

---
 pairinteraction/MatrixElements.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 1365694..25e3502 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -26,6 +26,7 @@
 #include <fmt/format.h>
 
 #include <cctype>
+#include <iomanip>
 #include <iostream>
 #include <limits>
 #include <sstream>
@@ -257,6 +258,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     // --- determine elements ---
 
     std::stringstream ss;
+    ss << std::setprecision(std::numeric_limits<double>::max_digits10);
 
     stmt.exec("begin transaction;");
 
@@ -466,7 +468,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                 cache.second = calcRadialElement(qd1, kappar, qd2);
 
                 ss.str(std::string());
-                ss << "insert into cache_radial (method, species, k, n1, l1, j1, n2, l2, j2, "
+                ss << "insert or ignore into cache_radial (method, species, k, n1, l1, j1, n2, l2, j2, "
                       "value) values ("
                    << "'" << method << "'"
                    << ","
@@ -490,7 +492,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                                             state.m[1]);
 
                 ss.str(std::string());
-                ss << "insert into cache_angular (k, j1, m1, j2, m2, value) values (" << kappa
+                ss << "insert or ignore into cache_angular (k, j1, m1, j2, m2, value) values (" << kappa
                    << "," << state.j[0] << "," << state.m[0] << "," << state.j[1] << ","
                    << state.m[1] << "," << cache.second << ");";
                 stmt.exec(ss.str());
@@ -520,7 +522,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                 }
 
                 ss.str(std::string());
-                ss << "insert into cache_reduced_commutes_s (k, l1, j1, l2, j2, value) values ("
+                ss << "insert or ignore into cache_reduced_commutes_s (k, l1, j1, l2, j2, value) values ("
                    << kappa << "," << state.l[0] << "," << state.j[0] << "," << state.l[1] << ","
                    << state.j[1] << "," << cache.second << ");";
                 stmt.exec(ss.str());
@@ -538,7 +540,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                     WignerSymbols::wigner6j(0.5, state.j[0], state.l[0], state.j[1], 0.5, kappa);
 
                 ss.str(std::string());
-                ss << "insert into cache_reduced_commutes_l (k, l1, j1, l2, j2, value) values ("
+                ss << "insert or ignore into cache_reduced_commutes_l (k, l1, j1, l2, j2, value) values ("
                    << kappa << "," << state.l[0] << "," << state.j[0] << "," << state.l[1] << ","
                    << state.j[1] << "," << cache.second << ");";
                 stmt.exec(ss.str());
@@ -556,7 +558,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
                     WignerSymbols::wigner3j(state.l[0], kappa, state.l[1], 0, 0, 0);
 
                 ss.str(std::string());
-                ss << "insert into cache_reduced_multipole (k, l1, l2, value) values (" << kappa
+                ss << "insert or ignore into cache_reduced_multipole (k, l1, l2, value) values (" << kappa
                    << "," << state.l[0] << "," << state.l[1] << "," << cache.second << ");";
                 stmt.exec(ss.str());
             }
-- 
2.43.0


From 2b89fdbdded89b0e381abba32ea40a9a6f4d8418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:58 +0000
Subject: [PATCH 50/75] fix: killing a process could damage the database of
 matrix elements

---
 pairinteraction/MatrixElementCache.cpp | 4 ----
 pairinteraction/MatrixElementCache.hpp | 2 --
 pairinteraction/MatrixElements.cpp     | 1 -
 3 files changed, 7 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 159d465..1e907e4 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -91,8 +91,6 @@ MatrixElementCache::MatrixElementCache(std::string const &cachedir)
 
     // Speed up database access
     stmt->exec("PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
-    stmt->exec(
-        "PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during transaction
 
     // Create cache tables (reduced_momentum_s and reduced_momentum_l need not to be cached since
     // they are trivial)
@@ -656,8 +654,6 @@ int MatrixElementCache::update() {
             // Speed up database access
             stmt->exec(
                 "PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
-            stmt->exec("PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during
-                                                        // transaction
         }
 
         if (!cache_radial_missing.empty()) {
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 34db630..af20489 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -232,8 +232,6 @@ private:
             // Speed up database access
             stmt->exec(
                 "PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
-            stmt->exec("PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during
-                                                        // transaction
         }
     }
 };
diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 25e3502..f16f463 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -619,7 +619,6 @@ void MatrixElements::precalculate(const std::vector<StateOneOld> &basis_one, int
     // --- Speed up database access ---
 
     stmt.exec("PRAGMA synchronous = OFF");     // do not wait on write, hand off to OS and carry on
-    stmt.exec("PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during transaction
 
     // --- Create cache tables if necessary (reduced_moemntum_s and reduced_moemntum_l need not to
     // be cached since they are trivial) --- // TODO put this into the constructor of the
-- 
2.43.0


From 10025c5afecf00861522af98a7ddcb0d49fb6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:58 +0000
Subject: [PATCH 51/75] fix: after a matrix element could not be calculated,
 all later requests failed

---
 pairinteraction/MatrixElementCache.cpp | 23 +++++++++++++++++++++++
 pairinteraction/MatrixElementCache.hpp |  1 +
 2 files changed, 24 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 1e907e4..8226280 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -633,6 +633,29 @@ void MatrixElementCache::precalculate(const std::vector<StateOne> &basis_one, in
 }
 
 int MatrixElementCache::update() {
+    try {
+        return this->calculateMissing();
+    } catch (...) {
+        // Forget what could not be calculated, otherwise every later request would fail as well
+        cache_radial_missing.clear();
+        cache_angular_missing.clear();
+        cache_reduced_commutes_s_missing.clear();
+        cache_reduced_commutes_l_missing.clear();
+        cache_reduced_multipole_missing.clear();
+
+        if (!dbname.empty()) {
+            try {
+                stmt->exec("rollback transaction;");
+            } catch (sqlite::error const &) {
+                // There was no open transaction
+            }
+        }
+
+        throw;
+    }
+}
+
+int MatrixElementCache::calculateMissing() {
 
     // --- Return if the cache is already up-to-date ---
     if (cache_radial_missing.empty() && cache_angular_missing.empty() &&
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index af20489..0be310c 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -84,6 +84,7 @@ public:
 
 private:
     int update();
+    int calculateMissing();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
                       bool calcMultipole, bool calcMomentum, bool calcRadial);
     double calcRadialElement(const QuantumDefect &qd1, int power, const QuantumDefect &qd2);
-- 
2.43.0


From f9ad5e33bd20468e95f57552a247cf3ae6c999f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:58 +0000
Subject: [PATCH 52/75] fix: radial matrix elements of another defect database
 were used

---
 pairinteraction/MatrixElementCache.cpp | 12 ++++++++++++
 pairinteraction/MatrixElementCache.hpp |  9 ++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 8226280..6a31270 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -120,6 +120,17 @@ MatrixElementCache::MatrixElementCache(std::string const &cachedir)
 }
 
 void MatrixElementCache::setDefectDB(std::string const &path) {
+    // Forget the radial matrix elements that were calculated with another database
+    if (path != defectdbname) {
+        for (auto iter = cache_radial.begin(); iter != cache_radial.end();) {
+            if (cache_radial_loaded.find(iter->first) == cache_radial_loaded.end()) {
+                iter = cache_radial.erase(iter);
+            } else {
+                ++iter;
+            }
+        }
+    }
+
     // Set path to user defined database for quantum defects and model potential parameters
     defectdbname = path;
 
@@ -202,6 +213,7 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             (key3.sgn * cache_reduced_commutes_s[key3] * key4.sgn * cache_reduced_multipole[key4]);
 
         cache_radial[key1] = val;
+        cache_radial_loaded.insert(key1);
     }
 }
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 0be310c..0939ee3 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -191,6 +191,8 @@ private:
                        CacheKeyHasher_cache_reduced_multipole>
         cache_reduced_multipole;
 
+    std::unordered_set<CacheKey_cache_radial, CacheKeyHasher_cache_radial> cache_radial_loaded;
+
     std::unordered_set<CacheKey_cache_radial, CacheKeyHasher_cache_radial> cache_radial_missing;
     std::unordered_set<CacheKey_cache_angular, CacheKeyHasher_cache_angular> cache_angular_missing;
     std::unordered_set<CacheKey_cache_reduced_commutes, CacheKeyHasher_cache_reduced_commutes>
@@ -213,7 +215,7 @@ private:
 
     friend class cereal::access;
     template <class Archive>
-    void serialize(Archive &ar, unsigned int /* version */) {
+    void serialize(Archive &ar, unsigned int version) {
         ar &CEREAL_NVP(method);
         ar &CEREAL_NVP(dbname);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
@@ -223,6 +225,9 @@ private:
             CEREAL_NVP(cache_reduced_commutes_s_missing) &
             CEREAL_NVP(cache_reduced_commutes_l_missing) &
             CEREAL_NVP(cache_reduced_multipole_missing);
+        if (version > 0) {
+            ar &CEREAL_NVP(defectdbname) & CEREAL_NVP(cache_radial_loaded);
+        }
 
         if (Archive::is_loading::value && !dbname.empty()) {
             // Open database
@@ -237,4 +242,6 @@ private:
     }
 };
 
+CEREAL_CLASS_VERSION(MatrixElementCache, 1)
+
 #endif
-- 
2.43.0


From a00473c25d0a66b620e558adae92fe1b1f317afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:58 +0000
Subject: [PATCH 53/75] fix: a restored cache of matrix elements failed if its
 database was gone

---
 pairinteraction/MatrixElementCache.cpp | 20 ++++++++++----------
 pairinteraction/MatrixElementCache.hpp |  9 ++-------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 6a31270..26f650c 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -85,9 +85,15 @@ MatrixElementCache::MatrixElementCache()
 
 MatrixElementCache::MatrixElementCache(std::string const &cachedir)
     : defectdbname(""),
-      dbname((fs::absolute(cachedir) / ("cache_elements_" + version::cache() + ".db")).string()),
-      db(new sqlite::handle(dbname)), stmt(new sqlite::statement(*db)),
-      pid_which_created_db(utils::get_pid()) {
+      dbname((fs::absolute(cachedir) / ("cache_elements_" + version::cache() + ".db")).string()) {
+    openDB();
+}
+
+void MatrixElementCache::openDB() {
+    stmt.reset();
+    db = std::make_unique<sqlite::handle>(dbname);
+    stmt = std::make_unique<sqlite::statement>(*db);
+    pid_which_created_db = utils::get_pid();
 
     // Speed up database access
     stmt->exec("PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
@@ -682,13 +688,7 @@ int MatrixElementCache::calculateMissing() {
         // Reopen the connection to the database if it was opend by a different process (without
         // doing this, there can be problems with Python multiprocessing)
         if (pid_which_created_db != static_cast<long>(utils::get_pid())) {
-            db = std::make_unique<sqlite::handle>(dbname);
-            stmt = std::make_unique<sqlite::statement>(*db);
-            pid_which_created_db = utils::get_pid();
-
-            // Speed up database access
-            stmt->exec(
-                "PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
+            openDB();
         }
 
         if (!cache_radial_missing.empty()) {
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 0939ee3..983bc0a 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -83,6 +83,7 @@ public:
     size_t size();
 
 private:
+    void openDB();
     int update();
     int calculateMissing();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
@@ -231,13 +232,7 @@ private:
 
         if (Archive::is_loading::value && !dbname.empty()) {
             // Open database
-            db = std::make_unique<sqlite::handle>(dbname);
-            stmt = std::make_unique<sqlite::statement>(*db);
-            pid_which_created_db = utils::get_pid();
-
-            // Speed up database access
-            stmt->exec(
-                "PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
+            openDB();
         }
     }
 };
-- 
2.43.0


From b03a5b492e893f45caeb7e11d3386831e464f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:42 +0000
Subject: [PATCH 54/75] fix: asking for a matrix element that was not
 precalculated spoiled later ones

---
 pairinteraction/MatrixElements.cpp | 88 +++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 33 deletions(-)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index f16f463..183c4a1 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -123,6 +123,18 @@ void MatrixElements::precalculateDiamagnetism(std::shared_ptr<const BasisnamesOn
     precalculate(basis_one, k, q, 2, true, false, false);
 }
 
+// Values that were not precalculated are zero (and have to stay unknown so that they can be
+// precalculated later)
+static double lookup(std::unordered_map<int, std::unordered_map<StateTwoOld, double>> const &cache,
+                     int k, StateTwoOld const &state) {
+    auto cache_k = cache.find(k);
+    if (cache_k == cache.end()) {
+        return 0;
+    }
+    auto element = cache_k->second.find(state);
+    return element == cache_k->second.end() ? 0 : element->second;
+}
+
 double MatrixElements::getElectricMomentum(
     StateOneOld const &state_row,
     StateOneOld const &
@@ -138,18 +150,22 @@ double MatrixElements::getMagneticMomentum(StateOneOld const &state_row,
     }
 
     double val = au2GHz / au2G * muB *
-        cache_radial[0][StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
-                                    {{state_row.j, state_col.j}}, {{0, 0}})
-                            .order()] *
-        cache_angular[1][StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
-                                     {{state_row.m, state_col.m}})] *
+        lookup(cache_radial, 0,
+               StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
+                           {{state_row.j, state_col.j}}, {{0, 0}})
+                   .order()) *
+        lookup(cache_angular, 1,
+               StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
+                           {{state_row.m, state_col.m}})) *
         (gL *
-             cache_reduced_commutes_s[1][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
-                                                     {{state_row.j, state_col.j}}, {{0, 0}})] *
+             lookup(cache_reduced_commutes_s, 1,
+                    StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
+                                {{state_row.j, state_col.j}}, {{0, 0}})) *
              std::sqrt(state_row.l * (state_row.l + 1) * (2 * state_row.l + 1)) +
          gS *
-             cache_reduced_commutes_l[1][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
-                                                     {{state_row.j, state_col.j}}, {{0, 0}})] *
+             lookup(cache_reduced_commutes_l, 1,
+                    StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
+                                {{state_row.j, state_col.j}}, {{0, 0}})) *
              std::sqrt(
                  0.5 * (0.5 + 1) *
                  (2 * 0.5 +
@@ -161,42 +177,48 @@ double MatrixElements::getMagneticMomentum(StateOneOld const &state_row,
 double MatrixElements::getDiamagnetism(StateOneOld const &state_row, StateOneOld const &state_col,
                                        int k) {
     double val = elementary_charge * inverse_electron_rest_mass * 1. / 12. *
-        cache_radial[2][StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
-                                    {{state_row.j, state_col.j}}, {{0, 0}})
-                            .order()] *
-        cache_angular[k][StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
-                                     {{state_row.m, state_col.m}})] *
-        cache_reduced_commutes_s[k][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
-                                                {{state_row.j, state_col.j}}, {{0, 0}})] *
-        cache_reduced_multipole[k][StateTwoOld(
-            {{0, 0}}, {{state_row.l, state_col.l}}, {{0, 0}},
-            {{0, 0}})]; // TODO do the multiplication with inverse_electron_rest_mass outside this
-                        // class // TODO remove this method and use directly
-                        // getMultipole(state_row,state_col,kappa_angular = ..., kappa_radial = 2)
+        lookup(cache_radial, 2,
+               StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
+                           {{state_row.j, state_col.j}}, {{0, 0}})
+                   .order()) *
+        lookup(cache_angular, k,
+               StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
+                           {{state_row.m, state_col.m}})) *
+        lookup(cache_reduced_commutes_s, k,
+               StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{state_row.j, state_col.j}},
+                           {{0, 0}})) *
+        lookup(cache_reduced_multipole, k,
+               StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{0, 0}},
+                           {{0, 0}})); // TODO do the multiplication with inverse_electron_rest_mass
+                                       // outside this class // TODO remove this method and use
+                                       // directly getMultipole(state_row,state_col,kappa_angular =
+                                       // ..., kappa_radial = 2)
     return val;
 }
 
 double MatrixElements::getMultipole(StateOneOld const &state_row, StateOneOld const &state_col,
                                     int k) {
-    double val =
-        cache_radial[k][StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
+    double val = lookup(cache_radial, k,
+                        StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
                                     {{state_row.j, state_col.j}}, {{0, 0}})
-                            .order()] *
-        cache_angular[k][StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
-                                     {{state_row.m, state_col.m}})] *
-        cache_reduced_commutes_s[k][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
-                                                {{state_row.j, state_col.j}}, {{0, 0}})] *
-        cache_reduced_multipole[k][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{0, 0}},
-                                               {{0, 0}})];
+                            .order()) *
+        lookup(cache_angular, k,
+               StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
+                           {{state_row.m, state_col.m}})) *
+        lookup(cache_reduced_commutes_s, k,
+               StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{state_row.j, state_col.j}},
+                           {{0, 0}})) *
+        lookup(cache_reduced_multipole, k,
+               StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{0, 0}}, {{0, 0}}));
     return val;
 }
 
 double MatrixElements::getRadial(StateOneOld const &state_row, StateOneOld const &state_col,
                                  int k) {
-    double val =
-        cache_radial[k][StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
+    double val = lookup(cache_radial, k,
+                        StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
                                     {{state_row.j, state_col.j}}, {{0, 0}})
-                            .order()];
+                            .order());
     return val;
 }
 
-- 
2.43.0


From 46378f31c12424d21341e3e405b9dc9110c40be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:44 +0000
Subject: [PATCH 55/75] fix: elements announced for one method were calculated
 with another and kept as the first one's

---
 pairinteraction/MatrixElementCache.cpp | 8 ++++----
 pairinteraction/MatrixElementCache.hpp | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 26f650c..d9593df 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -554,12 +554,12 @@ void MatrixElementCache::precalculateDiamagnetism(const std::vector<StateOne> &b
 /// Utility methods ////////////////////////////////////////////////
 ////////////////////////////////////////////////////////////////////
 
-double MatrixElementCache::calcRadialElement(const QuantumDefect &qd1, int power,
+double MatrixElementCache::calcRadialElement(method_t m, const QuantumDefect &qd1, int power,
                                              const QuantumDefect &qd2) {
-    if (method == NUMEROV) {
+    if (m == NUMEROV) {
         return std::pow(au2um, power) * IntegrateRadialElement<Numerov>(qd1, power, qd2);
     }
-    if (method == WHITTAKER) {
+    if (m == WHITTAKER) {
         return std::pow(au2um, power) * IntegrateRadialElement<Whittaker>(qd1, power, qd2);
     }
     std::string msg("You have to provide all radial matrix elements on your own because you have "
@@ -824,7 +824,7 @@ int MatrixElementCache::calculateMissing() {
             double val = 0;
             QuantumDefect qd1(cached.species, cached.n[0], cached.l[0], cached.j[0], defectdbname);
             QuantumDefect qd2(cached.species, cached.n[1], cached.l[1], cached.j[1], defectdbname);
-            val = calcRadialElement(qd1, cached.kappa, qd2);
+            val = calcRadialElement(cached.method, qd1, cached.kappa, qd2);
 
             cache_radial.insert({cached, val});
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 983bc0a..fa8b3ad 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -88,7 +88,8 @@ private:
     int calculateMissing();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
                       bool calcMultipole, bool calcMomentum, bool calcRadial);
-    double calcRadialElement(const QuantumDefect &qd1, int power, const QuantumDefect &qd2);
+    double calcRadialElement(method_t m, const QuantumDefect &qd1, int power,
+                             const QuantumDefect &qd2);
     void precalculate(const std::vector<StateOne> &basis_one, int kappa_angular, int q,
                       int kappa_radial, bool calcElectricMultipole, bool calcMagneticMomentum,
                       bool calcRadial);
-- 
2.43.0


From a7e6a2737f2a94a7b22ee0ebfbb696a8a0d6db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 56/75] fix: a damaged parameter file in the cache made every
 later calculation abort

---
 pairinteraction/HamiltonianOne.cpp | 8 +++++---
 pairinteraction/HamiltonianTwo.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 2a8a45b..a6d5406 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -580,9 +580,11 @@ void HamiltonianOne<Scalar>::build() {
         if (fs::exists(path_mat)) {
             if (fs::exists(path_json)) {
                 Configuration params_loaded;
-                params_loaded.load_from_json(path_json.string());
-                if (conf == params_loaded) {
-                    is_existing = true;
+                try {
+                    params_loaded.load_from_json(path_json.string());
+                    is_existing = (conf == params_loaded);
+                } catch (const std::exception &) {
+                    is_existing = false; // the file is damaged
                 }
             }
         }
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index a3136de..bdcf939 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -801,9 +801,11 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             if (fs::exists(path_mat)) {
                 if (fs::exists(path_json)) {
                     Configuration params_loaded;
-                    params_loaded.load_from_json(path_json.string());
-                    if (conf == params_loaded) {
-                        is_existing = true;
+                    try {
+                        params_loaded.load_from_json(path_json.string());
+                        is_existing = (conf == params_loaded);
+                    } catch (const std::exception &) {
+                        is_existing = false; // the file is damaged
                     }
                 }
             }
-- 
2.43.0


From 300a300b4dae64784a6241c954176c0bf3166f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 57/75] fix: a thread could look into the table of results
 before another one had created it

---
 pairinteraction/HamiltonianOne.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index a6d5406..a8b13a5 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -512,10 +512,10 @@ void HamiltonianOne<Scalar>::build() {
             }
             query << "));";
 
-            flag_perhapsmissingtable = false;
-
 #pragma omp critical(database)
             stmt.exec(query.str());
+
+            flag_perhapsmissingtable = false;
         }
 
         // === Get uuid as filename === // TODO put code in its own method
-- 
2.43.0


From effb312b945fe1c355e65d9f7779beefbe820743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 58/75] fix: calculations sharing a cache aborted if both were
 the first to need a result

---
 pairinteraction/HamiltonianOne.cpp | 16 +++++++++++++---
 pairinteraction/HamiltonianTwo.cpp | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index a8b13a5..74280d5 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -528,10 +528,11 @@ void HamiltonianOne<Scalar>::build() {
             spacer = " AND ";
         }
         query << ";";
+        std::string query_uuid = query.str();
 
 #pragma omp critical(database)
         {
-            sqlite::statement stmt(db, query.str());
+            sqlite::statement stmt(db, query_uuid);
             stmt.prepare();
             if (stmt.step()) {
                 uuid = stmt.get<std::string>(0);
@@ -550,7 +551,7 @@ void HamiltonianOne<Scalar>::build() {
             boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
 
             query.str(std::string());
-            query << "INSERT INTO cache_one (uuid";
+            query << "INSERT OR IGNORE INTO cache_one (uuid";
             for (auto p : conf) {
                 query << ", " << p.first;
             }
@@ -561,7 +562,16 @@ void HamiltonianOne<Scalar>::build() {
             }
             query << ");";
 #pragma omp critical(database)
-            stmt.exec(query.str());
+            {
+                stmt.exec(query.str());
+
+                // another process may have been faster, use its uuid then
+                sqlite::statement stmt(db, query_uuid);
+                stmt.prepare();
+                if (stmt.step()) {
+                    uuid = stmt.get<std::string>(0);
+                }
+            }
         }
 
         // === Check existence of files === // TODO put code in its own method
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index bdcf939..9b36a97 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -749,10 +749,11 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
                 spacer = " AND ";
             }
             query << ";";
+            std::string query_uuid = query.str();
 
 #pragma omp critical(database)
             {
-                sqlite::statement stmt(db, query.str());
+                sqlite::statement stmt(db, query_uuid);
                 stmt.prepare();
                 if (stmt.step()) {
                     uuid = stmt.get<std::string>(0);
@@ -771,7 +772,7 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
                 boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
 
                 query.str(std::string());
-                query << "INSERT INTO cache_two (uuid";
+                query << "INSERT OR IGNORE INTO cache_two (uuid";
                 for (auto p : conf) {
                     query << ", " << p.first;
                 }
@@ -782,7 +783,16 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
                 }
                 query << ");";
 #pragma omp critical(database)
-                stmt.exec(query.str());
+                {
+                    stmt.exec(query.str());
+
+                    // another process may have been faster, use its uuid then
+                    sqlite::statement stmt(db, query_uuid);
+                    stmt.prepare();
+                    if (stmt.step()) {
+                        uuid = stmt.get<std::string>(0);
+                    }
+                }
             }
 
             // === Check existence of files ===
-- 
2.43.0


From 006870678f66959070159877b008b19dcd9b2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 59/75] fix: a matrix was announced as stored while another
 calculation was writing over its file, or when the disk was full

---
 pairinteraction/Hamiltonianmatrix.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 02a44e5..d7d1f7a 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -22,8 +22,12 @@
 #include "EigenCompat.hpp"
 #include <Eigen/Core>
 #include <Eigen/Eigenvalues>
+#include <boost/uuid/uuid.hpp>
+#include <boost/uuid/uuid_generators.hpp>
+#include <boost/uuid/uuid_io.hpp>
 #include <fmt/format.h>
 
+#include <filesystem>
 #include <stdexcept>
 
 template <typename Scalar>
@@ -534,18 +538,29 @@ template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::save(const std::string &fname) {
     doSerialization();
 
+    // write to a temporary file first so that nobody ever sees a part of the matrix
+    std::string const fname_tmp =
+        fname + "." + boost::uuids::to_string(boost::uuids::random_generator()()) + ".tmp";
+
     // open file
     FILE *pFile;
-    pFile = fopen(fname.c_str(), "wb");
+    pFile = fopen(fname_tmp.c_str(), "wb");
     if (pFile == nullptr) {
         throw std::runtime_error("The file " + fname + " could not be opened for writing.");
     }
 
     // write
-    fwrite(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
+    size_t size_result = fwrite(bytes.data(), 1, sizeof(byte_t) * bytes.size(), pFile);
 
     // close file
-    fclose(pFile);
+    bool is_closed = fclose(pFile) == 0;
+
+    if (!is_closed || size_result != sizeof(byte_t) * bytes.size()) {
+        std::filesystem::remove(fname_tmp);
+        throw std::runtime_error("The matrix could not be written to the file " + fname + ".");
+    }
+
+    std::filesystem::rename(fname_tmp, fname);
 }
 
 template <typename Scalar>
-- 
2.43.0


From 9329a196e0a88ba07c865e7098ba0771401ef40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 60/75] fix: threads overwrote each other's marks of the pair
 states that are needed

---
 pairinteraction/HamiltonianTwo.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 9b36a97..b42198a 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -23,6 +23,8 @@
 
 #include <fmt/format.h>
 
+#include <algorithm>
+#include <functional>
 #include <stdexcept>
 #include <utility>
 
@@ -357,8 +359,14 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
 #pragma omp parallel for
     for (int i = 0; i < nSteps_one_i; ++i) {
+        // the threads must not write to the same vector of bits
+        std::vector<bool> necessary_step(this->basis->size(), false);
         energycutoff(*(hamiltonian_one1->get(i)), *(hamiltonian_one2->get(i)), deltaE,
-                     necessary_tmp);
+                     necessary_step);
+
+#pragma omp critical(necessary)
+        std::transform(necessary_step.begin(), necessary_step.end(), necessary_tmp.begin(),
+                       necessary_tmp.begin(), std::logical_or<bool>());
     }
 
     // Apply restrictions due to symmetries
-- 
2.43.0


From 34c1086a074aede7e6c8f600e296b2ffa96bc3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 61/75] fix: a calculation without any step ended with success
 or crashed

---
 pairinteraction/HamiltonianOne.cpp | 5 +++++
 pairinteraction/HamiltonianTwo.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 74280d5..d5b4e79 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -92,6 +92,11 @@ void HamiltonianOne<Scalar>::configure(const Configuration &config) {
         nSteps = 1;
     } else {
         config["steps"] >> nSteps;
+        if (nSteps < 1) {
+            std::string msg("The number of steps has to be at least one.");
+            std::cout << fmt::format(">>ERR{:s}", msg) << std::endl;
+            throw std::runtime_error(msg);
+        }
     }
 }
 
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index b42198a..735bba7 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -185,6 +185,12 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
         nSteps_two = 1;
     }
 
+    if (nSteps_two < 1) {
+        std::string msg("The number of steps has to be at least one.");
+        std::cout << fmt::format(">>ERR{:s}", msg) << std::endl;
+        throw std::runtime_error(msg);
+    }
+
     ////////////////////////////////////////////////////////
     ////// Restrict single atom states /////////////////////
     ////////////////////////////////////////////////////////
-- 
2.43.0


From 9a2951c642b1e03755d7a099083296585ef8105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:54 +0000
Subject: [PATCH 62/75] fix: an error message of the engine crashed the thread
 of the interface that reads its output

---
 pairinteraction_gui/worker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/worker.py b/pairinteraction_gui/worker.py
index 1a62e91..f3e9bda 100644
--- a/pairinteraction_gui/worker.py
+++ b/pairinteraction_gui/worker.py
@@ -49,6 +49,9 @@ class Worker(QThread):
             if self.exiting or not line or self.all_queues.finishedgracefully:
                 break
             self.all_queues.processOneLine(line)
+            if self.all_queues.criticalmessage is not None:
+                self.criticalsignal.emit(self.all_queues.criticalmessage)
+                self.all_queues.criticalmessage = None
 
         # Clear data queue if thread has aborted
         if not self.all_queues.finishedgracefully:
@@ -76,6 +79,7 @@ class AllQueues:
         self.status_type = ""
         self.status_progress = ""
 
+        self.criticalmessage = None
         self.finishedgracefully = False
 
     def processOneLine(self, line):
@@ -123,7 +127,7 @@ class AllQueues:
             self.dataqueues[self._type % 3].put([filestep, blocks, blocknumber, filename])
 
         elif line[:5] == ">>ERR":
-            self.criticalsignal.emit(line[5:].strip())
+            self.criticalmessage = line[5:].strip()
 
         elif line[:5] == ">>END":
             self.finishedgracefully = True
-- 
2.43.0


From 99a193aa9a996fc515934f75b2559068ef1f385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:17 +0000
Subject: [PATCH 63/75] fix: memory was overwritten if reflection symmetry was
 requested for a basis without mirror images

---
 pairinteraction/HamiltonianTwo.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 735bba7..592a620 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -25,7 +25,9 @@
 
 #include <algorithm>
 #include <functional>
+#include <set>
 #include <stdexcept>
+#include <tuple>
 #include <utility>
 
 template <typename Scalar>
@@ -355,6 +357,34 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
     }
     std::vector<Symmetry> symmetries(symmetries_set.begin(), symmetries_set.end());
 
+    // In case of reflection symmetry: the basis must contain the mirror images of its states
+    if (sym_reflection.front() != NA) {
+        auto comp = [](const StateTwoOld &a, const StateTwoOld &b) {
+            return std::tie(a.n, a.l, a.j, a.m) < std::tie(b.n, b.l, b.j, b.m);
+        };
+        std::set<StateTwoOld, decltype(comp)> states(comp);
+        for (const auto &state : *this->basis) {
+            states.insert(state);
+        }
+
+        for (auto state : *this->basis) {
+            float M = state.m[0] + state.m[1];
+            bool used = std::any_of(symmetries.begin(), symmetries.end(), [&](const Symmetry &s) {
+                return s.rotation == NA || s.rotation == M || s.rotation == -M;
+            });
+
+            state.m[0] *= -1;
+            state.m[1] *= -1;
+
+            if (used && states.count(state) == 0) {
+                std::string msg("For reflection symmetry, the basis has to contain the mirror "
+                                "images of its states.");
+                std::cout << fmt::format(">>ERR{:s}", msg) << std::endl;
+                throw std::runtime_error(msg);
+            }
+        }
+    }
+
     // === Build up the list of necessary pair states ===
     std::cout << "Two-atom Hamiltonian, build up the list of necessary pair states" << std::endl;
 
-- 
2.43.0


From af403f968c5792523e67e1d1ee4421ca50cb889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 64/75] fix: C6 coupling of states with l two apart visits the
 l between them

---
 pairinteraction/PerturbativeInteraction.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 9dd04e9..56c93d4 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -174,12 +174,11 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         if (state_col.getL(0) > 0) {
                             array_l0.push_back(state_col.getL(0) - 1);
                         }
-                    } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
+                    } else if (state_row.getL(0) + 2 == state_col.getL(0)) {
+                        array_l0.push_back(state_col.getL(0) - 1);
+                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
                                state_col.getL(0) < n0 - 1) {
                         array_l0.push_back(state_col.getL(0) + 1);
-                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
-                               state_col.getL(0) > 0) {
-                        array_l0.push_back(state_col.getL(0) - 1);
                     }
                     for (int l0 : array_l0) {
 
@@ -191,12 +190,11 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                             if (state_col.getL(1) > 0) {
                                 array_l1.push_back(state_col.getL(1) - 1);
                             }
-                        } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
+                        } else if (state_row.getL(1) + 2 == state_col.getL(1)) {
+                            array_l1.push_back(state_col.getL(1) - 1);
+                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
                                    state_col.getL(1) < n1 - 1) {
                             array_l1.push_back(state_col.getL(1) + 1);
-                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
-                                   state_col.getL(1) > 0) {
-                            array_l1.push_back(state_col.getL(1) - 1);
                         }
                         for (int l1 : array_l1) {
 
-- 
2.43.0


From e7f6ad57825cbff33f8ef9ba6cdc5d4a166dcffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 65/75] fix: perturbative coefficients visit only states with l
 < n

---
 pairinteraction/PerturbativeInteraction.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 56c93d4..4fcfb77 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -44,7 +44,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
         for (int n1 = state.getN(1) - deltaN; n1 <= state.getN(1) + deltaN; ++n1) {
 
             std::vector<int> array_l0;
-            if (state.getL(0) > 0) {
+            if (state.getL(0) > 0 && state.getL(0) - 1 < n0) {
                 array_l0.push_back(state.getL(0) - 1);
             }
             if (state.getL(0) < n0 - 1) {
@@ -53,7 +53,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
             for (int l0 : array_l0) {
 
                 std::vector<int> array_l1;
-                if (state.getL(1) > 0) {
+                if (state.getL(1) > 0 && state.getL(1) - 1 < n1) {
                     array_l1.push_back(state.getL(1) - 1);
                 }
                 if (state.getL(1) < n1 - 1) {
@@ -171,10 +171,11 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         if (state_col.getL(0) < n0 - 1) {
                             array_l0.push_back(state_col.getL(0) + 1);
                         }
-                        if (state_col.getL(0) > 0) {
+                        if (state_col.getL(0) > 0 && state_col.getL(0) - 1 < n0) {
                             array_l0.push_back(state_col.getL(0) - 1);
                         }
-                    } else if (state_row.getL(0) + 2 == state_col.getL(0)) {
+                    } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
+                               state_col.getL(0) - 1 < n0) {
                         array_l0.push_back(state_col.getL(0) - 1);
                     } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
                                state_col.getL(0) < n0 - 1) {
@@ -187,10 +188,11 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                             if (state_col.getL(1) < n1 - 1) {
                                 array_l1.push_back(state_col.getL(1) + 1);
                             }
-                            if (state_col.getL(1) > 0) {
+                            if (state_col.getL(1) > 0 && state_col.getL(1) - 1 < n1) {
                                 array_l1.push_back(state_col.getL(1) - 1);
                             }
-                        } else if (state_row.getL(1) + 2 == state_col.getL(1)) {
+                        } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
+                                   state_col.getL(1) - 1 < n1) {
                             array_l1.push_back(state_col.getL(1) - 1);
                         } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
                                    state_col.getL(1) < n1 - 1) {
-- 
2.43.0


From 7dcb27ea08fee0005252246331952d06c7d5083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 66/75] fix: perturbative coefficients visit every j that a
 dipole reaches

---
 pairinteraction/PerturbativeInteraction.cpp | 47 +++++++--------------
 1 file changed, 15 insertions(+), 32 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 4fcfb77..3bdfc14 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -62,30 +62,17 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
                 for (int l1 : array_l1) {
 
                     std::set<float> array_j0;
-                    if (std::abs(std::abs(l0 - state.getS(0)) - state.getJ(0)) < 2) {
-                        array_j0.insert(std::abs(l0 - state.getS(0)));
-                    }
-                    if (std::abs(l0 + state.getS(0) - state.getJ(0)) < 2) {
-                        array_j0.insert(l0 + state.getS(0));
-                    }
-                    if (array_j0.size() == 2) {
-                        for (float j0 = std::abs(l0 - state.getS(0)) + 1; j0 < l0 + state.getS(0);
-                             ++j0) {
+                    for (float j0 = std::abs(l0 - state.getS(0)); j0 <= l0 + state.getS(0); ++j0) {
+                        if (std::abs(j0 - state.getJ(0)) < 2) {
                             array_j0.insert(j0);
                         }
                     }
                     for (float j0 : array_j0) {
 
                         std::set<float> array_j1;
-                        if (std::abs(std::abs(l1 - state.getS(1)) - state.getJ(1)) < 2) {
-                            array_j1.insert(std::abs(l1 - state.getS(1)));
-                        }
-                        if (std::abs(l1 + state.getS(1) - state.getJ(1)) < 2) {
-                            array_j1.insert(l1 + state.getS(1));
-                        }
-                        if (array_j1.size() == 2) {
-                            for (float j1 = std::abs(l1 - state.getS(1)) + 1;
-                                 j1 < l1 + state.getS(1); ++j1) {
+                        for (float j1 = std::abs(l1 - state.getS(1)); j1 <= l1 + state.getS(1);
+                             ++j1) {
+                            if (std::abs(j1 - state.getJ(1)) < 2) {
                                 array_j1.insert(j1);
                             }
                         }
@@ -201,24 +188,20 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         for (int l1 : array_l1) {
 
                             std::set<float> array_j0;
-                            if (std::abs(std::abs(l0 - s[0]) - state_col.getJ(0)) < 2 &&
-                                std::abs(std::abs(l0 - s[0]) - state_row.getJ(0)) < 2) {
-                                array_j0.insert(std::abs(l0 - s[0]));
-                            }
-                            if (std::abs(l0 + s[0] - state_col.getJ(0)) < 2 &&
-                                std::abs(l0 + s[0] - state_row.getJ(0)) < 2) {
-                                array_j0.insert(l0 + s[0]);
+                            for (float j0 = std::abs(l0 - s[0]); j0 <= l0 + s[0]; ++j0) {
+                                if (std::abs(j0 - state_col.getJ(0)) < 2 &&
+                                    std::abs(j0 - state_row.getJ(0)) < 2) {
+                                    array_j0.insert(j0);
+                                }
                             }
                             for (float j0 : array_j0) {
 
                                 std::set<float> array_j1;
-                                if (std::abs(std::abs(l1 - s[1]) - state_col.getJ(1)) < 2 &&
-                                    std::abs(std::abs(l1 - s[1]) - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(std::abs(l1 - s[1]));
-                                }
-                                if (std::abs(l1 + s[1] - state_col.getJ(1)) < 2 &&
-                                    std::abs(l1 + s[1] - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(l1 + s[1]);
+                                for (float j1 = std::abs(l1 - s[1]); j1 <= l1 + s[1]; ++j1) {
+                                    if (std::abs(j1 - state_col.getJ(1)) < 2 &&
+                                        std::abs(j1 - state_row.getJ(1)) < 2) {
+                                        array_j1.insert(j1);
+                                    }
                                 }
                                 for (float j1 : array_j1) {
 
-- 
2.43.0


From 13b2858e6b65d6d90f72cf3943e4990b127cb94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:59 +0000
Subject: [PATCH 67/75] fix: diamagnetic interaction within equal l, j, m
 lacked its rank-two part in the calculation engine

---
 pairinteraction/HamiltonianOne.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index d5b4e79..c363389 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -281,8 +281,10 @@ void HamiltonianOne<Scalar>::build() {
             if (diamagnetism && (exist_B_0 || exist_B_1) &&
                 selectionRulesMultipole(state_row, state_col, 0, 0)) {
                 size_diamagnetism_00++;
-            } else if (diamagnetism && (exist_B_0 || exist_B_1) &&
-                       selectionRulesMultipole(state_row, state_col, 2, 0)) {
+            }
+
+            if (diamagnetism && (exist_B_0 || exist_B_1) &&
+                selectionRulesMultipole(state_row, state_col, 2, 0)) {
                 size_diamagnetism_20++;
             } else if (diamagnetism && (exist_B_0 && exist_B_1) &&
                        selectionRulesMultipole(state_row, state_col, 2, 1)) {
@@ -381,8 +383,10 @@ void HamiltonianOne<Scalar>::build() {
                 if (std::abs(val) > tol) {
                     hamiltonian_diamagnetism_00.addEntries(state_row.idx, state_col.idx, val);
                 }
-            } else if (diamagnetism && (exist_B_0 || exist_B_1) &&
-                       selectionRulesMultipole(state_row, state_col, 2, 0)) {
+            }
+
+            if (diamagnetism && (exist_B_0 || exist_B_1) &&
+                selectionRulesMultipole(state_row, state_col, 2, 0)) {
                 double val = matrix_elements.getDiamagnetism(state_row, state_col, 2);
                 if (std::abs(val) > tol) {
                     hamiltonian_diamagnetism_20.addEntries(state_row.idx, state_col.idx, val);
-- 
2.43.0


From 0b142c765d604fa1b08f3ec50fbfcc78938dced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:53 +0000
Subject: [PATCH 68/75] fix: field updates reach both atoms of a pair in the
 Python back end

---
 pairinteraction_gui/pipy/atom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 7b38c45..b632d99 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -396,11 +396,13 @@ class AtomOne(Atom):
         if any(update.values()):
             self.energies, self.overlaps, self.vectors = None, None, None
 
+            # the atoms of a pair share their user dictionary, so only the fields of this atom may be changed
+            part = getattr(config, "iAtom", 1)
             if update["Efield"]:
-                config.setEfield(Efield, "")
+                config.setEfield(Efield, part)
                 self.system.setEfield(config.Efield())
             if update["Bfield"]:
-                config.setBfield(Bfield, "")
+                config.setBfield(Bfield, part)
                 self.system.setBfield(config.Bfield())
 
             return True
-- 
2.43.0


From 0983688507e33616820847e23f1899a4ed29b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:54 +0000
Subject: [PATCH 69/75] fix: energies of the initial states are known without
 energy restriction in the Python back end

---
 pairinteraction_gui/pipy/atom.py   | 2 ++
 pairinteraction_gui/pipy/config.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index b632d99..8513a2c 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -485,6 +485,8 @@ class AtomTwo(Atom):
             minq, maxq = config.restrictQnPair(q)
             if minq is not None and maxq is not None:
                 raise NotImplementedError("Restricting QN for SystemTwo is not implemented yet.")
+        # the energies of the pair states are needed later on, even if the energy is not restricted
+        config.getEnergiesPair(atom1=self.atom1, atom2=self.atom2)
         minEnergy, maxEnergy = config.restrictEnergyPair(atom1=self.atom1, atom2=self.atom2)
         if minEnergy is not None and maxEnergy is not None:
             system.restrictEnergy(minEnergy, maxEnergy)
diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index d7b42de..3e40182 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -235,7 +235,7 @@ class Config:
             "species": self.species(part),
             "momenta": self.momentaSingle(part),
         }
-        output["_energies"] = getattr(self, f"_energiesSingle{part}", None)
+        output["_energies"] = self.getEnergiesSingle(part)
         for Q in ["Energy", "N", "L", "J", "M"]:
             minQ, maxQ = self.restrictQnSingle(Q, part)
             output.update({f"min{Q}": minQ, f"max{Q}": maxQ})
-- 
2.43.0


From 719895c3cf134410a31210d0c1958b1e14a92b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:54 +0000
Subject: [PATCH 70/75] fix: initial states of the first atom stay its own when
 both form the pair in the Python back end

---
 pairinteraction_gui/pipy/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index 3e40182..be1e6af 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -332,7 +332,7 @@ class Config:
         elif self.useQnumbersSingleAsPair():
             qnsSingle = self.qnumbersSingle(1)
             if not self.useSameAtom():
-                qnsSingle += self.qnumbersSingle(2)
+                qnsSingle = qnsSingle + self.qnumbersSingle(2)
             if len(qnsSingle) != 2:
                 raise ValueError("When useQnumbersSingleAsPair there must be exactly two qnumbersSingle.")
             qnumbers = [(*qnsSingle[0], *qnsSingle[1])]
-- 
2.43.0


From 0e946f92b25b47c7828827abb51595dcd0abf0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:54 +0000
Subject: [PATCH 71/75] fix: conserved momenta of strontium pairs can be stored
 by the Python back end

---
 pairinteraction_gui/pipy_thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 10eb90a..bc919de 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -365,7 +365,7 @@ def params_to_settings(params):
                         "WARNING: conserveM but not only plot same symmetry sector. "
                         "no deltaMSingle, deltaJSingle or deltaLSingle given, failed to determine allowed momenta. "
                     )
-                allowedMomenta = list({m1 + m2 for m1 in allowed_m1 for m2 in allowed_m2})
+                allowedMomenta = list({float(m1 + m2) for m1 in allowed_m1 for m2 in allowed_m2})
             else:
                 if config.get("zerotheta", False):
                     allowedMomenta = [config["m1"] + config["m2"]]
-- 
2.43.0


From 4b25d0cda579349a59aca621cf9396f053d9b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:54 +0000
Subject: [PATCH 72/75] fix: copies of atoms in the Python back end keep their
 parameters and stay up to date

---
 pairinteraction_gui/pipy/atom.py   | 3 +++
 pairinteraction_gui/pipy/config.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 8513a2c..4976251 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -458,10 +458,13 @@ class AtomTwo(Atom):
         """
         config = self.config.deepCopy()
         new = AtomTwo(config)
+        # like the original, the atoms share their user dictionary with the pair
         if self._atom1 is not None:
             new._atom1 = self.atom1.copy()
+            new._atom1.config._dic = config._dic
         if self._atom2 is not None and not self.config.useSameAtom():
             new._atom2 = self.atom2.copy()
+            new._atom2.config._dic = config._dic
         new._system = self.copySystem()
         return new
 
diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index be1e6af..c58ad38 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -112,7 +112,10 @@ class Config:
 
     def deepCopy(self) -> "Config":
         """Copy the Config object and also copy the underlying user dictionary."""
-        return Config(self._dic.copy())
+        new = Config(self._dic.copy())
+        # keep which atom the configuration is for and the energies that were determined so far
+        new.__dict__.update({k: v for k, v in self.__dict__.items() if k != "_dic"})
+        return new
 
     # Single atom parameters
     def _getSingle(self, key, part, default=InvalidKey):
-- 
2.43.0


From 3a0b8dc4fc6dc34b5cedb0eaf7087183b5ece70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:54 +0000
Subject: [PATCH 73/75] fix: energies of the second atom belong to its own
 species in the Python back end

---
 pairinteraction_gui/pipy/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index c58ad38..d247e73 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -227,7 +227,7 @@ class Config:
                 from pairinteraction import pireal
 
                 pi = pireal
-            states = [pi.StateOne(self.species(), *qn) for qn in self.qnumbersSingle(part)]
+            states = [pi.StateOne(self.species(part), *qn) for qn in self.qnumbersSingle(part)]
             energies = [s.getEnergy() for s in states]
             setattr(self, f"_energiesSingle{part}", energies)
         return getattr(self, f"_energiesSingle{part}")
-- 
2.43.0


From 6c09d0a2f32c8f41881e2d8a1bcf6edf6f7fb7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:25 +0000
Subject: [PATCH 74/75] fix: an interrupted save of Wigner d-matrix elements no
 longer breaks the interface's cache

---
 pairinteraction_gui/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/utils.py b/pairinteraction_gui/utils.py
index 409d142..c24b024 100644
--- a/pairinteraction_gui/utils.py
+++ b/pairinteraction_gui/utils.py
@@ -36,9 +36,12 @@ class Wignerd:
             if not self.cachupdatedict[k]:
                 continue
             path = os.path.join(self.cachedir, k)
-            with open(path, "wb") as f:
+            # a file that is not complete must never be found under the name of the cache
+            path_tmp = f"{path}.{os.getpid()}.tmp"
+            with open(path_tmp, "wb") as f:
                 pickle.dump(v, f, pickle.HIGHEST_PROTOCOL)
-                self.cachupdatedict[k] = False
+            os.replace(path_tmp, path)
+            self.cachupdatedict[k] = False
 
     def calc(self, j, m2, m1, beta):
         sgn = 1
-- 
2.43.0


From a6a78c2ab2eadb168426ba110a88c13ca2128533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:26 +0000
Subject: [PATCH 75/75] fix: overlaps of an earlier calculation no longer
 assign energies in the Python back end

---
 pairinteraction_gui/pipy/atom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 4976251..75a983c 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -204,6 +204,7 @@ class Atom:
         else:
             self.sorted_inds = None
 
+        self.overlaps = None  # overlaps of an earlier calculation may be in another order
         if calc_overlaps:  # this is slow, so only do it if necessary
             self.overlaps = np.array([system.getOverlap(state) for state in self.allStates])
             if sort:
-- 
2.43.0

