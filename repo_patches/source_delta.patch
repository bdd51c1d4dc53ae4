From 8bc494a2a7659f3fee4aad03302fe544809bf030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 01/18] fix: consider every valid decomposition when looking
 for the cheapest

The search started at the second candidate, so the first one was only ever
used when it was the only one.
---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 8c0f2a3..bda1f02 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -71,7 +71,7 @@ CubeDecomp::computeOptimalDecomp() {
     // find the optimal decomp
     std::vector<size_t> bestDecomp = validDecomps[0];
     double minCost = std::numeric_limits<double>::max();
-    for (size_t i = 1; i < validDecomps.size(); ++i) {
+    for (size_t i = 0; i < validDecomps.size(); ++i) {
       double cost = this->computeCost(validDecomps[i]);
       if (cost < minCost) {
         minCost = cost;
-- 
2.43.0


From bf5cda0dcbaaa75d93dd3b9bf8e1325626fa5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 02/18] fix: wrap neighbour ranks any number of times

getNeighborRank wrapped once only and returned an invalid rank when the
direction was longer than the processor grid.
---
 cxx/CubeDecomp.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index bda1f02..c99490c 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -119,12 +119,8 @@ CubeDecomp::getNeighborRank(int rk, const std::vector<int>& dir) {
       indOffset[i] = inds[i] + dir[i];
 
       // apply periodic BCs outside of domain
-      if (indOffset[i] < 0) {
-        indOffset[i] += this->decomp[i];
-      }
-      else if (indOffset[i] >= this->decomp[i]) {
-        indOffset[i] -= this->decomp[i];
-      }
+      int n = (int) this->decomp[i];
+      indOffset[i] = ((indOffset[i] % n) + n) % n;
 
     }
     return (int) this->mit.computeBigIndex(indOffset);
-- 
2.43.0


From 052f140fe96f0a51e0a31cfc92e95aa8504fa07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 03/18] fix: wrap negative indices correctly when applying the
 filter

indOffset[j] %= size_t converts a negative index to a huge unsigned number,
which gives the wrong cell unless the number of cells is a power of two.
---
 cxx/Filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 005b23e..758fa56 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -237,7 +237,8 @@ Filter::applyFilter() {
         for (size_t j = 0; j < this->ndims; ++j) {
           indOffset[j] = (int) inds[j] + offset[j];
           // periodic boundary conditions
-          indOffset[j] %= this->globalDims[j];
+          const int n = (int) this->globalDims[j];
+          indOffset[j] = ((indOffset[j] % n) + n) % n;
 
           // check if inside local MPI domain
           insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
-- 
2.43.0


From d0c5e2a9a850fdea7a292f9053cf827f1b64d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 04/18] fix: fetch halo data from the adjacent sub-domain for
 any stencil reach

The offset in cells was used as an offset in sub-domains, so stencil branches
reaching further than one cell read from the wrong process.
---
 cxx/Filter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 758fa56..b34f708 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -210,7 +210,12 @@ Filter::applyFilter() {
       const std::vector<int>& side = this->getSideFromOffset(offset);
 
       // apply periodic BCs, sub-domains wrap around to find the neighbor rank
-      int neighborRk = this->dcmp.getNeighborRank(this->rk, offset);
+      // (side points from the neighbor back to this sub-domain)
+      std::vector<int> dir(side);
+      for (size_t j = 0; j < this->ndims; ++j) {
+        dir[j] = -side[j];
+      }
+      int neighborRk = this->dcmp.getNeighborRank(this->rk, dir);
 
       MultiArrayIter wit = this->getWindowIter(neighborRk, side);
 
-- 
2.43.0


From 4fe445531098d54d409ae742a980d47fc267a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 05/18] fix: create one window per side, wide enough for every
 stencil branch

With several offsets on the same side the window had the width of the first
one and a window and its memory were leaked for each of the others.
---
 cxx/Filter.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index b34f708..2a7ea4a 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -70,10 +70,15 @@ Filter::Filter(const std::vector<size_t>& globalDims,
       const std::vector<int> side = this->getSideFromOffset(offset);
       const size_t numGhosts = this->getNumberOfGhostsFromOffset(offset);
 
-      std::pair< std::vector<int>, size_t > pSNG(side, numGhosts);
-      this->winNumGhosts.insert(pSNG);
+      // several offsets can share a side, the window must fit the largest one
+      size_t& maxNumGhosts = this->winNumGhosts[side];
+      maxNumGhosts = (numGhosts > maxNumGhosts? numGhosts: maxNumGhosts);
+    }
 
-      this->newWindow(side);
+    // one window per side
+    for (std::map< std::vector<int>, size_t >::const_iterator it = this->winNumGhosts.begin();
+      it != this->winNumGhosts.end(); ++it) {
+      this->newWindow(it->first);
     }
 }
 
-- 
2.43.0


From 3286e24eeb82e1188abcedf615407c5613ca3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 06/18] fix: free a window before the memory it exposes

MPI requires the memory of a window to stay allocated until MPI_Win_free has
returned on all processes.
---
 cxx/Filter.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 2a7ea4a..928a4a9 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -353,16 +353,17 @@ Filter::newWindow(const std::vector<int>& side) {
 void 
 Filter::deleteWindow(const std::vector<int>& side) {
 
+    // the window must be freed before the memory it exposes
+    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
+    if (winIt != this->windows.end()) {
+      MPI_Win_free(&winIt->second);
+    }
+
     std::map< std::vector<int>, std::pair<double*, double*> >::iterator dataIt = this->winData.find(side);
     if (dataIt != this->winData.end()) {
       MPI_Free_mem(dataIt->second.first);
       MPI_Free_mem(dataIt->second.second);
     }
-    
-    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
-    if (winIt != this->windows.end()) {
-      MPI_Win_free(&winIt->second);
-    }
 
 }
 
-- 
2.43.0


From 5725cc7e687d1be560309510bdcd1901bb90c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 07/18] fix: make a filter without valid decomposition empty

The default constructed iterator was uninitialised, so printing or saving a
filter for which no decomposition exists crashed (mpiexec -n 4 testStencil2d
-numCells 3).
---
 cxx/Filter.cpp       | 5 +++++
 cxx/MultiArrayIter.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 928a4a9..83e54b8 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -499,6 +499,11 @@ Filter::computeCheckSum(const std::string& inOrOut) {
 void 
 Filter::saveVTK(const std::string& filename) {
 
+    if (!this->validDecomp) {
+      // no data
+      return;
+    }
+
     size_t ntot = 1;
     for (size_t i = 0; i < this->ndims; ++i) {
       ntot *= globalDims[i];
diff --git a/cxx/MultiArrayIter.h b/cxx/MultiArrayIter.h
index 071dcac..415e2b5 100644
--- a/cxx/MultiArrayIter.h
+++ b/cxx/MultiArrayIter.h
@@ -21,7 +21,7 @@ public:
 /**
  * No argument constructor
  */
-	MultiArrayIter() {}
+	MultiArrayIter() : rowMajor(false), ntot(0), ndims(0), bigIndex(0) {}
 
 /**
  * Constructor
-- 
2.43.0


From a9241332f0117501809370e966bbe47fc3e8e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 08/18] fix: separate the values in VTK files written from
 Python

---
 upwind/python/saveVTK.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/saveVTK.py b/upwind/python/saveVTK.py
index 8ca5095..94cab6a 100644
--- a/upwind/python/saveVTK.py
+++ b/upwind/python/saveVTK.py
@@ -57,6 +57,6 @@ def rectilinear(fname, xAxis, yAxis, zAxis, data):
     f.write("LOOKUP_TABLE default\n")
       
     for i in range(len(flatData)):
-      f.write(f'{flatData[i]}')
+      f.write(f'{flatData[i]} ')
       if (i + 1) % 10 == 0:
           f.write('\n')
-- 
2.43.0


From 968220a07ccb5ebdbf5376cce9583e2b7c106bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 09/18] fix: write the VTK axes of the Fortran solvers in the
 declared order

DIMENSIONS lists the last axis first (it varies fastest) but the coordinates
were written first axis first, giving malformed files when the number of cells
differs between axes.
---
 upwind/fortran/upwind.F90       | 26 +++++++++++++-------------
 upwind/fortran/upwindF03.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08Gpu.F90 | 26 +++++++++++++-------------
 4 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 0e2d7bc..6f4c631 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -182,10 +182,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(1) + 1, ' double'
-        do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
-        enddo
+        if (obj % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
+            do i = 1, obj % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (obj % ndims > 1) then
@@ -199,15 +204,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (obj % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(3) + 1, ' double'
-            do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
+        do i = 1, obj % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index a6ce65f..3848947 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -190,10 +190,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -207,15 +212,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index de381bc..4ab4c0b 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -194,10 +194,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -211,15 +216,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 17d9dd0..21f5db8 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -287,10 +287,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -304,15 +309,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
-- 
2.43.0


From 425adb10ef5ef9ee7f54acfbb923040b72a890e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 10/18] fix: write field values below 1e-99 as valid numbers in
 Fortran VTK files

e20.7 drops the E of a three digit exponent (0.1000000-100), which readers take
for two numbers. Such values appear after some 100 steps.
---
 upwind/fortran/upwind.F90       | 2 +-
 upwind/fortran/upwindF03.F90    | 2 +-
 upwind/fortran/upwindF08.F90    | 2 +-
 upwind/fortran/upwindF08Gpu.F90 | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 6f4c631..d204e09 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -213,7 +213,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, obj % ntot
-            write(iunit, '(e20.7)') obj % f(i)
+            write(iunit, '(e20.7e3)') obj % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 3848947..97d92a3 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -221,7 +221,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index 4ab4c0b..e95953c 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -225,7 +225,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 21f5db8..6e7ab89 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -318,7 +318,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
-- 
2.43.0


From 601c3af828e11498287c6b6d0fe1ec87f558fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 11/18] fix: give each thread its own id when reporting the
 number of threads

The variables were shared between the threads, so the report was printed not at
all or several times.
---
 upwind/fortran/upwind.F90    | 2 +-
 upwind/fortran/upwindF03.F90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index d204e09..a5ac221 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -284,7 +284,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 97d92a3..8b457f1 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -291,7 +291,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
-- 
2.43.0


From 000627ba9e84c6d7fabeacd84cf56b7a7fc64a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 12/18] fix: set the status matmult tests when reading its
 arguments

ier was never set, so the sizes given could be ignored, and an argument that is
no integer aborted the program.
---
 matmult/fortran/matmult.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matmult/fortran/matmult.F90 b/matmult/fortran/matmult.F90
index fb507ee..9794f11 100644
--- a/matmult/fortran/matmult.F90
+++ b/matmult/fortran/matmult.F90
@@ -97,7 +97,7 @@ program test
         if (len_trim(argv) == 0) exit
 
         ! covnert string to integer
-        read(argv, *) val
+        read(argv, *, iostat=ier) val
 
         if (ier == 0) then
 
-- 
2.43.0


From c1acc307aff7f3ac2755a86a0a7d4fb9fc87ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 13/18] fix: support negative velocities in upwindMPI.py

The neighbour was chosen by the sign of the velocity but the slices were those
of a positive velocity.
---
 upwind/python/upwindMPI.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 8cfdce2..9d4c677 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -83,17 +83,22 @@ class Upwind:
     # handle all local computations first
     self.f += c*self.fOld
 
-    self.f[1:, :, :] -= deltaTime*self.coeff[0]*self.fOld[:-1, :, :]
-    self.f[:, 1:, :] -= deltaTime*self.coeff[1]*self.fOld[:, :-1, :]
-    self.f[:, :, 1:] -= deltaTime*self.coeff[2]*self.fOld[:, :, :-1]
-
-    # fetch neighboring data. This is where communication takes place
-    self.f[:1, :, :] -= deltaTime*self.coeff[0]* \
-                        self.fOld.getData(self.neighbRk[0], self.neighbSide[0])
-    self.f[:, :1, :] -= deltaTime*self.coeff[1]* \
-                        self.fOld.getData(self.neighbRk[1], self.neighbSide[1])
-    self.f[:, :, :1] -= deltaTime*self.coeff[2]* \
-                        self.fOld.getData(self.neighbRk[2], self.neighbSide[2])
+    # each cell takes its value from the upwind side, which depends on the sign 
+    # of the velocity
+    for j in range(self.ndims):
+      inner = [slice(None)] * self.ndims
+      upwind = [slice(None)] * self.ndims
+      halo = [slice(None)] * self.ndims
+      if self.upDirection[j] < 0:
+        inner[j], upwind[j], halo[j] = slice(1, None), slice(None, -1), slice(None, 1)
+      else:
+        inner[j], upwind[j], halo[j] = slice(None, -1), slice(1, None), slice(-1, None)
+
+      self.f[tuple(inner)] -= deltaTime*self.coeff[j]*self.fOld[tuple(upwind)]
+
+      # fetch neighboring data. This is where communication takes place
+      self.f[tuple(halo)] -= deltaTime*self.coeff[j]* \
+                          self.fOld.getData(self.neighbRk[j], self.neighbSide[j])
 
   def checksum(self):
     return self.f.reduce(operator.add, 0.0, rootPe=0)
-- 
2.43.0


From ec94b9010a2dbd6315f98236c9e2d065dbf955d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 14/18] fix: take the time steps one after the other when
 offloading with OpenMP

The time loop was distributed over the teams, so steps ran concurrently.
Distribute the cells instead.
---
 upwind/cxx/upwindOMP5.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/upwind/cxx/upwindOMP5.cxx b/upwind/cxx/upwindOMP5.cxx
index 685bc0c..f02ef5a 100644
--- a/upwind/cxx/upwindOMP5.cxx
+++ b/upwind/cxx/upwindOMP5.cxx
@@ -65,15 +65,14 @@ void advect(int numTimeSteps, double deltaTime) {
             map(alloc:fOldPtr[0:ntot]) map(tofrom: fPtr[0:ntot])
     {
 	
-       #pragma omp target teams distribute
 	   for (int istep = 0; istep < numTimeSteps; ++istep) {
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
                 fOldPtr[i] = fPtr[i];
             }
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From c845f7feeda9de4c16c396ae3f2da020a62d0a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:19 +0000
Subject: [PATCH 15/18] fix: count sub-domains without integer overflow

The product of the processor grid was accumulated as an int, so for large grids
a decomposition with 2^32 + 9 sub-domains was accepted for 9 processes.
---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index c99490c..f1b17e5 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -55,7 +55,7 @@ CubeDecomp::computeOptimalDecomp() {
       for (size_t j = 0; j < this->ndims; ++j) {
         decomp[j] = primeNumbers[j][ decompInds[j] ];
       }
-      size_t n = std::accumulate(decomp.begin(), decomp.end(), 1, std::multiplies<size_t>());
+      size_t n = std::accumulate(decomp.begin(), decomp.end(), (size_t) 1, std::multiplies<size_t>());
       if (n == this->nprocs) {
         validDecomps.push_back(decomp);
       }
-- 
2.43.0


From 2ef757d5e849e86ef2a33c446b8ea7cc9e988b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:22 +0000
Subject: [PATCH 16/18] fix: gather plain arrays in upwindMPI.py

---
 upwind/python/upwindMPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 9d4c677..a599c63 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -120,7 +120,7 @@ class Upwind:
     if self.rk == 0:
       res = numpy.zeros(self.numCells, numpy.float64)
 
-    fRoot = MPI.COMM_WORLD.gather(self.f, root=0)
+    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)
 
     if self.rk == 0:
       for rk in range(self.sz):
-- 
2.43.0


From 1d219b4c6b17ee69811547df8ed6c93c733eb427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:02 +0000
Subject: [PATCH 17/18] fix: make the Cython solver work with Python 3 and
 current numpy

---
 upwind/cython/upwind5.pyx | 76 ++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/upwind/cython/upwind5.pyx b/upwind/cython/upwind5.pyx
index 7bea522..39f7e52 100644
--- a/upwind/cython/upwind5.pyx
+++ b/upwind/cython/upwind5.pyx
@@ -1,10 +1,12 @@
 #/usr/bin/env python
 
+from __future__ import print_function
+
 import numpy
 cimport numpy as np
 cimport cython
 
-ITYPE = numpy.int
+ITYPE = numpy.int64
 DTYPE = numpy.double
 # "ctypedef" assigns a corresponding compile-time type to DTYPE_t. For
 # every type in the numpy module there's a corresponding compile-time
@@ -37,12 +39,12 @@ cdef class Upwind:
     self.numCells = numCells
     self.ndims = len(velocity)
     self.deltas = numpy.zeros( (self.ndims,), numpy.float64 )
-    self.upDirection = numpy.zeros( (self.ndims,), numpy.float64 )
+    self.upDirection = numpy.zeros( (self.ndims,), numpy.int64 )
     self.v = velocity
     self.lengths = lengths
     self.ntot = 1
-    self.offsetMat = numpy.identity(self.ndims, numpy.int)
-    self.numCellsExt = numpy.outer(self.numCells, numpy.ones((self.ndims,), numpy.int))
+    self.offsetMat = numpy.identity(self.ndims, numpy.int64)
+    self.numCellsExt = numpy.outer(self.numCells, numpy.ones((self.ndims,), numpy.int64))
     for j in range(self.ndims):
       self.upDirection[j] = -1
       if velocity[j] < 0.: self.upDirection[j] = +1
@@ -50,7 +52,7 @@ cdef class Upwind:
       self.offsetMat[j, j] = self.upDirection[j]
       self.ntot *= numCells[j]
 
-    self.dimProd = numpy.ones( (self.ndims,), numpy.int )
+    self.dimProd = numpy.ones( (self.ndims,), numpy.int64 )
     for i in range(self.ndims - 2, -1, -1):
         # last index varies fastest
         self.dimProd[i] =  self.dimProd[i + 1] * self.numCells[i + 1]
@@ -64,17 +66,17 @@ cdef class Upwind:
     self.f[0] = 1
 
     # array of index sets for each cell
-    self.inds = numpy.zeros( (self.ndims, self.ntot), numpy.int )
+    self.inds = numpy.zeros( (self.ndims, self.ntot), numpy.int64 )
     for j in range(self.ndims):
       self.inds[j, :] = numpy.arange(self.ntot)
-      self.inds[j, :] /= self.dimProd[j]
+      self.inds[j, :] //= self.dimProd[j]
       self.inds[j, :] %= self.numCells[j]
 
     # array of index sets with offsets
     self.indsUp = self.inds.copy()
 
     # flat indices
-    self.flatIndsUp = numpy.zeros( (self.ntot,), numpy.int )
+    self.flatIndsUp = numpy.zeros( (self.ntot,), numpy.int64 )
 
   @cython.boundscheck(False)
   cpdef advect(self, double deltaTime):
@@ -99,49 +101,49 @@ cdef class Upwind:
       self.indsUp[j, :] = self.inds[j, :]
 
 
-  cdef saveVTK(self, fname):
+  cpdef saveVTK(self, fname):
     f = open(fname, 'w')
-    print >> f, "# vtk Data Version 2.0"
-    print >> f, "upwind.cxx"
-    print >> f, "ASCII"
-    print >> f, "DATASET RECTILINEAR_GRID"
-    print >> f, "DIMENSIONS"
+    print("# vtk DataFile Version 2.0", file=f)
+    print("upwind.cxx", file=f)
+    print("ASCII", file=f)
+    print("DATASET RECTILINEAR_GRID", file=f)
+    print("DIMENSIONS", file=f)
     # in VTK the first dimension varies fastest so need 
     # to invert the order of the dimensions
     if self.ndims > 2:
-      print >> f, ' %d' % (self.numCells[2] + 1),
+      print(' %d' % (self.numCells[2] + 1), file=f, end='')
     else:
-      print >> f, " 1",
+      print(" 1", file=f, end='')
     if self.ndims > 1:
-      print >> f, ' %d' % (self.numCells[1] + 1),
+      print(' %d' % (self.numCells[1] + 1), file=f, end='')
     else:
-      print >> f, " 1",
-    print >> f, ' %d\n' % (self.numCells[0] + 1)
-    print >> f, "X_COORDINATES "
+      print(" 1", file=f, end='')
+    print(' %d' % (self.numCells[0] + 1), file=f)
+    print("X_COORDINATES ", file=f)
     if self.ndims > 2:
-      print >> f, self.numCells[2] + 1,  " double"
+      print(self.numCells[2] + 1,  " double", file=f)
       for i in range(self.numCells[2] + 1):
-        print >> f, ' %f' % (0.0 + self.deltas[2] * i)    
+        print(0.0 + self.deltas[2] * i, file=f)
     else:
-      print >> f, "1 double"
-      print >> f, "0.0"
-    print >> f, "Y_COORDINATES "
+      print("1 double", file=f)
+      print("0.0", file=f)
+    print("Y_COORDINATES ", file=f)
     if self.ndims > 1:
-      print >> f, self.numCells[1] + 1,  " double"
+      print(self.numCells[1] + 1,  " double", file=f)
       for i in range(self.numCells[1] + 1): 
-        print >> f, ' %f' % (0.0 + self.deltas[1] * i)  
+        print(0.0 + self.deltas[1] * i, file=f)
     else:
-      print >> f, "1 double"
-      print >> f, "0.0"
-    print >> f, "Z_COORDINATES "
-    print >> f, self.numCells[0] + 1, " double"
+      print("1 double", file=f)
+      print("0.0", file=f)
+    print("Z_COORDINATES ", file=f)
+    print(self.numCells[0] + 1, " double", file=f)
     for i in range(self.numCells[0] + 1):
-      print >> f, ' %f' % (0.0 + self.deltas[0] * i)
-    print >> f, "CELL_DATA %d" % self.ntot
-    print >> f, "SCALARS f double 1"
-    print >> f, "LOOKUP_TABLE default"
+      print(0.0 + self.deltas[0] * i, file=f)
+    print("CELL_DATA %d" % self.ntot, file=f)
+    print("SCALARS f double 1", file=f)
+    print("LOOKUP_TABLE default", file=f)
     for i in range(self.ntot):
-      print >> f, self.f[i]
+      print(self.f[i], file=f)
     f.close()
 
   cpdef checksum(self):
@@ -149,4 +151,4 @@ cdef class Upwind:
 
   cpdef printOut(self):
     for i in range(self.ntot):
-      print i, ' ', self.f[i]
+      print(i, ' ', self.f[i])
-- 
2.43.0


From f675b61d153000f21d273b6c741f98b2450c185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:44 +0000
Subject: [PATCH 18/18] fix: do not refer to the first element of an empty
 vector in Filter::saveVTK

---
 cxx/Filter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 83e54b8..a466173 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -512,13 +512,15 @@ Filter::saveVTK(const std::string& filename) {
     int nLocal = (int) this->outData.size();
 
     std::vector<double> recvBuffer;
+    double* recvData = NULL; // only significant at root
     if (this->rk == 0) {
       recvBuffer.resize(ntot);
+      recvData = &recvBuffer.front();
     }
 
     // gather the data
     MPI_Gather(&this->outData.front(), nLocal, MPI_DOUBLE,
-               &recvBuffer.front(), nLocal, MPI_DOUBLE,
+               recvData, nLocal, MPI_DOUBLE,
                0, MPI_COMM_WORLD);
 
     std::vector<double> globalField;
-- 
2.43.0

