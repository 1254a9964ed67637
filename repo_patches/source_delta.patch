From f779c881c1849702f0faa54da5ba037e8fce567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 1/8] fix: keep row and column 1 inside the relaxation area

relax_area_ was clamped to start at cell 2 while body_area_ and the initial
relax_area_ start at cell 1, so soil piled up in the first interior row or
column was never relaxed and equilibrium_ was reported over an unstable slope.
---
 soil_simulator/relax.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index cb6f5a5..0db22ed 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -127,11 +127,11 @@ void soil_simulator::RelaxTerrain(
 
     // Updating relax_area
     sim_out->relax_area_[0][0] = std::max(
-        relax_min_x - sim_param.cell_buffer_, 2);
+        relax_min_x - sim_param.cell_buffer_, 1);
     sim_out->relax_area_[0][1] = std::min(
         relax_max_x + sim_param.cell_buffer_, 2 * grid.half_length_x_);
     sim_out->relax_area_[1][0] = std::max(
-        relax_min_y - sim_param.cell_buffer_, 2);
+        relax_min_y - sim_param.cell_buffer_, 1);
     sim_out->relax_area_[1][1] = std::min(
         relax_max_y + sim_param.cell_buffer_, 2 * grid.half_length_y_);
 }
-- 
2.43.0


From 4af2e0fe46f1ca9763c5849b9a94f168861bde24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 2/8] fix: do not leak the new soil records when RelaxBodySoil
 throws

---
 soil_simulator/relax.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index 0db22ed..5704f1a 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -168,8 +168,7 @@ void soil_simulator::RelaxBodySoil(
         {1, 0}, {-1, 0}, {0, 1}, {0, -1}};
 
     // Initializing queue for new body_soil_pos
-    std::vector<soil_simulator::body_soil> *new_body_soil_pos = (
-        new std::vector<soil_simulator::body_soil>);
+    std::vector<soil_simulator::body_soil> new_body_soil_pos;
 
     // Iterating over all body_soil cells
     for (auto nn = 0; nn < sim_out->body_soil_pos_.size(); nn++) {
@@ -216,16 +215,15 @@ void soil_simulator::RelaxBodySoil(
 
             // Relaxing the soil cell
             RelaxUnstableBodyCell(
-                sim_out, status, new_body_soil_pos, dh_max, nn, ii, jj, ind,
+                sim_out, status, &new_body_soil_pos, dh_max, nn, ii, jj, ind,
                 ii_c, jj_c, grid, body, tol);
         }
     }
 
     // Adding new body_soil_pos
-    for (auto nn = 0; nn < new_body_soil_pos->size(); nn++) {
-        sim_out->body_soil_pos_.push_back((*new_body_soil_pos)[nn]);
+    for (auto nn = 0; nn < new_body_soil_pos.size(); nn++) {
+        sim_out->body_soil_pos_.push_back(new_body_soil_pos[nn]);
     }
-    delete new_body_soil_pos;
 }
 
 /// It is important to note that the cells selected by this function are not
-- 
2.43.0


From 777e96c38868033390d8bdfa1c15e0fde8144ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 3/8] fix: do not overwrite a result file whose existence check
 failed

---
 soil_simulator/utils.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/soil_simulator/utils.cpp b/soil_simulator/utils.cpp
index 444b0a6..e18fba8 100644
--- a/soil_simulator/utils.cpp
+++ b/soil_simulator/utils.cpp
@@ -7,9 +7,11 @@ Copyright, 2023, Vilella Kenny.
 #include <source_location>
 #include <algorithm>
 #include <cmath>
+#include <filesystem>
 #include <iostream>
 #include <fstream>
 #include <string>
+#include <system_error>
 #include <vector>
 #include "soil_simulator/utils.hpp"
 #include "soil_simulator/types.hpp"
@@ -511,8 +513,9 @@ void soil_simulator::WriteSoil(
             + ".csv");
 
         // Checking if file exists
-        std::ifstream infile(terrain_filename);
-        if (!infile.good()) {
+        // A failed check is not an evidence that the file does not exist
+        std::error_code error;
+        if (!std::filesystem::exists(terrain_filename, error) && !error) {
             // File does not exist
             break;
         }
@@ -592,8 +595,9 @@ void soil_simulator::WriteBody(
             + ".csv");
 
         // Checking if file exists
-        std::ifstream infile(bucket_filename);
-        if (!infile.good()) {
+        // A failed check is not an evidence that the file does not exist
+        std::error_code error;
+        if (!std::filesystem::exists(bucket_filename, error) && !error) {
             // File does not exist
             break;
         }
@@ -666,8 +670,9 @@ void soil_simulator::WriteBody(
             + ".csv");
 
         // Checking if file exists
-        std::ifstream infile(blade_filename);
-        if (!infile.good()) {
+        // A failed check is not an evidence that the file does not exist
+        std::error_code error;
+        if (!std::filesystem::exists(blade_filename, error) && !error) {
             // File does not exist
             break;
         }
-- 
2.43.0


From b4096f9d884de0e25c6d75db3f603632c8810bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 4/8] fix: do not create empty soil layers when carried soil
 has fully moved

When RelaxBodySoil moved all the soil of a record in one direction, the
remaining directions were still examined, and a soil layer of zero thickness
with a zero-height record was created on the next unoccupied body column.
---
 soil_simulator/relax.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index 5704f1a..48c6acb 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -194,6 +194,11 @@ void soil_simulator::RelaxBodySoil(
 
         // Iterating over the possible directions
         for (auto xy = 0; xy < directions.size(); xy++) {
+            if (sim_out->body_soil_pos_[nn].h_soil < tol) {
+                // All the soil has been moved
+                break;
+            }
+
             int ii_c = ii + directions[xy][0];
             int jj_c = jj + directions[xy][1];
 
-- 
2.43.0


From 8932bca8517ebcae737b42e7e91280bbb1db8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 5/8] fix: keep avalanching terrain on the vertical grid

RelaxUnstableTerrainCell gave all rounding errors of the two columns to the
receiving one, so they were passed on and added up over time: after some
100000 steps terrain heights were 0.1 cell away from the vertical grid.
---
 soil_simulator/relax.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index 48c6acb..abf4286 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -606,6 +606,9 @@ void soil_simulator::RelaxUnstableTerrainCell(
             (h_new + tol) / grid.cell_size_z_);
         h_new_c = (
             sim_out->terrain_[ii][jj] + sim_out->terrain_[ii_c][jj_c] - h_new);
+        // Converting to a multiple of cell_size_z to deal with accumulating
+        // floating errors
+        h_new_c = grid.cell_size_z_ * round(h_new_c / grid.cell_size_z_);
         float body_bot;
 
         if (st[0] == '4') {
-- 
2.43.0


From 146bc5cae607c0dc0b2fe03a39482ed3c4b86b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 6/8] fix: compare distances of carried soil in one unit

The distance within which carried soil looks for a surface to settle on was
initialised with a number of cells although it is compared with heights, so on
sites with cells larger than one unit of length the soil was spilled onto the
terrain instead of being moved to the nearest surface.
---
 soil_simulator/body_soil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/body_soil.cpp b/soil_simulator/body_soil.cpp
index c617f4a..17c39b3 100644
--- a/soil_simulator/body_soil.cpp
+++ b/soil_simulator/body_soil.cpp
@@ -117,7 +117,8 @@ void soil_simulator::UpdateBodySoil(
         int ii_s;
         int jj_s;
         int ind_s;
-        float dist_s = 2 * grid.half_length_z_;
+        float dist_max = 2 * grid.half_length_z_ * grid.cell_size_z_;
+        float dist_s = dist_max;
 
         // Starting loop over neighbours
         for (auto xy = 0; xy < directions.size(); xy++) {
@@ -188,7 +189,7 @@ void soil_simulator::UpdateBodySoil(
         }
 
         if (!soil_moved) {
-            if (dist_s != 2 * grid.half_length_z_) {
+            if (dist_s != dist_max) {
                 // Moving body_soil to closest location, this implementation
                 // works regardless of the presence of body_soil
                 sim_out->body_soil_[ind_s][ii_s][jj_s] += (
-- 
2.43.0


From b017036b2427591e90a86b081a361b1dbcb118a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 7/8] fix: place the grid lines at whole multiples of the cell
 size

With a site height that is not a whole number of cells, the machine was drawn
on a vertical grid shifted against the terrain; adding up the cell size also
collected rounding errors over the height of the site.
---
 soil_simulator/types.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/soil_simulator/types.cpp b/soil_simulator/types.cpp
index 25c6ed3..37f3caf 100644
--- a/soil_simulator/types.cpp
+++ b/soil_simulator/types.cpp
@@ -60,17 +60,16 @@ soil_simulator::Grid::Grid(
     vect_y_.resize(2 * half_length_y_ + 1);
     vect_z_.resize(2 * half_length_z_ + 1);
 
-    vect_x_[0] = -grid_size_x;
-    for (auto ii = 1 ; ii < vect_x_.size() ; ii++)
-        vect_x_[ii] = vect_x_[ii-1] + cell_size_xy;
+    // The grid is centred in 0, also when its size is not a multiple of the
+    // cell size
+    for (auto ii = 0 ; ii < vect_x_.size() ; ii++)
+        vect_x_[ii] = (ii - half_length_x_) * cell_size_xy;
 
-    vect_y_[0] = -grid_size_y;
-    for (auto ii = 1 ; ii < vect_y_.size() ; ii++)
-        vect_y_[ii] = vect_y_[ii-1] + cell_size_xy;
+    for (auto ii = 0 ; ii < vect_y_.size() ; ii++)
+        vect_y_[ii] = (ii - half_length_y_) * cell_size_xy;
 
-    vect_z_[0] = -grid_size_z + cell_size_z;
-    for (auto ii = 1 ; ii < vect_z_.size() ; ii++)
-        vect_z_[ii] = vect_z_[ii-1] + cell_size_z;
+    for (auto ii = 0 ; ii < vect_z_.size() ; ii++)
+        vect_z_[ii] = (ii + 1 - half_length_z_) * cell_size_z;
 }
 
 soil_simulator::Body::Body(
-- 
2.43.0


From dfbbe8644c8619727dad62575a079ed2aa4618c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 8/8] fix: keep avalanching carried soil on the vertical grid

RelaxUnstableBodyCell moved the rounding error of a whole column along with
each parcel. With thousands of parcels these errors gathered in the lowest
columns: a blade with a large load on cells of one centimetre left terrain
0.4 cells away from the vertical grid within a single step.
---
 soil_simulator/relax.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index abf4286..98aab58 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -1293,4 +1293,20 @@ void soil_simulator::RelaxUnstableBodyCell(
                 {0, ii_c, jj_c, pos[0], pos[1], pos[2], h_soil});
         }
     }
+
+    // Converting to a multiple of cell_size_z to deal with accumulating
+    // floating errors
+    auto snap_to_grid = [grid](float* height) {
+        *height = grid.cell_size_z_ * round(*height / grid.cell_size_z_);
+    };
+    snap_to_grid(&sim_out->body_soil_pos_[nn].h_soil);
+    snap_to_grid(&sim_out->body_soil_[ind+1][ii][jj]);
+    if (st[1] == '0') {
+        snap_to_grid(&sim_out->terrain_[ii_c][jj_c]);
+    } else {
+        snap_to_grid(&sim_out->body_soil_[1][ii_c][jj_c]);
+        snap_to_grid(&sim_out->body_soil_[3][ii_c][jj_c]);
+        if (body_soil_pos->size() > 0)
+            snap_to_grid(&body_soil_pos->back().h_soil);
+    }
 }
-- 
2.43.0

