From 67090d2c29fb491b069eedba9abf78a3fda6519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 01/37] fix: size the shell's output vector in shell::resize

resize() only reserved m_out, so every setup and query wrote and read past
the end of an empty vector (and past its capacity beyond 200 ribs).
---
 src/shell.cc         | 1 +
 toolbox/src/shell.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0f17f9a..310d749 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0f17f9a..310d749 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
-- 
2.43.0


From 4c6cedc79e45035b30660335176f3bf82dfc45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 02/37] fix: return true from shell::setup(flat) when any rib
 touches

The result of the last rib overwrote those of the ribs before it.
---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 310d749..37c6bcd 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 310d749..37c6bcd 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
-- 
2.43.0


From fd40ecd3222b5ab02c9bd4641e7ca903b49a9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 03/37] fix: sum the areas in shell::contactArea(real &)

It summed the ribs' frictions.
---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 37c6bcd..0b02eb7 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 37c6bcd..0b02eb7 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 12f4b6782c019bda4bdb719f1f973e16af984747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 04/37] fix: resize the output of vector contactPointAffine and
 relativeAngles

The other vector queries size the caller's vector; these two wrote past its
end when it was smaller than the number of ribs.
---
 src/shell.cc         | 2 ++
 toolbox/src/shell.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0b02eb7..36b26ab 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -842,6 +842,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -884,6 +885,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0b02eb7..36b26ab 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -842,6 +842,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -884,6 +885,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
-- 
2.43.0


From e228c07079589e125cb911e12bb77711e524a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 05/37] fix: let the shell's bounding box enclose the whole
 tyre width

The half extent was the maximum radius; the rims of cambered or wide tyres
stuck out, and ground under them was not found.
---
 src/shell.cc         | 4 +++-
 toolbox/src/shell.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 36b26ab..c9144b0 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -417,7 +417,9 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    real  radius = std::hypot(
+      this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceWidth()
+    );
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 36b26ab..c9144b0 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -417,7 +417,9 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    real  radius = std::hypot(
+      this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceWidth()
+    );
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
-- 
2.43.0


From 0d684acbc50c698130f694bb79d968ea83ba8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 06/37] fix: skip, not stop at, degenerate segments in
 rib::envelopGeometric

A triangle touching the disk in a point made all the following triangles of
the list be ignored.
---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index d3ecc4e..e2333d3 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -271,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d3ecc4e..e2333d3 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -271,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
-- 
2.43.0


From 07cbcde47f5a2b55da4288d71edf29410ad096c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 07/37] fix: measure the sector of a contact segment on the
 segment's side

The polar angles come from atan2; for a segment on the -x side of the rib
they straddle the branch cut and the complementary sector was taken.
---
 src/rib.cc         | 7 +++++++
 toolbox/src/rib.cc | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index e2333d3..008ffec 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -265,6 +265,13 @@ namespace enve
           std::swap(t_a, t_b);
           std::swap(r_a, r_b);
         }
+        // Angle of the segment across the branch cut of atan2
+        if(t_b - t_a > PI)
+        {
+          t_a += real(2.0) * PI;
+          std::swap(t_a, t_b);
+          std::swap(r_a, r_b);
+        }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index e2333d3..008ffec 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -265,6 +265,13 @@ namespace enve
           std::swap(t_a, t_b);
           std::swap(r_a, r_b);
         }
+        // Angle of the segment across the branch cut of atan2
+        if(t_b - t_a > PI)
+        {
+          t_a += real(2.0) * PI;
+          std::swap(t_a, t_b);
+          std::swap(r_a, r_b);
+        }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
 
-- 
2.43.0


From 41b177aba2573963c9e23baa45d25331d593d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 08/37] fix: give a radial geometric contact finite point,
 normal and friction

When every contact segment lies on a radius (a wall through the rib axis) the
segments cut off no volume and the volume-weighted means were 0/0.
---
 src/rib.cc         | 22 +++++++++++++++++++---
 toolbox/src/rib.cc | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 008ffec..066a2b1 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -242,6 +242,10 @@ namespace enve
     vec3  contact_normal_tot(ZEROS_VEC3);
     real  contact_friction_tot = real(0.0);
 
+    point contact_point_radial(ZEROS_VEC3);
+    vec3  contact_normal_radial(ZEROS_VEC3);
+    real  contact_friction_radial = real(0.0);
+
     // Compute remaining contact parameters
     bool int_bool = false;
     segment segment_tmp;
@@ -308,15 +312,27 @@ namespace enve
         contact_point_tot    += segment_volume_tmp * contact_point_tmp;
         contact_normal_tot   += segment_volume_tmp * contact_normal_tmp;
         contact_friction_tot += segment_volume_tmp * contact_friction_tmp;
+        contact_point_radial    += segment_area_tmp * contact_point_tmp;
+        contact_normal_radial   += segment_area_tmp * contact_normal_tmp;
+        contact_friction_radial += segment_area_tmp * contact_friction_tmp;
       }
     }
 
     // Store output
     if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
-      out.point    = contact_point_tot    / segment_volume_tot;
-      out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-      out.friction = contact_friction_tot / segment_volume_tot;
+      real weight_tot = segment_volume_tot;
+      if (!(segment_volume_tot > real(100.0) * acme::EPSILON_MACHINE * radius * radius * width))
+      {
+        // The segments cut off no volume beyond rounding: weight with the area
+        weight_tot           = segment_area_tot;
+        contact_point_tot    = contact_point_radial;
+        contact_normal_tot   = contact_normal_radial;
+        contact_friction_tot = contact_friction_radial;
+      }
+      out.point    = contact_point_tot    / weight_tot;
+      out.normal   = (contact_normal_tot  / weight_tot).normalized();
+      out.friction = contact_friction_tot / weight_tot;
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = segment_area_tot;
       out.volume   = segment_volume_tot;
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 008ffec..066a2b1 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -242,6 +242,10 @@ namespace enve
     vec3  contact_normal_tot(ZEROS_VEC3);
     real  contact_friction_tot = real(0.0);
 
+    point contact_point_radial(ZEROS_VEC3);
+    vec3  contact_normal_radial(ZEROS_VEC3);
+    real  contact_friction_radial = real(0.0);
+
     // Compute remaining contact parameters
     bool int_bool = false;
     segment segment_tmp;
@@ -308,15 +312,27 @@ namespace enve
         contact_point_tot    += segment_volume_tmp * contact_point_tmp;
         contact_normal_tot   += segment_volume_tmp * contact_normal_tmp;
         contact_friction_tot += segment_volume_tmp * contact_friction_tmp;
+        contact_point_radial    += segment_area_tmp * contact_point_tmp;
+        contact_normal_radial   += segment_area_tmp * contact_normal_tmp;
+        contact_friction_radial += segment_area_tmp * contact_friction_tmp;
       }
     }
 
     // Store output
     if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
-      out.point    = contact_point_tot    / segment_volume_tot;
-      out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-      out.friction = contact_friction_tot / segment_volume_tot;
+      real weight_tot = segment_volume_tot;
+      if (!(segment_volume_tot > real(100.0) * acme::EPSILON_MACHINE * radius * radius * width))
+      {
+        // The segments cut off no volume beyond rounding: weight with the area
+        weight_tot           = segment_area_tot;
+        contact_point_tot    = contact_point_radial;
+        contact_normal_tot   = contact_normal_radial;
+        contact_friction_tot = contact_friction_radial;
+      }
+      out.point    = contact_point_tot    / weight_tot;
+      out.normal   = (contact_normal_tot  / weight_tot).normalized();
+      out.friction = contact_friction_tot / weight_tot;
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = segment_area_tot;
       out.volume   = segment_volume_tot;
-- 
2.43.0


From 61fdbf758add5857f1317839bcd877f8ae83bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 09/37] fix: load mesh files into a fresh list and replace the
 contents at the end

A second load of a mesh threw after appending to the first one's triangles,
and a refused file left its first triangles behind with a stale box tree.
---
 src/mesh.cc         | 24 ++++++++++++++++--------
 toolbox/src/mesh.cc | 24 ++++++++++++++++--------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index db7bf1c..c03578d 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -239,7 +239,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -312,7 +313,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -325,17 +326,20 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
       }
       else
       {
+        // Replace the contents of the mesh
+        this->m_triangles.swap(triangles);
+
         // Update the local intersected triangles list
         std::cout
           << "Building AABB tree... ";
@@ -383,7 +387,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -426,7 +431,7 @@ namespace enve
             CMD "element 2 index cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -444,17 +449,20 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
       }
       else
       {
+        // Replace the contents of the mesh
+        this->m_triangles.swap(triangles);
+
         // Update the local intersected triangles list
         std::cout << "Building AABB tree... ";
         this->buildAABBtree();
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index db7bf1c..c03578d 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -239,7 +239,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -312,7 +313,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -325,17 +326,20 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
       }
       else
       {
+        // Replace the contents of the mesh
+        this->m_triangles.swap(triangles);
+
         // Update the local intersected triangles list
         std::cout
           << "Building AABB tree... ";
@@ -383,7 +387,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -426,7 +431,7 @@ namespace enve
             CMD "element 2 index cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -444,17 +449,20 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
       }
       else
       {
+        // Replace the contents of the mesh
+        this->m_triangles.swap(triangles);
+
         // Update the local intersected triangles list
         std::cout << "Building AABB tree... ";
         this->buildAABBtree();
-- 
2.43.0


From da4f2b60d36882e4065c6c84c7b7b97666494552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 10/37] fix: refuse mesh elements that name an undefined node

An index beyond the nodes read so far indexed past the end of the node list.
---
 src/mesh.cc         | 12 ++++++++++++
 toolbox/src/mesh.cc | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index c03578d..3ae55ea 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -305,10 +305,16 @@ namespace enve
           i_friction   = real(std::stod(s_node[3]));
           ENVE_ASSERT(i_element[0] >= integer(0),
             CMD "element 0 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index is not a node.");
           ENVE_ASSERT(i_element[1] >= integer(0),
             CMD "element 1 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index is not a node.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index is not a node.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -425,10 +431,16 @@ namespace enve
           i_element[2] = std::stoi(s_node[2]) - 1;
           ENVE_ASSERT(i_element[0] >= integer(0),
             CMD "element 0 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index is not a node.");
           ENVE_ASSERT(i_element[1] >= integer(0),
             CMD "element 1 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index is not a node.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index is not a node.");
 
           // Create a shared pointer for the last triangle
           triangles.push_back(
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index c03578d..3ae55ea 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -305,10 +305,16 @@ namespace enve
           i_friction   = real(std::stod(s_node[3]));
           ENVE_ASSERT(i_element[0] >= integer(0),
             CMD "element 0 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index is not a node.");
           ENVE_ASSERT(i_element[1] >= integer(0),
             CMD "element 1 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index is not a node.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index is not a node.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -425,10 +431,16 @@ namespace enve
           i_element[2] = std::stoi(s_node[2]) - 1;
           ENVE_ASSERT(i_element[0] >= integer(0),
             CMD "element 0 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index is not a node.");
           ENVE_ASSERT(i_element[1] >= integer(0),
             CMD "element 1 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index is not a node.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index is not a node.");
 
           // Create a shared pointer for the last triangle
           triangles.push_back(
-- 
2.43.0


From 4374eae94377e64209077f4b990149420b37cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 11/37] fix: accept blank lines, tabs and blanks before CR in
 mesh files

An empty line inside a section of an *.rdf file, or a blank before the CR of a
CRLF line end, counted as a line with the wrong number of fields.
---
 src/mesh.cc         | 10 ++++++++--
 toolbox/src/mesh.cc | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 3ae55ea..934e996 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -255,6 +255,9 @@ namespace enve
       real i_friction;
       while (std::getline(file, curline))
       {
+        // Tabs and carriage returns are blanks
+        for (char & c : curline)
+          {if (c == '\t' || c == '\r') {c = ' ';}}
         token = this->firstToken(curline);
         if (token == "[NODES]" || token == "NODES")
         {
@@ -274,7 +277,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
@@ -406,6 +409,9 @@ namespace enve
       point p_node;
       while (std::getline(file, curline))
       {
+        // Tabs and carriage returns are blanks
+        for (char & c : curline)
+          {if (c == '\t' || c == '\r') {c = ' ';}}
         token = this->firstToken(curline);
         if (token == "v")
         {
@@ -451,7 +457,7 @@ namespace enve
             ++elements_count;
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 3ae55ea..934e996 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -255,6 +255,9 @@ namespace enve
       real i_friction;
       while (std::getline(file, curline))
       {
+        // Tabs and carriage returns are blanks
+        for (char & c : curline)
+          {if (c == '\t' || c == '\r') {c = ' ';}}
         token = this->firstToken(curline);
         if (token == "[NODES]" || token == "NODES")
         {
@@ -274,7 +277,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
@@ -406,6 +409,9 @@ namespace enve
       point p_node;
       while (std::getline(file, curline))
       {
+        // Tabs and carriage returns are blanks
+        for (char & c : curline)
+          {if (c == '\t' || c == '\r') {c = ' ';}}
         token = this->firstToken(curline);
         if (token == "v")
         {
@@ -451,7 +457,7 @@ namespace enve
             ++elements_count;
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
-- 
2.43.0


From fe27e94c0c4954847d8a7c4a3d6f62a9df7c964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 12/37] fix: keep the box tree in step in mesh::copy and
 mesh::clear

Queries went on answering for the previous contents, and indexed past the end
of the triangle list after clear().
---
 src/mesh.cc         | 2 ++
 toolbox/src/mesh.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 934e996..56a7843 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,7 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 934e996..56a7843 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,7 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From c9d1c305adc5042f8c86565b7576155be3708790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 13/37] fix: identify a mesh's boxes by triangle position

Queries use the box identifier as index into the triangle list; with triangles
whose own identifiers differ from their positions they returned other triangles
or read past the end.
---
 src/mesh.cc         | 7 ++++---
 toolbox/src/mesh.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 56a7843..9bec679 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -545,9 +545,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
-        );
+        // Identify the box with the position of its triangle
+        aabb box(this->m_triangles[i]->bbox());
+        box.id() = integer(i);
+        this->m_bboxes.push_back(std::make_shared<aabb const>(box));
       }
     }
 
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 56a7843..9bec679 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -545,9 +545,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
-        );
+        // Identify the box with the position of its triangle
+        aabb box(this->m_triangles[i]->bbox());
+        box.id() = integer(i);
+        this->m_bboxes.push_back(std::make_shared<aabb const>(box));
       }
     }
 
-- 
2.43.0


From e9a29fdd04dbe935c91a3a25b838d18f8c835468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 14/37] fix: let an empty AABB tree intersect nothing

Intersecting with the tree of an empty mesh dereferenced a null box.
---
 toolbox/src/AABBtree.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index a7aee91..b4f70e7 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -218,6 +218,8 @@ namespace acme
   )
     const
   {
+    if (this->isEmpty() || tree.isEmpty())
+      return;
     if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
       return;
     integer icase = (this->m_children.empty() ? 0 : 1) +
-- 
2.43.0


From 8385ebfecb152354a3b8eb694ed44c08ff5fe54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 15/37] fix: copy the identifier in triangleground::copy

The copy kept its own identifier while its box carried the source's.
---
 src/triangleground.cc         | 1 +
 toolbox/src/triangleground.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/triangleground.cc b/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
-- 
2.43.0


From 551df5d2ac54f1f86810e10e9793d3e270461f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 16/37] fix: compare the segment-disk discriminant with a
 tolerance of its own scale

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 01aa3d3..3b0ede4 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2218,11 +2218,11 @@ namespace acme
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
     real discriminant = a1 * a1 - a0 * a2;
-    if (discriminant < -tolerance)
+    if (discriminant < -tolerance * a2)
       {return false;}
 
     real inv = real(1.0) / a2;
-    if (std::abs(discriminant) < tolerance)
+    if (std::abs(discriminant) < tolerance * a2)
     {
       real t = -a1 * inv;
       if (t < real(0.0) || t > real(1.0))
-- 
2.43.0


From d85827fad0adedf3d3cf6f37e2c66da041cf41ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 17/37] fix: do not throw when a line crosses a triangle at a
 vertex near the origin

---
 toolbox/src/intersection.cc | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 3b0ede4..5aced8a 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1932,8 +1932,6 @@ namespace acme
     real             tolerance
   )
   {
-    #define CMD "acme::Intersection(line, triangle, segment): "
-
     point point0, point1, point2;
     bool  bool0 = Intersection(line_in, triangle_in.edge(0), point0, tolerance);
     bool  bool1 = Intersection(line_in, triangle_in.edge(1), point1, tolerance);
@@ -1959,35 +1957,32 @@ namespace acme
     }
     else if (bool0 && bool1 && bool2)
     {
-      if (point0.isApprox(point1, tolerance))
+      // The line passes through a vertex: two of the points coincide, the
+      // farthest two are the ends of the intersection
+      real dist01 = (point0 - point1).norm();
+      real dist12 = (point1 - point2).norm();
+      real dist20 = (point2 - point0).norm();
+      if (dist01 <= dist12 && dist01 <= dist20)
       {
         segment_out.vertex(0) = point1;
         segment_out.vertex(1) = point2;
-        return true;
       }
-      else if (point1.isApprox(point2, tolerance))
+      else if (dist12 <= dist20)
       {
         segment_out.vertex(0) = point0;
         segment_out.vertex(1) = point1;
-        return true;
       }
-      else if (point0.isApprox(point2, tolerance))
+      else
       {
         segment_out.vertex(0) = point0;
         segment_out.vertex(1) = point1;
-        return true;
-      }
-      else
-      {
-        ACME_ERROR(CMD "exception not handled.")
       }
+      return true;
     }
     else
     {
       return false;
     }
-
-    #undef CMD
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From b7d19156e679fc754f70198f70b441a44fca4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 18/37] fix: report no intersection for collinear rays that
 point away from each other

---
 toolbox/src/intersection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 5aced8a..5d976ef 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -258,7 +258,7 @@ namespace acme
         else
           {break;}
 
-        ACME_ERROR(CMD "exception not handled (ray/ray intersection).")
+        entity_out = nullptr;
         break;
 
       case 406:
-- 
2.43.0


From 6eefc558384e25f0b97e14d390d4decc97dcda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 19/37] fix: skew lines, rays and segments have no intersection

---
 toolbox/src/intersection.cc | 92 +++++--------------------------------
 1 file changed, 12 insertions(+), 80 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 5d976ef..a53a049 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -658,27 +658,22 @@ namespace acme
     {
       switch (slide)
       {
-
-        // - - - - - - - - - - - - - - LINE - - - - - - - - - - - - - -
-
+      // Lines, rays and segments that are not coplanar never meet
       case 303:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 304:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 306:
+      case 403:
+      case 404:
+      case 406:
+      case 603:
+      case 604:
+      case 606:
+        collide = false;
         break;
 
+
+        // - - - - - - - - - - - - - - LINE - - - - - - - - - - - - - -
+
       case 305:
         entity_out = new point();
         collide    = Intersection(
@@ -688,15 +683,6 @@ namespace acme
           tolerance);
         break;
 
-      case 306:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 307:
         entity_out = new point();
         collide    = Intersection(
@@ -726,24 +712,6 @@ namespace acme
 
         // - - - - - - - - - - - - - - RAY - - - - - - - - - - - - - -
 
-      case 403:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
-      case 404:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 405:
         entity_out = new point();
         collide    = Intersection(
@@ -753,15 +721,6 @@ namespace acme
           tolerance);
         break;
 
-      case 406:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 407:
         entity_out = new point();
         collide    = Intersection(
@@ -855,24 +814,6 @@ namespace acme
 
         // - - - - - - - - - - - - - - SEGMENT - - - - - - - - - - - - - -
 
-      case 603:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
-      case 604:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 605:
         entity_out = new point();
         collide    = Intersection(
@@ -882,15 +823,6 @@ namespace acme
           tolerance);
         break;
 
-      case 606:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 607:
         entity_out = new point();
         collide    = Intersection(
-- 
2.43.0


From ad0f73b7cf0b1f68772a7a37d5773b19bfa9ac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 20/37] fix: null dereference in the intersection of a plane
 and a disk

---
 toolbox/src/intersection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index a53a049..0e9fce2 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -796,7 +796,8 @@ namespace acme
         break;
 
       case 508:
-        collide = Intersection(
+        entity_out = new segment();
+        collide    = Intersection(
           *dynamic_cast<plane const *>(entity0_in),
           *dynamic_cast<disk const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
-- 
2.43.0


From 8484fb4140acbefc16b81251f0af7251ae5d987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 21/37] fix: a triangle lying on a plane intersects it whatever
 the order of the operands

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 0e9fce2..d815f13 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -556,11 +556,11 @@ namespace acme
         break;
 
       case 705:
-        entity_out = new segment();
+        entity_out = new triangle();
         collide    = Intersection(
           *dynamic_cast<plane const *>(entity1_in),
           *dynamic_cast<triangle const *>(entity0_in),
-          *dynamic_cast<segment *>(entity_out),
+          *dynamic_cast<triangle *>(entity_out),
           tolerance);
         break;
 
-- 
2.43.0


From 0eef11bf960b72c9a887a7480c4546a1e0fe68c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 22/37] fix: intersection line of planes whose normals are not
 unit vectors

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index d815f13..587629f 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2212,8 +2212,8 @@ namespace acme
   {
     vec3 normal0(plane0_in.normal().normalized());
     vec3 normal1(plane1_in.normal().normalized());
-    real d0 = -plane0_in.d();
-    real d1 = -plane1_in.d();
+    real d0 = plane0_in.origin().dot(normal0);
+    real d1 = plane1_in.origin().dot(normal1);
 
     vec3 direction = normal0.cross(normal1);
     real dot       = normal0.dot(normal1);
-- 
2.43.0


From 0aa8591532d2c65775c00ef3b619b16fafa04e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 23/37] fix: triangles or disks whose planes meet outside them
 do not intersect

---
 toolbox/src/intersection.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 587629f..9867236 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2279,9 +2279,9 @@ namespace acme
     if (Intersection(triangle0_in.layingPlane(), triangle1_in.layingPlane(), tmp_line, tolerance))
     {
       segment tmp_segment0, tmp_segment1;
-      Intersection(tmp_line, triangle0_in, tmp_segment0, tolerance);
-      Intersection(tmp_line, triangle1_in, tmp_segment1, tolerance);
-      return Intersection(tmp_segment0, tmp_segment1, segment_out, tolerance);
+      return Intersection(tmp_line, triangle0_in, tmp_segment0, tolerance) &&
+             Intersection(tmp_line, triangle1_in, tmp_segment1, tolerance) &&
+             Intersection(tmp_segment0, tmp_segment1, segment_out, tolerance);
     }
     else
     {
@@ -2303,9 +2303,9 @@ namespace acme
     if (Intersection(disk0_in.layingPlane(), disk1_in.layingPlane(), tmp_line, tolerance))
     {
       segment tmp_segment0, tmp_segment1;
-      Intersection(tmp_line, disk0_in, tmp_segment0, tolerance);
-      Intersection(tmp_line, disk1_in, tmp_segment1, tolerance);
-      return Intersection(tmp_segment0, tmp_segment1, segment_out, tolerance);
+      return Intersection(tmp_line, disk0_in, tmp_segment0, tolerance) &&
+             Intersection(tmp_line, disk1_in, tmp_segment1, tolerance) &&
+             Intersection(tmp_segment0, tmp_segment1, segment_out, tolerance);
     }
     else
     {
-- 
2.43.0


From 31add06641fa4c28c5ca8492df5421d02e7a55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 24/37] fix: intersection of a ball with a segment that is not
 of unit length

---
 toolbox/src/intersection.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 9867236..7e30dc5 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2717,12 +2717,13 @@ namespace acme
     vec3 diff(origin - ball_in.center());
     real a0    = diff.dot(diff) - ball_in.radius() * ball_in.radius();
     real a1    = direction.dot(diff);
-    real discr = a1 * a1 - a0;
+    real a2    = direction.dot(direction);
+    real discr = a1 * a1 - a0 * a2;
     if (discr > tolerance)
     {
       real root = std::sqrt(discr);
-      real t0   = -a1 - root;
-      real t1   = -a1 + root;
+      real t0   = (-a1 - root) / a2;
+      real t1   = (-a1 + root) / a2;
       if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > real(1.0) && t1 > real(1.0)))
         {return false;}
       t0 = std::max(t0, real(0.0));
-- 
2.43.0


From 6c19eb8c8e24eed6349009e58fc616bb66f086a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 25/37] fix: collinearity of rays compares the two directions

---
 toolbox/src/collinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collinear.cc b/toolbox/src/collinear.cc
index d9f0ee7..978b13a 100644
--- a/toolbox/src/collinear.cc
+++ b/toolbox/src/collinear.cc
@@ -160,7 +160,7 @@ namespace acme
     real        tolerance)
   {
     return IsParallel(ray0_in.direction(), ray0_in.origin()-ray1_in.origin(), tolerance) &&
-           IsParallel(ray1_in.direction(), ray1_in.direction(), tolerance);
+           IsParallel(ray0_in.direction(), ray1_in.direction(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From e34b236096b6908c5da1af26bc0525fc2d7f727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 26/37] fix: perimeter and area of a disk were swapped

---
 toolbox/src/disk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/disk.cc b/toolbox/src/disk.cc
index 8b78724..ee4b409 100644
--- a/toolbox/src/disk.cc
+++ b/toolbox/src/disk.cc
@@ -193,7 +193,7 @@ namespace acme
   disk::perimeter(void)
     const
   {
-    return PI * this->m_radius * this->m_radius;
+    return real(2.0) * PI * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -202,7 +202,7 @@ namespace acme
   disk::area(void)
     const
   {
-    return real(2.0) * PI * this->m_radius;
+    return PI * this->m_radius * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 079baa343321acfc4119ec188b3a44796d8eb9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 27/37] fix: the remove functions of collection left moved-from
 entities behind

---
 toolbox/src/collection.cc | 88 +++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index d1efa19..3488ed6 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -195,10 +195,13 @@ namespace acme
   void
   collection::removeNone(void)
   {
-    std::remove_if(
-      this->m_entities.begin(),
-      this->m_entities.end(),
-      [] (entity::ptr & entity) {return entity->isNone();}
+    this->m_entities.erase(
+      std::remove_if(
+        this->m_entities.begin(),
+        this->m_entities.end(),
+        [] (entity::ptr & entity) {return entity->isNone();}
+      ),
+      this->m_entities.end()
     );
   }
 
@@ -261,11 +264,14 @@ namespace acme
   void
   collection::removePoint(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPoint();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -327,11 +333,14 @@ namespace acme
   void
   collection::removeLine(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isLine();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -393,11 +402,14 @@ namespace acme
   void
   collection::removeRay(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isRay();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -458,11 +470,14 @@ namespace acme
   void
   collection::removePlane(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPlane();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -524,11 +539,14 @@ namespace acme
   void
   collection::removeSegment(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isSegment();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -590,11 +608,14 @@ namespace acme
   void
   collection::removeTriangle(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isTriangle();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -656,11 +677,14 @@ namespace acme
   void
   collection::removeDisk(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isDisk();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -722,11 +746,14 @@ namespace acme
   void
   collection::removeBall(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isBall();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -795,11 +822,14 @@ namespace acme
     real tolerance
   )
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [tolerance](entity::ptr & entity){return entity->isDegenerated(tolerance);}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -863,11 +893,14 @@ namespace acme
   void
   collection::removeClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -929,11 +962,14 @@ namespace acme
   void
   collection::removeNonClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isNonClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 378987b0cb8aa4d34050bad3aabad09eacad1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 28/37] fix: areSegment, containDegenerated and
 countNonClampable of collection

---
 toolbox/src/collection.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 3488ed6..f857470 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -517,7 +517,7 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isBall())
+      if (!this->m_entities[i]->isSegment())
         {return false;}
     }
     return true;
@@ -781,10 +781,10 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isDegenerated(tolerance))
-        {return false;}
+      if (this->m_entities[i]->isDegenerated(tolerance))
+        {return true;}
     }
-    return true;
+    return false;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -981,7 +981,7 @@ namespace acme
     integer count = 0;
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isNonClampable())
+      if (this->m_entities[i]->isNonClampable())
         {++count;}
     }
     return count;
-- 
2.43.0


From d88c00be4c952089fb26eaf262833ee66b8d68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 29/37] fix: distance from a box that is flat along an axis

---
 toolbox/src/aabb.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/aabb.cc b/toolbox/src/aabb.cc
index 5905b90..1336b98 100644
--- a/toolbox/src/aabb.cc
+++ b/toolbox/src/aabb.cc
@@ -323,12 +323,9 @@ namespace acme
     point center((this->m_max + this->m_min) / real(2.0));
     point point_max_centered(this->m_max - center);
     point point_centered(point_in - center);
-    real  x_scale = std::abs(real(1.0) / point_max_centered.x());
-    real  y_scale = std::abs(real(1.0) / point_max_centered.y());
-    real  z_scale = std::abs(real(1.0) / point_max_centered.z());
-    real  dx      = std::max(real(0.0), std::abs(point_centered.x()) * x_scale - real(1.0)) / x_scale;
-    real  dy      = std::max(real(0.0), std::abs(point_centered.y()) * y_scale - real(1.0)) / y_scale;
-    real  dz      = std::max(real(0.0), std::abs(point_centered.z()) * z_scale - real(1.0)) / z_scale;
+    real  dx = std::max(real(0.0), std::abs(point_centered.x()) - point_max_centered.x());
+    real  dy = std::max(real(0.0), std::abs(point_centered.y()) - point_max_centered.y());
+    real  dz = std::max(real(0.0), std::abs(point_centered.z()) - point_max_centered.z());
     return std::sqrt(dx * dx + dy * dy + dz * dz);
   }
 
-- 
2.43.0


From 014eaba5b7bd8610f22a4c8d8e084b1ba9c38819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 30/37] fix: distance from a plane whose normal is not a unit
 vector

---
 toolbox/src/plane.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/plane.cc b/toolbox/src/plane.cc
index 954b217..ef5b77f 100644
--- a/toolbox/src/plane.cc
+++ b/toolbox/src/plane.cc
@@ -189,7 +189,7 @@ namespace acme
   )
     const
   {
-    return (point_in - this->m_origin).dot(this->m_normal);
+    return (point_in - this->m_origin).dot(this->unitNormal());
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 185f6afa9189306a91b747d21638d03875626d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 31/37] fix: clearing a collection left its AABB tree behind

---
 toolbox/src/collection.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index f857470..9dbf5e3 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -68,6 +68,7 @@ namespace acme
   collection::clear(void)
   {
     this->m_entities.clear();
+    this->m_AABBtree->clear();
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 258564efa1001fc30a6c9b9f5fdac44986ceea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 32/37] fix: coplanar triangles may overlap without containing
 a vertex of each other

---
 toolbox/src/intersection.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 7e30dc5..e6f8bec 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1792,6 +1792,15 @@ namespace acme
     if (!IsCoplanar(triangle0_in, triangle1_in, tolerance)) {
       return Intersection(triangle0_in, triangle1_in, DUMMY_SEGMENT, tolerance);
     }
+    point tmp_point;
+    for (integer i = 0; i < 3; ++i)
+    {
+      for (integer j = 0; j < 3; ++j)
+      {
+        if (Intersection(triangle0_in.edge(i), triangle1_in.edge(j), tmp_point, tolerance))
+          {return true;}
+      }
+    }
     return triangle0_in.isInside(triangle1_in.vertex(0), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(1), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(2), tolerance) ||
-- 
2.43.0


From 8a962dd07134023594a37ad66cc3792494837ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 33/37] fix: a line is orthogonal to a plane when it is
 parallel to the normal

---
 toolbox/src/orthogonal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/orthogonal.cc b/toolbox/src/orthogonal.cc
index 8af59fa..d36c7df 100644
--- a/toolbox/src/orthogonal.cc
+++ b/toolbox/src/orthogonal.cc
@@ -512,7 +512,7 @@ namespace acme
     real          tolerance
   )
   {
-    return IsOrthogonal(line_in.direction(), plane_in.normal(), tolerance);
+    return IsParallel(line_in.direction(), plane_in.normal(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 1543fa282cebcd476fd4ffba5c9a5dd75d33995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 34/37] fix: coplanarity of parallel lines and of lines through
 the plane's origin

---
 toolbox/src/coplanar.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/toolbox/src/coplanar.cc b/toolbox/src/coplanar.cc
index 0b96d2b..0ebd858 100644
--- a/toolbox/src/coplanar.cc
+++ b/toolbox/src/coplanar.cc
@@ -344,7 +344,8 @@ namespace acme
     real         tolerance
   )
   {
-    return (line0_in.origin() - line1_in.origin()).isOrthogonal(line0_in.direction().cross(line1_in.direction()), tolerance);
+    return IsParallel(line0_in, line1_in, tolerance) ||
+           IsApprox((line0_in.origin() - line1_in.origin()).dot(line0_in.direction().cross(line1_in.direction()).normalized()), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -356,7 +357,8 @@ namespace acme
     real        tolerance
   )
   {
-    return (ray0_in.origin() - ray1_in.origin()).isOrthogonal(ray0_in.direction().cross(ray1_in.direction()), tolerance);
+    return IsParallel(ray0_in, ray1_in, tolerance) ||
+           IsApprox((ray0_in.origin() - ray1_in.origin()).dot(ray0_in.direction().cross(ray1_in.direction()).normalized()), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -381,7 +383,8 @@ namespace acme
     real            tolerance
   )
   {
-    return (segment0_in.vertex(0) - segment1_in.vertex(0)).isOrthogonal(segment0_in.toUnitVector().cross(segment1_in.toUnitVector()), tolerance);
+    return IsParallel(segment0_in, segment1_in, tolerance) ||
+           IsApprox((segment0_in.vertex(0) - segment1_in.vertex(0)).dot(segment0_in.toUnitVector().cross(segment1_in.toUnitVector()).normalized()), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -417,7 +420,8 @@ namespace acme
     real         tolerance
   )
   {
-    return (line_in.origin() - ray_in.origin()).isOrthogonal(line_in.direction().cross(ray_in.direction()), tolerance);
+    return IsParallel(line_in, ray_in, tolerance) ||
+           IsApprox((line_in.origin() - ray_in.origin()).dot(line_in.direction().cross(ray_in.direction()).normalized()), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -430,7 +434,7 @@ namespace acme
   )
   {
     return line_in.direction().isOrthogonal(plane_in.normal(), tolerance) &&
-           plane_in.normal().isOrthogonal(line_in.origin() - plane_in.origin(), tolerance);
+           IsApprox(plane_in.signedDistance(line_in.origin()), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -442,7 +446,8 @@ namespace acme
     real            tolerance
   )
   {
-    return (line_in.origin() - segment_in.vertex(0)).isOrthogonal(line_in.direction().cross(segment_in.toUnitVector()), tolerance);
+    return IsParallel(line_in, segment_in, tolerance) ||
+           IsApprox((line_in.origin() - segment_in.vertex(0)).dot(line_in.direction().cross(segment_in.toUnitVector()).normalized()), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -479,7 +484,7 @@ namespace acme
   )
   {
     return ray_in.direction().isOrthogonal(plane_in.normal(), tolerance) &&
-           plane_in.normal().isOrthogonal(ray_in.origin() - plane_in.origin(), tolerance);
+           IsApprox(plane_in.signedDistance(ray_in.origin()), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -491,7 +496,8 @@ namespace acme
     real            tolerance
   )
   {
-    return (ray_in.origin() - segment_in.vertex(0)).isOrthogonal(ray_in.direction().cross(segment_in.toUnitVector()), tolerance);
+    return IsParallel(ray_in, segment_in, tolerance) ||
+           IsApprox((ray_in.origin() - segment_in.vertex(0)).dot(ray_in.direction().cross(segment_in.toUnitVector()).normalized()), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -528,7 +534,7 @@ namespace acme
   )
   {
     return segment_in.toUnitVector().isOrthogonal(plane_in.normal(), tolerance) &&
-           plane_in.normal().isOrthogonal(segment_in.vertex(0)-plane_in.origin(), tolerance);
+           IsApprox(plane_in.signedDistance(segment_in.vertex(0)), real(0.0), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 66d8c3427fa8c0fcee09177c121d8847599b2b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 35/37] fix: count a mesh edge on a rib's plane once

An edge shared by two triangles that lies in the plane of a rib was counted for
both of them, or for one or none of them when rounding put its ends on one side,
and the selection of the candidates, which is only done for more than three
triangles, decided otherwise than the intersection. Such an edge now belongs to
the triangle on the positive side of the plane.
---
 src/rib.cc           | 13 +++++++++++++
 src/shell.cc         |  6 +++---
 toolbox/src/rib.cc   | 13 +++++++++++++
 toolbox/src/shell.cc |  6 +++---
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 066a2b1..34ed5b6 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -252,6 +252,19 @@ namespace enve
     disk  rib_grd(radius, center_grd, normal_grd);
     for (size_t i = 0; i < ground.size(); ++i)
     {
+      // Vertices up to rounding on the rib plane belong to its negative side, so
+      // that an edge on the plane shared by two triangles counts only once
+      bool pos_side = false, neg_side = false;
+      for (size_t j = 0; j < 3; ++j)
+      {
+        vec3 vertex(ground[i]->vertex(j));
+        real tol = real(100.0) * acme::EPSILON_MACHINE *
+          (vertex.cwiseAbs().maxCoeff() + center_grd.cwiseAbs().maxCoeff());
+        ((vertex - center_grd).dot(normal_grd) > tol ? pos_side : neg_side) = true;
+      }
+      if (!pos_side || !neg_side)
+        {continue;}
+
       // Perform rib/triangleground intersection
       if (Intersection(*ground[i], rib_grd, segment_tmp, EPSILON_ENVE)) // FIXME: tolerance should be scaled
       {
diff --git a/src/shell.cc b/src/shell.cc
index c9144b0..a79019c 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -1045,9 +1045,9 @@ namespace enve
         }
 
         // Calculate sign of j-th rib distance
-        sum = real((real(0.0) < (d0-y[j])) - ((d0-y[j]) < real(0.0))) +
-              real((real(0.0) < (d1-y[j])) - ((d1-y[j]) < real(0.0))) +
-              real((real(0.0) < (d2-y[j])) - ((d2-y[j]) < real(0.0)));
+        sum = real((EPSILON_ENVE < (d0-y[j])) - ((d0-y[j]) < -EPSILON_ENVE)) +
+              real((EPSILON_ENVE < (d1-y[j])) - ((d1-y[j]) < -EPSILON_ENVE)) +
+              real((EPSILON_ENVE < (d2-y[j])) - ((d2-y[j]) < -EPSILON_ENVE));
 
         // Fill candidates list
         if (real(-3.0) < sum && sum < real(3.0))
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 066a2b1..34ed5b6 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -252,6 +252,19 @@ namespace enve
     disk  rib_grd(radius, center_grd, normal_grd);
     for (size_t i = 0; i < ground.size(); ++i)
     {
+      // Vertices up to rounding on the rib plane belong to its negative side, so
+      // that an edge on the plane shared by two triangles counts only once
+      bool pos_side = false, neg_side = false;
+      for (size_t j = 0; j < 3; ++j)
+      {
+        vec3 vertex(ground[i]->vertex(j));
+        real tol = real(100.0) * acme::EPSILON_MACHINE *
+          (vertex.cwiseAbs().maxCoeff() + center_grd.cwiseAbs().maxCoeff());
+        ((vertex - center_grd).dot(normal_grd) > tol ? pos_side : neg_side) = true;
+      }
+      if (!pos_side || !neg_side)
+        {continue;}
+
       // Perform rib/triangleground intersection
       if (Intersection(*ground[i], rib_grd, segment_tmp, EPSILON_ENVE)) // FIXME: tolerance should be scaled
       {
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index c9144b0..a79019c 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -1045,9 +1045,9 @@ namespace enve
         }
 
         // Calculate sign of j-th rib distance
-        sum = real((real(0.0) < (d0-y[j])) - ((d0-y[j]) < real(0.0))) +
-              real((real(0.0) < (d1-y[j])) - ((d1-y[j]) < real(0.0))) +
-              real((real(0.0) < (d2-y[j])) - ((d2-y[j]) < real(0.0)));
+        sum = real((EPSILON_ENVE < (d0-y[j])) - ((d0-y[j]) < -EPSILON_ENVE)) +
+              real((EPSILON_ENVE < (d1-y[j])) - ((d1-y[j]) < -EPSILON_ENVE)) +
+              real((EPSILON_ENVE < (d2-y[j])) - ((d2-y[j]) < -EPSILON_ENVE));
 
         // Fill candidates list
         if (real(-3.0) < sum && sum < real(3.0))
-- 
2.43.0


From 694a1895f4de03de07c14f5b9efb18b30921539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 36/37] fix: rounding of a vertex near the origin against a
 rib's plane

The tolerance of the side of a rib's plane vanished for a vertex and a rib centre
that both are the origin up to rounding.
---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 34ed5b6..33eb9df 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -259,7 +259,7 @@ namespace enve
       {
         vec3 vertex(ground[i]->vertex(j));
         real tol = real(100.0) * acme::EPSILON_MACHINE *
-          (vertex.cwiseAbs().maxCoeff() + center_grd.cwiseAbs().maxCoeff());
+          (vertex.cwiseAbs().maxCoeff() + center_grd.cwiseAbs().maxCoeff() + radius);
         ((vertex - center_grd).dot(normal_grd) > tol ? pos_side : neg_side) = true;
       }
       if (!pos_side || !neg_side)
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 34ed5b6..33eb9df 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -259,7 +259,7 @@ namespace enve
       {
         vec3 vertex(ground[i]->vertex(j));
         real tol = real(100.0) * acme::EPSILON_MACHINE *
-          (vertex.cwiseAbs().maxCoeff() + center_grd.cwiseAbs().maxCoeff());
+          (vertex.cwiseAbs().maxCoeff() + center_grd.cwiseAbs().maxCoeff() + radius);
         ((vertex - center_grd).dot(normal_grd) > tol ? pos_side : neg_side) = true;
       }
       if (!pos_side || !neg_side)
-- 
2.43.0


From a7b933960535fcbfc8817581a9c3c27f4a2583fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 37/37] fix: collision test with an empty AABB tree
 dereferenced a null box

---
 toolbox/src/acme/AABBtree.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/src/acme/AABBtree.hxx b/toolbox/src/acme/AABBtree.hxx
index 5a0dae1..a69f21f 100644
--- a/toolbox/src/acme/AABBtree.hxx
+++ b/toolbox/src/acme/AABBtree.hxx
@@ -106,6 +106,10 @@ namespace acme
       const
     {
 
+      // Empty trees collide with nothing
+      if (this->isEmpty() || tree.isEmpty())
+        {return false;}
+
       // check aabb with
       if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
         {return false;}
-- 
2.43.0

