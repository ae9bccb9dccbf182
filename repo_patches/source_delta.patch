From 9eec5114249568421eb4f46b24b609ef870a6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 01/32] fix: shell::resize allocates one result slot per rib

---
 src/shell.cc         | 1 +
 toolbox/src/shell.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0f17f9a..23142ee 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -85,6 +85,7 @@ namespace enve
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
     this->m_candidates.resize(size);
+    this->m_out.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
 
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0f17f9a..23142ee 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -85,6 +85,7 @@ namespace enve
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
     this->m_candidates.resize(size);
+    this->m_out.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
 
-- 
2.43.0


From b32098470d4e992b427e56f0683c405af587374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 02/32] fix: shell::contactArea sums areas, not frictions

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 23142ee..cf0de80 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 23142ee..cf0de80 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 7072287bb28d606fdc30411efbf818e371b42f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 03/32] fix: shell::contactDepth averages the rib depths when
 there is no contact volume

---
 src/shell.cc         | 4 +++-
 toolbox/src/shell.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index cf0de80..a8721d9 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -685,7 +685,9 @@ namespace enve
     this->contactVolume(volume_sum);
     if (volume_sum < EPSILON_ENVE)
     {
-      depth = volume_sum / size;
+      for (size_t i = 0; i < size; ++i)
+        {depth += this->m_out[i].depth;}
+      depth /= size;
     }
     else
     {
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index cf0de80..a8721d9 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -685,7 +685,9 @@ namespace enve
     this->contactVolume(volume_sum);
     if (volume_sum < EPSILON_ENVE)
     {
-      depth = volume_sum / size;
+      for (size_t i = 0; i < size; ++i)
+        {depth += this->m_out[i].depth;}
+      depth /= size;
     }
     else
     {
-- 
2.43.0


From 99e35ab2d853cdb41879705fe94077dba413ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 04/32] fix: shell::setup on flat ground reports contact of any
 rib

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index a8721d9..34e0889 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index a8721d9..34e0889 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
-- 
2.43.0


From 2e19defb04bd47c5ee7372557c0643ff235dbf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 05/32] fix: per-rib contact frame and angle vectors are sized
 to the ribs

---
 src/shell.cc         | 2 ++
 toolbox/src/shell.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 34e0889..31ccf68 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -844,6 +844,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -886,6 +887,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 34e0889..31ccf68 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -844,6 +844,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -886,6 +887,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
-- 
2.43.0


From 6acf2c52de5864f020037bd3b1bcb0df46a4edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 06/32] fix: mesh boxes are identified by triangle position,
 not by the user given id

---
 src/mesh.cc         | 6 +++---
 toolbox/src/mesh.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index db7bf1c..bb476d0 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -517,9 +517,9 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
-        );
+        aabb box(this->m_triangles[i]->bbox());
+        box.id() = integer(i);
+        this->m_bboxes.push_back(std::make_shared<aabb const>(box));
       }
     }
 
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index db7bf1c..bb476d0 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -517,9 +517,9 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
-        );
+        aabb box(this->m_triangles[i]->bbox());
+        box.id() = integer(i);
+        this->m_bboxes.push_back(std::make_shared<aabb const>(box));
       }
     }
 
-- 
2.43.0


From 964119771f8148571239bb68cef208135f099702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 07/32] fix: mesh::copy and mesh::clear keep the tree in step
 with the triangles

---
 src/mesh.cc         | 3 +++
 toolbox/src/mesh.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index bb476d0..d08e9ec 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,8 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->m_bboxes.clear();
+      this->m_AABBtree->clear();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index bb476d0..d08e9ec 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,8 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->m_bboxes.clear();
+      this->m_AABBtree->clear();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From c1e67e614fffec5b20fe6d4e61fc742831b1e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 08/32] fix: triangleground::copy copies the id

---
 src/triangleground.cc         | 1 +
 toolbox/src/triangleground.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/triangleground.cc b/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
-- 
2.43.0


From 6b8952943c22b19f87b661de644aa84be41c962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 09/32] fix: rib::copy copies the lateral coordinate

---
 src/rib.cc         | 1 +
 toolbox/src/rib.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index d3ecc4e..c12bf5c 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d3ecc4e..c12bf5c 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
-- 
2.43.0


From 8782a25988abf67862d676a193bba65959d2cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 10/32] fix: isApprox of flat and triangleground honours the
 tolerance

---
 src/flat.cc                   | 2 +-
 src/triangleground.cc         | 2 +-
 toolbox/src/flat.cc           | 2 +-
 toolbox/src/triangleground.cc | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flat.cc b/src/flat.cc
index b09581b..fec3f81 100644
--- a/src/flat.cc
+++ b/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/src/triangleground.cc b/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
diff --git a/toolbox/src/flat.cc b/toolbox/src/flat.cc
index b09581b..fec3f81 100644
--- a/toolbox/src/flat.cc
+++ b/toolbox/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
-- 
2.43.0


From 285a7ab13b96f7d96033225f4953444bb09c1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 11/32] fix: disk perimeter and area were swapped

---
 toolbox/src/disk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/disk.cc b/toolbox/src/disk.cc
index 8b78724..ee4b409 100644
--- a/toolbox/src/disk.cc
+++ b/toolbox/src/disk.cc
@@ -193,7 +193,7 @@ namespace acme
   disk::perimeter(void)
     const
   {
-    return PI * this->m_radius * this->m_radius;
+    return real(2.0) * PI * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -202,7 +202,7 @@ namespace acme
   disk::area(void)
     const
   {
-    return real(2.0) * PI * this->m_radius;
+    return PI * this->m_radius * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 18409c3d394f1f35eba9b926c43ffb58dca8d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 12/32] fix: a degenerate chord no longer stops the loop over
 the triangles

---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index c12bf5c..de68a4b 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -272,7 +272,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index c12bf5c..de68a4b 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -272,7 +272,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
-- 
2.43.0


From 39c1de77f11a86951bb2672c32fa1330c4f53866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 13/32] fix: no division by a zero contact volume

---
 src/rib.cc         | 3 ++-
 toolbox/src/rib.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index de68a4b..6727983 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -306,7 +306,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index de68a4b..6727983 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -306,7 +306,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-- 
2.43.0


From 325068339f07cfa9b23f675303cfb4f76ef2f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 14/32] fix: chords across the local -x axis use their own
 circular section

---
 src/rib.cc         | 4 +++-
 toolbox/src/rib.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 6727983..2bbb81c 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -262,9 +262,11 @@ namespace enve
 
         // Check consistency
         if(t_b < t_a)
+          {std::swap(t_a, t_b);}
+        if (t_b - t_a > PI)
         {
+          t_a += real(2.0) * PI;
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 6727983..2bbb81c 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -262,9 +262,11 @@ namespace enve
 
         // Check consistency
         if(t_b < t_a)
+          {std::swap(t_a, t_b);}
+        if (t_b - t_a > PI)
         {
+          t_a += real(2.0) * PI;
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
-- 
2.43.0


From 7374d118f4101df57e0832ef51aeec7596b1be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 15/32] fix: mesh elements referring to missing nodes are
 rejected

---
 src/mesh.cc         | 12 ++++++++++++
 toolbox/src/mesh.cc | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index d08e9ec..08f960d 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -311,6 +311,12 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index out of range.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index out of range.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index out of range.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -427,6 +433,12 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index out of range.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index out of range.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index out of range.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index d08e9ec..08f960d 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -311,6 +311,12 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index out of range.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index out of range.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index out of range.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -427,6 +433,12 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size(),
+            CMD "element 0 index out of range.");
+          ENVE_ASSERT(size_t(i_element[1]) < nodes.size(),
+            CMD "element 1 index out of range.");
+          ENVE_ASSERT(size_t(i_element[2]) < nodes.size(),
+            CMD "element 2 index out of range.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
-- 
2.43.0


From 1b5bf22c01004d2c3514770ff31881c4b6af874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 16/32] fix: plane/plane intersection line must lie on planes
 whose normals are not unit

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 01aa3d3..45ac87b 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2284,8 +2284,8 @@ namespace acme
   {
     vec3 normal0(plane0_in.normal().normalized());
     vec3 normal1(plane1_in.normal().normalized());
-    real d0 = -plane0_in.d();
-    real d1 = -plane1_in.d();
+    real d0 = normal0.dot(plane0_in.origin());
+    real d1 = normal1.dot(plane1_in.origin());
 
     vec3 direction = normal0.cross(normal1);
     real dot       = normal0.dot(normal1);
-- 
2.43.0


From ff5ba14c83b2015df0b812c831bf1cfda5598704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 17/32] fix: generic plane/disk intersection writes its segment
 through a null pointer

---
 toolbox/src/intersection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 45ac87b..7a49a95 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -837,7 +837,8 @@ namespace acme
         break;
 
       case 508:
-        collide = Intersection(
+        entity_out = new segment();
+        collide    = Intersection(
           *dynamic_cast<plane const *>(entity0_in),
           *dynamic_cast<disk const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
-- 
2.43.0


From e204f9e0a2b430673f2dbb7de7e89fcb362fce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 18/32] fix: ray/plane intersection misses a ray starting on
 the plane

---
 toolbox/src/intersection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 7a49a95..65625f4 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2510,7 +2510,7 @@ namespace acme
     if (std::abs(det) > tolerance)
     {
       real t = -(origin - plane_in.origin()).dot(plane_in.normal()) / det;
-      if (t > tolerance)
+      if (t >= real(0.0) - tolerance)
       {
         point_out = origin + t * direction;
         return true;
-- 
2.43.0


From 69910bd534c5a3e17cd5e582c8f69e6491ac5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 19/32] fix: ray/ray collinearity compares a ray direction with
 itself

---
 toolbox/src/collinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collinear.cc b/toolbox/src/collinear.cc
index d9f0ee7..978b13a 100644
--- a/toolbox/src/collinear.cc
+++ b/toolbox/src/collinear.cc
@@ -160,7 +160,7 @@ namespace acme
     real        tolerance)
   {
     return IsParallel(ray0_in.direction(), ray0_in.origin()-ray1_in.origin(), tolerance) &&
-           IsParallel(ray1_in.direction(), ray1_in.direction(), tolerance);
+           IsParallel(ray0_in.direction(), ray1_in.direction(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 6945b067053fd3885f9332c40b136d64c6168c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 20/32] fix: line/plane orthogonality reports lines lying in
 the plane instead of lines along its normal

---
 toolbox/src/orthogonal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/orthogonal.cc b/toolbox/src/orthogonal.cc
index 8af59fa..d36c7df 100644
--- a/toolbox/src/orthogonal.cc
+++ b/toolbox/src/orthogonal.cc
@@ -512,7 +512,7 @@ namespace acme
     real          tolerance
   )
   {
-    return IsOrthogonal(line_in.direction(), plane_in.normal(), tolerance);
+    return IsParallel(line_in.direction(), plane_in.normal(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 68fcec2cb02a02a9584ccf530fa746986ed0796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:39 +0000
Subject: [PATCH 21/32] fix: line/triangle intersection through a vertex near
 the origin throws instead of returning the segment

---
 toolbox/src/intersection.cc | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 65625f4..223a505 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1933,7 +1933,6 @@ namespace acme
     real             tolerance
   )
   {
-    #define CMD "acme::Intersection(line, triangle, segment): "
 
     point point0, point1, point2;
     bool  bool0 = Intersection(line_in, triangle_in.edge(0), point0, tolerance);
@@ -1960,35 +1959,32 @@ namespace acme
     }
     else if (bool0 && bool1 && bool2)
     {
-      if (point0.isApprox(point1, tolerance))
+      // The line passes through a vertex: keep the two farthest points
+      real dist01 = (point0 - point1).norm();
+      real dist12 = (point1 - point2).norm();
+      real dist20 = (point2 - point0).norm();
+      if (dist12 >= dist01 && dist12 >= dist20)
       {
         segment_out.vertex(0) = point1;
         segment_out.vertex(1) = point2;
-        return true;
-      }
-      else if (point1.isApprox(point2, tolerance))
-      {
-        segment_out.vertex(0) = point0;
-        segment_out.vertex(1) = point1;
-        return true;
       }
-      else if (point0.isApprox(point2, tolerance))
+      else if (dist01 >= dist20)
       {
         segment_out.vertex(0) = point0;
         segment_out.vertex(1) = point1;
-        return true;
       }
       else
       {
-        ACME_ERROR(CMD "exception not handled.")
+        segment_out.vertex(0) = point2;
+        segment_out.vertex(1) = point0;
       }
+      return true;
     }
     else
     {
       return false;
     }
 
-    #undef CMD
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From fc309d6d710ecc4607070759af0834928e34c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 22/32] fix: clip a segment against a ball in units of length

---
 toolbox/src/intersection.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 223a505..a80254c 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2782,7 +2782,8 @@ namespace acme
   )
   {
     vec3 origin(segment_in.vertex(0));
-    vec3 direction(segment_in.toVector());
+    vec3 direction(segment_in.toUnitVector());
+    real length = segment_in.length();
     vec3 diff(origin - ball_in.center());
     real a0    = diff.dot(diff) - ball_in.radius() * ball_in.radius();
     real a1    = direction.dot(diff);
@@ -2792,12 +2793,12 @@ namespace acme
       real root = std::sqrt(discr);
       real t0   = -a1 - root;
       real t1   = -a1 + root;
-      if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > real(1.0) && t1 > real(1.0)))
+      if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > length && t1 > length))
         {return false;}
       t0 = std::max(t0, real(0.0));
-      t0 = std::min(t0, real(1.0));
+      t0 = std::min(t0, length);
       t1 = std::max(t1, real(0.0));
-      t1 = std::min(t1, real(1.0));
+      t1 = std::min(t1, length);
       segment_out.vertex(0) = origin + t0 * direction;
       segment_out.vertex(1) = origin + t1 * direction;
       return true;
-- 
2.43.0


From 096997dac4db19075b45eef4aa700ca2c3bb7877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 23/32] fix: a triangle in a plane intersects it in the
 triangle, in either order

---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index a80254c..eafa46c 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -556,11 +556,11 @@ namespace acme
         break;
 
       case 705:
-        entity_out = new segment();
+        entity_out = new triangle();
         collide    = Intersection(
           *dynamic_cast<plane const *>(entity1_in),
           *dynamic_cast<triangle const *>(entity0_in),
-          *dynamic_cast<segment *>(entity_out),
+          *dynamic_cast<triangle *>(entity_out),
           tolerance);
         break;
 
-- 
2.43.0


From b9b4975ddd32de38044487bfe30a22ad5dfe04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:57 +0000
Subject: [PATCH 24/32] fix: collinear rays that face away do not meet, instead
 of raising an exception

---
 toolbox/src/intersection.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index eafa46c..c13aa37 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -253,12 +253,6 @@ namespace acme
           *dynamic_cast<ray const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
           tolerance);
-        if (!collide)
-          {delete entity_out;}
-        else
-          {break;}
-
-        ACME_ERROR(CMD "exception not handled (ray/ray intersection).")
         break;
 
       case 406:
-- 
2.43.0


From 29c582b60cc63b02478fbc203c6911a0c44eceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 25/32] fix: distance of a point to a flat box was not a number

---
 toolbox/src/aabb.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/aabb.cc b/toolbox/src/aabb.cc
index 5905b90..5431631 100644
--- a/toolbox/src/aabb.cc
+++ b/toolbox/src/aabb.cc
@@ -323,12 +323,9 @@ namespace acme
     point center((this->m_max + this->m_min) / real(2.0));
     point point_max_centered(this->m_max - center);
     point point_centered(point_in - center);
-    real  x_scale = std::abs(real(1.0) / point_max_centered.x());
-    real  y_scale = std::abs(real(1.0) / point_max_centered.y());
-    real  z_scale = std::abs(real(1.0) / point_max_centered.z());
-    real  dx      = std::max(real(0.0), std::abs(point_centered.x()) * x_scale - real(1.0)) / x_scale;
-    real  dy      = std::max(real(0.0), std::abs(point_centered.y()) * y_scale - real(1.0)) / y_scale;
-    real  dz      = std::max(real(0.0), std::abs(point_centered.z()) * z_scale - real(1.0)) / z_scale;
+    real  dx = std::max(real(0.0), std::abs(point_centered.x()) - std::abs(point_max_centered.x()));
+    real  dy = std::max(real(0.0), std::abs(point_centered.y()) - std::abs(point_max_centered.y()));
+    real  dz = std::max(real(0.0), std::abs(point_centered.z()) - std::abs(point_max_centered.z()));
     return std::sqrt(dx * dx + dy * dy + dz * dz);
   }
 
-- 
2.43.0


From 8e4319f9e86224b0e533eeaf9f3c8c3a57c02457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 26/32] fix: a collection of segments was not recognised
 (areSegment tested for balls)

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index d1efa19..c7f11ba 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -502,7 +502,7 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isBall())
+      if (!this->m_entities[i]->isSegment())
         {return false;}
     }
     return true;
-- 
2.43.0


From 0c41c3462fc75abf22241e049fae3c9e06678d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 27/32] fix: containDegenerated was true only when every entity
 was degenerated

---
 toolbox/src/collection.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index c7f11ba..ba2242a 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -754,10 +754,10 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isDegenerated(tolerance))
-        {return false;}
+      if (this->m_entities[i]->isDegenerated(tolerance))
+        {return true;}
     }
-    return true;
+    return false;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 55dbe9fff620f223973b1e2b074d19f41d011f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 28/32] fix: countNonClampable counted the other entities

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index ba2242a..ec16338 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -945,7 +945,7 @@ namespace acme
     integer count = 0;
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isNonClampable())
+      if (this->m_entities[i]->isNonClampable())
         {++count;}
     }
     return count;
-- 
2.43.0


From f8e5c43c502218d6f6bd04f938f43ee9ba7d9b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 29/32] fix: remove functions of a collection left stale
 entries at its end

---
 toolbox/src/collection.cc | 88 +++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index ec16338..f857470 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -195,10 +195,13 @@ namespace acme
   void
   collection::removeNone(void)
   {
-    std::remove_if(
-      this->m_entities.begin(),
-      this->m_entities.end(),
-      [] (entity::ptr & entity) {return entity->isNone();}
+    this->m_entities.erase(
+      std::remove_if(
+        this->m_entities.begin(),
+        this->m_entities.end(),
+        [] (entity::ptr & entity) {return entity->isNone();}
+      ),
+      this->m_entities.end()
     );
   }
 
@@ -261,11 +264,14 @@ namespace acme
   void
   collection::removePoint(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPoint();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -327,11 +333,14 @@ namespace acme
   void
   collection::removeLine(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isLine();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -393,11 +402,14 @@ namespace acme
   void
   collection::removeRay(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isRay();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -458,11 +470,14 @@ namespace acme
   void
   collection::removePlane(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPlane();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -524,11 +539,14 @@ namespace acme
   void
   collection::removeSegment(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isSegment();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -590,11 +608,14 @@ namespace acme
   void
   collection::removeTriangle(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isTriangle();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -656,11 +677,14 @@ namespace acme
   void
   collection::removeDisk(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isDisk();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -722,11 +746,14 @@ namespace acme
   void
   collection::removeBall(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isBall();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -795,11 +822,14 @@ namespace acme
     real tolerance
   )
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [tolerance](entity::ptr & entity){return entity->isDegenerated(tolerance);}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -863,11 +893,14 @@ namespace acme
   void
   collection::removeClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -929,11 +962,14 @@ namespace acme
   void
   collection::removeNonClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isNonClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 4da732aefb6ec6254f4f500965a8b586024fb9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 30/32] fix: skew lines, rays and segments do not meet

---
 toolbox/src/intersection.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index c13aa37..50d6be5 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1618,6 +1618,9 @@ namespace acme
       vec3  direction_1(line1_in.direction());
 
       vec3 a(direction_0.cross(direction_1));
+      // Skew entities do not meet
+      if (std::abs((origin_1 - origin_0).dot(a)) > tolerance * a.norm())
+        {return false;}
       vec3 b((origin_1 - origin_0).cross(direction_1));
       real t    = b.dot(a) / a.dot(a);
       point_out = origin_0 + (t * direction_0);
@@ -1647,6 +1650,9 @@ namespace acme
       vec3  direction_1(ray1_in.direction());
 
       vec3 a_0(direction_0.cross(direction_1));
+      // Skew entities do not meet
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;}
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
@@ -1683,6 +1689,9 @@ namespace acme
       vec3  direction_1(segment1_in.toVector());
 
       vec3 a_0(direction_0.cross(direction_1));
+      // Skew entities do not meet
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;}
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
@@ -1719,6 +1728,9 @@ namespace acme
       vec3  direction_1(ray_in.direction());
 
       vec3 a_0(direction_0.cross(direction_1));
+      // Skew entities do not meet
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;}
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
@@ -1755,6 +1767,9 @@ namespace acme
       vec3  direction_1(segment_in.toVector());
 
       vec3 a_0(direction_0.cross(direction_1));
+      // Skew entities do not meet
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;}
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
@@ -1791,6 +1806,9 @@ namespace acme
       vec3  direction_1(segment_in.toVector());
 
       vec3 a_0(direction_0.cross(direction_1));
+      // Skew entities do not meet
+      if (std::abs((origin_1 - origin_0).dot(a_0)) > tolerance * a_0.norm())
+        {return false;}
       vec3 b_0((origin_1 - origin_0).cross(direction_1));
       real t0 = b_0.dot(a_0) / a_0.dot(a_0);
 
-- 
2.43.0


From b76b39e08e0546cbf8684a63cb04ab7aa619e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:11 +0000
Subject: [PATCH 31/32] fix: an empty tree overlaps nothing

---
 toolbox/src/AABBtree.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index a7aee91..abb2819 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -218,6 +218,9 @@ namespace acme
   )
     const
   {
+    // An empty tree overlaps nothing
+    if (!this->m_ptrbox || !tree.m_ptrbox)
+      return;
     if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
       return;
     integer icase = (this->m_children.empty() ? 0 : 1) +
-- 
2.43.0


From 9a466923fb1fdab5c6b0a2cac2e1f12be712811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:12 +0000
Subject: [PATCH 32/32] fix: triangles in one plane also meet where only their
 edges cross

---
 toolbox/src/intersection.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 50d6be5..be37a15 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1872,6 +1872,16 @@ namespace acme
     if (!IsCoplanar(triangle0_in, triangle1_in, tolerance)) {
       return Intersection(triangle0_in, triangle1_in, DUMMY_SEGMENT, tolerance);
     }
+    // The edges may cross each other with no vertex inside
+    for (integer i = 0; i < 3; ++i)
+    {
+      for (integer j = 0; j < 3; ++j)
+      {
+        point cross;
+        if (Intersection(triangle0_in.edge(i), triangle1_in.edge(j), cross, tolerance))
+          {return true;}
+      }
+    }
     return triangle0_in.isInside(triangle1_in.vertex(0), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(1), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(2), tolerance) ||
-- 
2.43.0

