From fd4aae8cfc71d37bf1a04ed1443ae78d3329bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:24 +0000
Subject: [PATCH 01/17] fix: reject a negative site index in Cuboid position
 lookups

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 6cc2787..3dc450f 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -318,7 +318,7 @@ namespace mythical {
     }
 
     std::vector<int> Cuboid::getPosition(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -329,7 +329,7 @@ namespace mythical {
     }
 
     int Cuboid::getX(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -342,7 +342,7 @@ namespace mythical {
     }
 
     int Cuboid::getY(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -355,7 +355,7 @@ namespace mythical {
     }
 
     int Cuboid::getZ(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
-- 
2.43.0


From 1c7e3bbd5054488595dec173aee8389cf1a5e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:27 +0000
Subject: [PATCH 02/17] fix: wrap periodic Cuboid coordinates that are more
 than one period below zero

---
 .../charge_transport/cuboid_lattice.cpp        | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 3dc450f..9d8c6d4 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -155,24 +155,18 @@ namespace mythical {
 
 
     int Cuboid::getXPeriodic_( const int x ) const noexcept{
-      if(x<0){
-        return x+length_;
-      }
-      return x % length_;
+      const int x_mod = x % length_;
+      return x_mod < 0 ? x_mod + length_ : x_mod;
     }
 
     int Cuboid::getYPeriodic_( const int y ) const noexcept{
-      if(y<0){
-        return y+width_;
-      }
-      return y % width_;
+      const int y_mod = y % width_;
+      return y_mod < 0 ? y_mod + width_ : y_mod;
     }
 
     int Cuboid::getZPeriodic_( const int z ) const noexcept{
-      if(z<0){
-        return z+height_;
-      }
-      return z % height_;
+      const int z_mod = z % height_;
+      return z_mod < 0 ? z_mod + height_ : z_mod;
     }
 
     void Cuboid::setDistributions_() {
-- 
2.43.0


From ecb8a93eb05ee1497ab32c069213b3063e2fc442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:30 +0000
Subject: [PATCH 03/17] fix: Cuboid::getRandomSite plane range checks and the y
 draw of an XY plane

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 9d8c6d4..edae940 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -281,7 +281,7 @@ namespace mythical {
       int y_lattice_pos = plane_index;
       int z_lattice_pos = plane_index;
       if ( plane == Plane::YZ ) {
-        if (x_lattice_pos < 0 && x_lattice_pos >= length_ ) {
+        if (x_lattice_pos < 0 || x_lattice_pos >= length_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with x pos " + to_string(plane_index) + " when the x"
             "bounds are 0 to " + to_string(length_-1);
@@ -290,7 +290,7 @@ namespace mythical {
         y_lattice_pos = distribution_y_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else if ( plane == Plane::XZ ) {
-        if (y_lattice_pos < 0 && y_lattice_pos >= width_ ) {
+        if (y_lattice_pos < 0 || y_lattice_pos >= width_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with y pos " + to_string(plane_index) + " when the y"
             "bounds are 0 to " + to_string(width_-1);
@@ -299,14 +299,14 @@ namespace mythical {
         x_lattice_pos = distribution_x_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else {
-        if (z_lattice_pos < 0 && z_lattice_pos >= height_ ) {
+        if (z_lattice_pos < 0 || z_lattice_pos >= height_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with z pos " + to_string(plane_index) + " when the z"
             "bounds are 0 to " + to_string(height_-1);
             throw std::invalid_argument(error_msg);
         }
         x_lattice_pos = distribution_x_(generator_);
-        y_lattice_pos = distribution_z_(generator_);
+        y_lattice_pos = distribution_y_(generator_);
       }
       return getIndex(x_lattice_pos,y_lattice_pos,z_lattice_pos);
     }
-- 
2.43.0


From 565dc2192c00cbeba0a1ffdfe82ade5a6e888ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:32 +0000
Subject: [PATCH 04/17] fix: list each Cuboid neighbor once, with its shortest
 distance, and complete the whole lattice table

---
 .../charge_transport/cuboid_lattice.cpp       | 123 +++---------------
 1 file changed, 18 insertions(+), 105 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index edae940..46a721b 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -117,6 +117,7 @@ namespace mythical {
       const int max_num_neigh =2*num_sites*2*num_sites*2*num_sites;
       std::vector<std::pair<int,double>> neighbors;
       neighbors.reserve(max_num_neigh);
+      std::unordered_map<int,size_t> neighbor_pos;
 
       for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
         int x_lattice_pos = x_ind;
@@ -141,7 +142,15 @@ namespace mythical {
                   if ( dist <= cutoff ) {
                     int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
                     if( neigh_ind != index ) {
-                      neighbors.emplace_back(neigh_ind, dist);
+                      // On a periodic lattice several images of the same site
+                      // can be within the cutoff, only keep the closest one
+                      auto known = neighbor_pos.find(neigh_ind);
+                      if( known == neighbor_pos.end() ) {
+                        neighbor_pos[neigh_ind] = neighbors.size();
+                        neighbors.emplace_back(neigh_ind, dist);
+                      } else if( dist < neighbors.at(known->second).second ) {
+                        neighbors.at(known->second).second = dist;
+                      }
                     }
                   }
                 }
@@ -361,56 +370,10 @@ namespace mythical {
 
     std::vector<int> Cuboid::getNeighbors(const int index, const double cutoff) const {
       checkIndex_(index);
-      std::vector<int> pos_i = getPosition(index);
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
-
-      const int x = pos_i.at(0);
-      const int y = pos_i.at(1);
-      const int z = pos_i.at(2);
-      const int x_min = x - num_sites;
-      const int x_max = x + num_sites;
-      const int y_min = y - num_sites;
-      const int y_max = y + num_sites;
-      const int z_min = z - num_sites;
-      const int z_max = z + num_sites;
-
-      const int max_num_neigh = 2*num_sites*2*num_sites*2*num_sites;
       std::vector<int> neighbors;
-      neighbors.reserve(max_num_neigh);
-
-      for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
-        int x_lattice_pos = x_ind;
-        if ( x_bound_ == BoundarySetting::Periodic ) {
-          x_lattice_pos = getXPeriodic_(x_ind);
-        }       
-        if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
-          for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
-            int y_lattice_pos = y_ind;
-            if ( y_bound_ == BoundarySetting::Periodic ) {
-              y_lattice_pos = getYPeriodic_(y_ind);
-            }       
-            if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
-              for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
-                int z_lattice_pos = z_ind;
-
-                if ( z_bound_ == BoundarySetting::Periodic ) {
-                  z_lattice_pos = getZPeriodic_(z_ind);
-                }       
-                if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
-                  double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
-                  if ( dist <= cutoff ) {
-                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
-                    if( neigh_ind != index ) {
-                      neighbors.push_back(neigh_ind);
-                    }
-                  }
-                }
-              } // for z
-            }
-          } // for y
-        }
-      } // for x
+      for ( const auto & neigh_dist : getNeighborDistances_(getPos_(index), cutoff) ) {
+        neighbors.push_back(neigh_dist.first);
+      }
       return neighbors;
     }
 
@@ -435,62 +398,12 @@ namespace mythical {
 
     std::unordered_map<int, std::unordered_map<int,double>> Cuboid::getNeighborDistances(const double cutoff) const {
 
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
-      
-      int total_num_sites = length_*width_*height_;
-      // So as not to return redundant info, only provide distance if the 
-      // neighbor has a smaller index
       std::unordered_map<int, std::unordered_map<int, double>> neigh_distances;
-
-      for ( int index = 0; index < total_num_sites; ++index ) {
-        
-        std::vector<int> pos_i = getPos_(index);
-        const int x = pos_i.at(0);
-        const int y = pos_i.at(1);
-        const int z = pos_i.at(2);
-
-        const int x_min = x - num_sites;
-        const int x_max = x;
-        const int y_min = y - num_sites;
-        const int y_max = y;
-        const int z_min = z - num_sites;
-        const int z_max = z;
-
-        for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
-          int x_lattice_pos = x_ind;
-          if ( x_bound_ == BoundarySetting::Periodic ) {
-            x_lattice_pos = getXPeriodic_(x_ind);
-          }       
-          if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
-            for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
-              int y_lattice_pos = y_ind;
-              if ( y_bound_ == BoundarySetting::Periodic ) {
-                y_lattice_pos = getYPeriodic_(y_ind);
-              }       
-              if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
-                for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
-                  int z_lattice_pos = z_ind;
-
-                  if ( z_bound_ == BoundarySetting::Periodic ) {
-                    z_lattice_pos = getZPeriodic_(z_ind);
-                  }       
-                  if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
-                    double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
-                    if ( dist <= cutoff ) {
-                      int neigh_index = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
-                      if ( neigh_index != index ) {
-                        neigh_distances[neigh_index][index] = dist;
-                        neigh_distances[index][neigh_index] = dist;
-                      }
-                    }
-                  }
-                } // for z
-              }
-            } // for y
-          }
-        } // for x
-      } // index
+      for ( int index = 0; index < total_; ++index ) {
+        for ( const auto & neigh_dist : getNeighborDistances_(getPos_(index), cutoff) ) {
+          neigh_distances[index][neigh_dist.first] = neigh_dist.second;
+        }
+      }
       return neigh_distances;
     }
 
-- 
2.43.0


From d6df8edc2eb1d6bec6579830e951aee3255bcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:35 +0000
Subject: [PATCH 05/17] fix: Cuboid::getSmallestDistance under periodic
 boundaries

---
 .../libmythical/charge_transport/cuboid_lattice.cpp    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 46a721b..6c0c706 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -420,7 +420,7 @@ namespace mythical {
         const int diff1 = abs(x2 - x1 + length_);
         const int diff2 = abs(x2 - x1 - length_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(0) = min(diff,abs(x2 - x1));
+        pos_2.at(0) = x1 + min(diff,abs(x2 - x1));
       }
       const int y1 = pos_1.at(1);
       const int y2 = pos_2.at(1);
@@ -428,15 +428,15 @@ namespace mythical {
         const int diff1 = abs(y2 - y1 + width_);
         const int diff2 = abs(y2 - y1 - width_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(1) = min(diff,abs(y2 - y1));
+        pos_2.at(1) = y1 + min(diff,abs(y2 - y1));
       }
-      const int z1 = pos_1.at(1);
-      const int z2 = pos_2.at(1);
+      const int z1 = pos_1.at(2);
+      const int z2 = pos_2.at(2);
       if ( z_bound_ == BoundarySetting::Periodic ){
         const int diff1 = abs(z2 - z1 + height_);
         const int diff2 = abs(z2 - z1 - height_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(2) = min(diff,abs(z2 - z1));
+        pos_2.at(2) = z1 + min(diff,abs(z2 - z1));
       }
       return getDistance_(pos_1.at(0), pos_1.at(1), pos_1.at(2), pos_2.at(0), pos_2.at(1), pos_2.at(2));
     }
-- 
2.43.0


From 739eab3e6f41619ce25dcf6f03eb3e56ee97b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:50 +0000
Subject: [PATCH 06/17] fix: Rate_Container lookups of a missing rate throw and
 queries leave the container unchanged

---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index e0f72c4..7ae06cb 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -31,10 +31,8 @@ namespace mythical {
   }
 
   double * Rate_Container::getRate(int siteId, int neighId) {
-    if(rates_.count(siteId)==0){
-      if(rates_[siteId].count(neighId)==0){
-        throw invalid_argument("Cannot retrieve rate as it has not been added.");
-      }
+    if(rates_.count(siteId)==0 || rates_[siteId].count(neighId)==0){
+      throw invalid_argument("Cannot retrieve rate as it has not been added.");
     }
     return rates_[siteId][neighId];
   }
@@ -46,6 +44,7 @@ namespace mythical {
   }
 
   size_t Rate_Container::outgoingRateCount(int siteId) {
+    if(rates_.count(siteId)==0) return 0;
     return rates_[siteId].size();
   }
 
-- 
2.43.0


From f804c1b5775419d0ab0158ac6ac83da3b5e0e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:53 +0000
Subject: [PATCH 07/17] fix: picking a site returns a neighbor when rounding
 leaves the cumulative probability below the draw

---
 .../src/libmythical/topologyfeatures/cluster.cpp          | 8 ++++++++
 .../src/libmythical/topologyfeatures/site.cpp             | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c813414..09f7a8b 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -438,6 +438,10 @@ int Cluster::pickClusterNeighbor_(const int & walker_id) {
   for (const pair<int,double> & pval : cumulitive_probabilityHopToNeighbor_) {
     if (number < pval.second) return pval.first;
   }
+  // Rounding can leave the cumulitive probability slightly below 1.0
+  if (!cumulitive_probabilityHopToNeighbor_.empty()) {
+    return cumulitive_probabilityHopToNeighbor_.back().first;
+  }
   assert("Cummulitive probability distribution is flawed or random "
       "number is greater than 1");
   return -1;
@@ -451,6 +455,10 @@ int Cluster::pickInternalSite_() {
       return pval.first;
     }
   }
+  // Rounding can leave the cumulitive probability slightly below 1.0
+  if (!cumulitive_probabilityHopToInternalSite_.empty()) {
+    return cumulitive_probabilityHopToInternalSite_.back().first;
+  }
   assert("cumulitive probability distribution of sites in the cluster "
     "is flawed or random number is greater than 1");
   return -1;
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
index 9c7106e..6439020 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
@@ -101,6 +101,8 @@ int Site::pickNewSiteId() {
     threshold += pval.second;
     if (number < threshold) return pval.first;
   }
+  // Rounding can leave the sum of the probabilities slightly below 1.0
+  if (!probabilityHopToNeighbor_.empty()) return probabilityHopToNeighbor_.back().first;
   assert("Error cummulitive probability distribution is flawed or "
       " the random number generator has calculated a value greater than 1, or"
       " the site has no neighbors");
-- 
2.43.0


From 46d2a9637b7902b41a903ebf96e1872740480dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:56 +0000
Subject: [PATCH 08/17] fix: a draw of exactly zero no longer gives an infinite
 dwell time

---
 .../src/libmythical/topologyfeatures/topology_feature.cpp       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
index 00e5a38..9de2129 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
@@ -63,6 +63,8 @@ namespace mythical {
 
   double TopologyFeature::getDwellTime(const int & ){
     double number = random_distribution_(random_engine_);
+    // The distribution includes 0.0 for which the dwell time would be infinite
+    if(number<=0.0) number = numeric_limits<double>::min();
     return (-1.0)*log(number) * escape_time_constant_;
   }
 
-- 
2.43.0


From 574a6ed052be2b783f367dd72df3d08512496aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:00 +0000
Subject: [PATCH 09/17] fix: removing a walker from a cluster forgets its
 remaining dwell time

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 09f7a8b..4c7dda3 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -62,6 +62,7 @@ Cluster::Cluster() : TopologyFeature() {
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
+  remove_ptr_ = removeWalkerCluster_;
 
 }
 
-- 
2.43.0


From 0e8c21f6f1cd40c869d06f8797cae52cd4e974f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:03 +0000
Subject: [PATCH 10/17] fix: updating a cluster replaces its cumulative hop
 distributions

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 4c7dda3..3a0d56d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -617,6 +617,7 @@ void Cluster::calculateProbabilityHopToInternalSite_() {
       });
 
   total = 0.0;
+  cumulitive_probabilityHopToInternalSite_.clear();
   for(pair<int,double> site_and_prob : probabilityHopToInternalSite_){
     site_and_prob.second+=total;
     total = site_and_prob.second;
@@ -669,6 +670,7 @@ void Cluster::calculateProbabilityHopToNeighbors_() {
       });
 
   total = 0.0;
+  cumulitive_probabilityHopToNeighbor_.clear();
   for(pair<int,double>  site_and_prob : probabilityHopToNeighbor_){
     site_and_prob.second+=total;
     total = site_and_prob.second;
-- 
2.43.0


From c464c13bb5f0b851afa44c3869ac35f5418d9ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:06 +0000
Subject: [PATCH 11/17] fix: normalize the internal hop probabilities of a
 cluster instead of rescaling its escape time

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 3a0d56d..9f9efbc 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -519,7 +519,7 @@ void Cluster::calculateProbabilityHopBetweenInternalSite_() {
 
   // Normalize
   for(auto site : probabilityHopBetweenInternalSite_){
-    probabilityHopOffInternalSite_[site.first]/=sum_internal;
+    probabilityHopBetweenInternalSite_[site.first]/=sum_internal;
   }
   
 }
-- 
2.43.0


From a080b9ba7efdb38eb84e714f9b599f4c1d30b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:09 +0000
Subject: [PATCH 12/17] fix: Site_Container::getSmallestClusterId does not add
 sites that are not stored

---
 CoarseGrainSites/src/libmythical/site_container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/site_container.cpp b/CoarseGrainSites/src/libmythical/site_container.cpp
index 0866e21..bc975ad 100644
--- a/CoarseGrainSites/src/libmythical/site_container.cpp
+++ b/CoarseGrainSites/src/libmythical/site_container.cpp
@@ -66,7 +66,7 @@ namespace mythical {
     LOG("Getting the favored cluster Id", 1);
     int favoredClusterId = constants::unassignedId;
     for (auto siteId : siteIds) {
-      int clusterId = sites_[siteId].getClusterId();
+      int clusterId = getClusterIdOfSite(siteId);
       if (favoredClusterId == constants::unassignedId) {
         favoredClusterId = clusterId;
       } else if (clusterId != constants::unassignedId &&
-- 
2.43.0


From c044606fd3db665edfbb2839da02cd14ef5b7bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:12 +0000
Subject: [PATCH 13/17] fix: occupying a site of a cluster marks the cluster as
 occupied

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 9f9efbc..01fca8c 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -29,6 +29,7 @@ void occupyCluster_(TopologyFeature* feature, const int& siteId){
   Site & site = cluster->sitesInCluster_[siteId];
   assert(cluster->site_visits_.count(siteId));
   ++cluster->total_visit_freq_; 
+  ++cluster->occupied_;
   site.setToOccupiedStatus(); 
 }
 
-- 
2.43.0


From f8c5d3b565619b5a40a0ee13f7bfdcf2b94cbbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:19 +0000
Subject: [PATCH 14/17] fix: updating a cluster uses the current rates of its
 sites

The copies of the sites kept by the cluster held on to hop probabilities
and time constants calculated when the sites were added, so a rate changed
later was only partly taken into account by the update.
---
 .../src/libmythical/topologyfeatures/cluster.cpp           | 3 +++
 CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp | 6 ++++++
 CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp | 7 +++++++
 3 files changed, 16 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 01fca8c..a17093d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -88,6 +88,9 @@ void Cluster::updateProbabilitiesAndTimeConstant() {
 
   unordered_map<int,int> temporary_visit_frequencies = getVisitFrequencies_();
 
+  // The rates might have been changed externally since the sites were added
+  for (auto & site : sitesInCluster_) site.second.updateProbabilitiesAndTimeConstant();
+
   solveMasterEquation_();
   calculateSumOfEscapeRatesFromSitesToTheirNeighbors_();
   calculateSumOfEscapeRatesFromSitesToInternalSites_();
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
index 6439020..225823f 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
@@ -65,6 +65,12 @@ void Site::resetNeighRate(const pair<int, double*> neighRate) {
   calculateProbabilityHopToNeighbors_();
 }
 
+void Site::updateProbabilitiesAndTimeConstant() {
+  if (neighRates_.empty()) return;
+  calculateDwellTimeConstant_();
+  calculateProbabilityHopToNeighbors_();
+}
+
 vector<double> Site::getRateToNeighbors() const {
   vector<double> rates;
   for (auto & rate : neighRates_) rates.push_back(*(rate.second));
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp
index b1c2d96..db2c972 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp
@@ -60,6 +60,13 @@ class Site : public TopologyFeature {
    **/
   void resetNeighRate(const std::pair<int, double*> neighRate);
 
+  /**
+   * \brief Recalculates the hop probabilities and the time constant
+   *
+   * Needed if the rates the site points to have been changed externally.
+   **/
+  void updateProbabilitiesAndTimeConstant();
+
   /**
    * \brief Is the site a neighbor
    *
-- 
2.43.0


From 28742a3ae8a3942b74b30ddeb0d27c8216de7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:22 +0000
Subject: [PATCH 15/17] fix: a cluster counts the walkers already on the sites
 it takes over

A cluster formed from occupied sites, or merged with an occupied cluster,
was considered empty and its occupation became negative once they left.
---
 .../src/libmythical/topologyfeatures/cluster.cpp            | 6 ++++++
 .../src/libmythical/topologyfeatures/topology_feature.hpp   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index a17093d..de9c011 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -72,6 +72,7 @@ void Cluster::addSite(Site& newSite) {
       "added to the cluster");
   newSite.setClusterId(this->getId());
   sitesInCluster_[newSite.getId()] = newSite;
+  occupied_ += newSite.getOccupancy();
 
 }
 
@@ -81,6 +82,7 @@ void Cluster::addSites(vector<Site>& newSites) {
         "added to the cluster");
     site.setClusterId(this->getId());
     sitesInCluster_[site.getId()] = site;
+    occupied_ += site.getOccupancy();
   }
 }
 
@@ -156,6 +158,10 @@ void Cluster::migrateSitesFrom(Cluster& cluster) {
       cluster.sitesInCluster_.end(),
       inserter(this->sitesInCluster_,this->sitesInCluster_.end()));
 
+  // The walkers stay on their sites
+  occupied_ += cluster.occupied_;
+  cluster.occupied_ = 0;
+
   // Change the cluster so that it will not be used unless sites are added 
   cluster.sitesInCluster_.clear();
   cluster.probabilityOnSite_.clear();
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.hpp
index 144cd0f..a12ca19 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.hpp
@@ -108,6 +108,11 @@ class TopologyFeature : public virtual Identity {
   bool isOccupied(const int& siteId)  
   { return isOccupied_siteId_ptr_(this,siteId); }
 
+  /**
+   * \brief The number of particles currently on the feature
+   **/
+  int getOccupancy() const { return occupied_; }
+
   /**
    * \brief Indicate that the site is no longer occupied by a particle
    **/
-- 
2.43.0


From e5428191d62a42626c7821328993d52d7de24974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 16/17] fix: merging clusters also updates the members that lie
 outside the basin

---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 5c3693d..241c04e 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -366,6 +366,11 @@ namespace mythical {
     clusters_->getCluster(favoredClusterId).addSites(isolated_sites);
     clusters_->getCluster(favoredClusterId).updateProbabilitiesAndTimeConstant();
     for(auto clusterId : cluster_ids ){
+      // The cluster may also contain sites that were not passed in
+      for(auto siteId : clusters_->getCluster(clusterId).getSiteIdsInCluster()){
+        topology_features_[siteId] = &(clusters_->getCluster(favoredClusterId));
+        sites_->setClusterId(siteId,favoredClusterId);
+      }
       clusters_->getCluster(favoredClusterId).migrateSitesFrom(clusters_->getCluster(clusterId));
       clusters_->erase(clusterId);
     }
-- 
2.43.0


From cda1d83147ae1c6bdc390f846c3626a14487adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 17/17] fix: initializing a walker on a site of a cluster
 occupies that site

---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 241c04e..aaf4bf7 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -165,7 +165,7 @@ namespace mythical {
           "within the rates parameter.";
         throw runtime_error(error_msg);
       }
-      topology_features_[siteId]->occupy();
+      topology_features_[siteId]->occupy(siteId);
 
       auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
       int newId = topology_features_[siteId]->pickNewSiteId(walkers.at(index).first);
-- 
2.43.0

