From 6ce8d2ffe9718d2b00c05652744659965132c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 01/27] fix: a NaN position is not inside a system

check_inclusion compared with '>' only, so a position with a NaN coordinate
was reported as inside and check_bc accepted a NaN or infinite displacement.
---
 src/system_mod/cont_circ.rs  | 7 +------
 src/system_mod/cont_cubic.rs | 2 +-
 src/system_mod/cont_cyl.rs   | 4 ++--
 3 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 8b3f5ef..6508ead 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -65,12 +65,7 @@ impl SystemCore<f64> for ContCircSystem{
 
         let r : f64 = pos.norm();   // distance between center and position
 
-        if r > self.sys_size{
-            return Ok(false);
-        }
-        else{
-            return Ok(true);
-        }
+        return Ok(r <= self.sys_size);  // NaN is not inside
     }
 
     fn check_bc(&self, pos: &mut Position<f64>, dp: &mut Position<f64>) -> Result<(), Error>{
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index 1ae66dd..1121dfa 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -77,7 +77,7 @@ impl SystemCore<f64> for ContCubicSystem{
 
         let length = self.sys_size;
         for x in &pos.coordinate{
-            if x.abs() > length{
+            if !(x.abs() <= length){           // NaN is not inside
                 return Ok(false);
             }
         }
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index ab01119..d31edd3 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -91,13 +91,13 @@ impl SystemCore<f64> for ContCylindricalSystem{
             r += *x * *x;
         }
         r = r.sqrt();
-        if r > sys_radius{
+        if !(r <= sys_radius){                  // NaN is not inside
             return Ok(false);
         }
 
         let sys_length = self.sys_length;
         for x in &pos[d..]{
-            if x.abs() > sys_length{
+            if !(x.abs() <= sys_length){
                 return Ok(false);
             }
         }
-- 
2.43.0


From 44aba79ecf769b9b83349cdd46ce0a030e3d02c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 02/27] fix: ContCylindricalSystem::random_pos_to_vec stays
 inside the system

The uniform numbers already cover (-1, 1), so scaling by twice the length put
half of the positions outside of the rectangular coordinates.
---
 src/system_mod/cont_cyl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index d31edd3..862f213 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -228,11 +228,11 @@ impl SystemCore<f64> for ContCylindricalSystem{
 
             let mut r : f64 = 0f64;
             for i in 0..d{
-                vec[i] *= 2f64 * sys_radius;
+                vec[i] *= sys_radius;
                 r += vec[i] * vec[i];
             }
             for i in d..dim{
-                vec[i] *= 2f64 * sys_length;
+                vec[i] *= sys_length;
             }
 
             r = r.sqrt();
-- 
2.43.0


From 0e21526718921026ad6d490285874b5cd28feb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 03/27] fix: position_out_of_system of a cylinder without
 rectangular coordinates

With cyl_dim == dim the position 2 * sys_length may lie inside the radius.
---
 src/system_mod/cont_cyl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index 862f213..d643f19 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -248,9 +248,9 @@ impl SystemCore<f64> for ContCylindricalSystem{
         // system 밖의 점을 하나 출력해주는 함수
         // searcher를 새로 정의할 때, 맨 처음 위치를 시스템 밖에 두면 편리해서 생긴 기능
 
-        let sys_length : f64 = self.sys_length;
+        let far : f64 = 2f64 * self.sys_length.max(self.sys_radius);
         let dim : usize = self.dim;
-        return Position::new(vec![2f64 * sys_length; dim]);   // circular domain에선 아니더라도 rectangular domain에서 밖으로 나감
+        return Position::new(vec![far; dim]);   // rectangular domain이 없어도 circular domain에서 밖으로 나감
     }
 
     fn position_out_of_system_to_vec(&self, vec: &mut Position<f64>) -> Result<(), Error>{
@@ -260,9 +260,9 @@ impl SystemCore<f64> for ContCylindricalSystem{
             return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
         }
 
-        let sys_length : f64 = self.sys_length;
+        let far : f64 = 2f64 * self.sys_length.max(self.sys_radius);
         for x in vec.iter_mut(){
-            *x = 2f64 * sys_length;
+            *x = far;
         }
         Ok(())
     }
-- 
2.43.0


From 5b76ed545cf3ab49ff51bbe9f52529caa373698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 04/27] fix: ContCylindricalSystem::convert_from refuses a zero
 radius

as ContCylindricalSystem::new does.
---
 src/system_mod/cont_cyl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index d643f19..0828868 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -53,7 +53,7 @@ impl ContCylindricalSystem{
                 panic!("{:?}", ErrorCode::InvalidArgumentInput);
             },
         };
-        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius < 0f64 ||
+        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius <= 0f64 ||
                 argument.sys_length <= 0f64 || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
-- 
2.43.0


From d3de7be9cfd8ec4c100578616ad6dd3d21de0ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 05/27] fix: distance of integer positions far apart does not
 overflow

---
 src/position.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 85b01e0..2aa0eba 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -185,7 +185,8 @@ impl Position<i32>{
 
         let mut r : f64 = 0.0f64;
         for (&x, &y) in self.iter().zip(other.iter()){
-            r += ((x - y) *  (x - y)) as f64;
+            let d : f64 = x as f64 - y as f64;
+            r += d * d;
         }
         return Ok(r.sqrt());
     }
-- 
2.43.0


From ee2a62d423826a25d93113ed73108753767c5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 06/27] fix: LinkedList::merge refuses a removed, missing or
 identical element before changing anything

---
 src/iterator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iterator.rs b/src/iterator.rs
index 88c25e9..2dba222 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -314,6 +314,10 @@ impl<T> LinkedList<T>{
 impl<M : Merge> LinkedList<M>{
     #[allow(dead_code)]
     pub fn merge(&mut self, idx1 : usize, idx2 : usize) -> Result<(), Error>{
+        if idx1 == idx2 || [idx1, idx2].iter().any(|&idx| idx >= self.links.len() || !self.links[idx].alive){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
+
         let size : usize = self.contents[idx2].size();
         self.contents[idx1].add_size(size)?;
         self.del(idx2)?;
-- 
2.43.0


From dfdfcda2aaf76584c2e14435867901f7febbe9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 07/27] fix: a refused merge leaves the cluster unchanged

---
 src/agent_mod/cont_passive_merge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agent_mod/cont_passive_merge.rs b/src/agent_mod/cont_passive_merge.rs
index 74157e0..6c6e687 100644
--- a/src/agent_mod/cont_passive_merge.rs
+++ b/src/agent_mod/cont_passive_merge.rs
@@ -225,9 +225,9 @@ impl Passive<f64, f64> for ContPassiveMergeAgent{
 
 impl Merge for ContPassiveMergeAgent{
     fn merge(&mut self, other : &Self) -> Result<(), Error>{
-        self.size = self.size + other.size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + other.size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
@@ -243,9 +243,9 @@ impl Merge for ContPassiveMergeAgent{
     }
 
     fn add_size(&mut self, size : usize) -> Result<(), Error>{
-        self.size = self.size + size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
-- 
2.43.0


From cbd8f38c7506e6afc0c629cb3d7b0acafc56556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 08/27] fix: time iterators refuse a zero time step from
 arguments too

---
 src/time_mod/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index ef4d950..fb27afe 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -173,7 +173,7 @@ impl ConstStep{
     pub fn convert_from(argument : &ConstStepArguments) -> Self{
         let tmax : f64;
 
-        if argument.tmax < 0f64 || argument.dt < 0f64{
+        if argument.tmax < 0f64 || argument.dt < 1e-15{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if argument.tmax < 1e-10{
@@ -346,7 +346,7 @@ impl ExponentialStep{
         let length : usize = argument.length;
         let mut tmax : f64 = argument.tmax;
 
-        if tmax < 0f64 || dt_min < 0f64
+        if tmax < 0f64 || dt_min < 1e-15
             || dt_min > dt_max || length < 10{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
-- 
2.43.0


From bf2c37b4062bec693b5ae373269d480775a520e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 09/27] fix: ExponentialStep::set_inc does not make the time
 step shrink

---
 src/time_mod/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index fb27afe..1c4bed0 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -240,8 +240,10 @@ impl ExponentialStep{
         }
         match self.titype{
             TimeType::Exponential(_min, _max, length) =>{
-                if inc * 2f64 > length as f64{
-                    self.inc = (length as f64) / 2f64;
+                // a step never shrinks, see new
+                let max_inc : f64 = if length == 1 { 1.2f64 } else { (length as f64) / 2f64 };
+                if inc > max_inc{
+                    self.inc = max_inc;
                 }
                 else{
                     self.inc = inc;
-- 
2.43.0


From 627c23fe43751480d7358e17e2609c369515ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 10/27] fix: configuration lines are split at the first colon
 only

---
 src/argument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argument.rs b/src/argument.rs
index b35d5d4..a495a8a 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -144,7 +144,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 Some(x) => x.map_err(Error::make_error_io)?,
                                 None => {return Err(Error::make_error_syntax(ErrorCode::InvalidFile));}
                             };
-                            let split : Vec<String> = list.split(":")
+                            let split : Vec<String> = list.splitn(2, ":")
                                                           .map(|s| s.to_string())
                                                           .collect();
                             if split.len() != 2{
-- 
2.43.0


From 288f27fca8e72345cf46975ca49b0c97a9af37b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:45 +0000
Subject: [PATCH 11/27] fix: every value within the range of a histogram has an
 allocated bin, NaN has none

---
 src/analysis.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index b23c025..e8498bb 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -222,21 +222,23 @@ macro_rules! construct_trait_bin {
 
         #[allow(dead_code)]
         fn bin_pos(&self, fpt : f64) -> Option<usize>{
-            if fpt < self.min_time || self.max_time < fpt{
+            if !(self.min_time <= fpt && fpt <= self.max_time){
                 return None;
             }
             else{
-                return Some(((fpt - self.min_time) / self.bin_size).floor() as usize);
+                let idx = ((fpt - self.min_time) / self.bin_size).floor() as usize;
+                return Some(idx.min(self.num_bin.saturating_sub(1)));     // maximal value belongs to the last bin
             }
         }
 
         #[allow(dead_code)]
         fn lbin_pos(&self, fpt : f64) -> Option<usize>{
-            if fpt < self.min_time || self.max_time < fpt{
+            if !(self.min_time <= fpt && fpt <= self.max_time){
                 return None;
             }
             else{
-                return Some(((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize);
+                let idx = ((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize;
+                return Some(idx.min(self.num_lbin.saturating_sub(1)));    // maximal value belongs to the last bin
             }
         }
     }
-- 
2.43.0


From 5755291f83eeacfbd38ae6b74c3a79e760146473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:45 +0000
Subject: [PATCH 12/27] fix: histograms refuse bin sizes that cannot cover the
 range

---
 src/analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index e8498bb..eaa3d22 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -153,7 +153,7 @@ macro_rules! construct_trait_bin {
 () => {
         #[allow(dead_code)]
         fn update_from_bin_size(&mut self, min_time : f64, max_time : f64, bin_size : f64, lbin_size : f64) -> Result<(), Error>{
-            if min_time < 0f64 || max_time < min_time || bin_size < 0f64 || lbin_size < 0f64{
+            if !(min_time >= 0f64 && max_time >= min_time && bin_size > 0f64 && lbin_size > 1f64){
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -179,7 +179,7 @@ macro_rules! construct_trait_bin {
 
         #[allow(dead_code)]
         fn update_from_num_bin(&mut self, min_time : f64, max_time : f64, num_bin : usize) -> Result<(), Error>{
-            if min_time < 0f64 || max_time < min_time || num_bin < 10{
+            if !(min_time >= 0f64 && max_time >= min_time) || num_bin < 10{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -203,7 +203,7 @@ macro_rules! construct_trait_bin {
         }
 
         fn convert_num_bin_to_bin_size(min_time : f64, max_time : f64, num_bin : usize) -> Result<(f64, f64), Error>{
-            if min_time < 0f64 || max_time < min_time || num_bin < 10{
+            if !(min_time >= 0f64 && max_time >= min_time) || num_bin < 10{
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
-- 
2.43.0


From 835959879524c5fab85957fd0c72a0f979880539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 13/27] fix: the deviation of equal values is zero instead of
 NaN

---
 src/analysis.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index eaa3d22..1dd4cac 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -244,6 +244,11 @@ macro_rules! construct_trait_bin {
     }
 }
 
+// Standard deviation for given variance. Rounding error could make variance of same values negative.
+fn stddev_from_variance(variance : f64) -> f64{
+    if variance < 0f64 {0f64} else {variance.sqrt()}
+}
+
 pub trait Var1
     where Self : Sized + Bin{
     // Single variable analysis.
@@ -405,7 +410,7 @@ impl Var1 for TimeAnalysis{
         let en : f64= self.ensemble as f64;
 
         self.mean = self.mean / en;
-        self.stddev = ((self.stddev / en) - self.mean.powi(2)).sqrt();
+        self.stddev = stddev_from_variance((self.stddev / en) - self.mean.powi(2));
 
         let d_bin : f64 = en * (self.bin_size as f64);
         let lbin : f64 = self.lbin_size;
@@ -728,7 +733,7 @@ impl VarN for TimeVecAnalysis{
 
         for idx in 0..self.num_var{
             self.means[idx] = self.means[idx] / en;
-            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).sqrt();
+            self.stddevs[idx] = stddev_from_variance((self.stddevs[idx] / en) - self.means[idx].powi(2));
 
             let mut d_lbin : f64 = self.min_time * en * (lbin - 1f64);
 
@@ -1126,14 +1131,14 @@ impl VarTime for ProcessAnalysis{
         let en = self.tot_point as f64;
 
         self.long_term_mean = self.long_term_mean / en;
-        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).sqrt();
+        self.long_term_stddev = stddev_from_variance((self.long_term_stddev / en) - self.long_term_mean.powi(2));
 
         let count = &self.count;
         let mean = &mut self.mean;
         let stddev = &mut self.stddev;
         for (i, &x) in count.iter().enumerate(){
             mean[i] = mean[i] / (x as f64);
-            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).sqrt();
+            stddev[i] = stddev_from_variance(stddev[i] / (x as f64) - mean[i].powi(2));
         }
 
         let lcount = &self.lcount;
@@ -1141,7 +1146,7 @@ impl VarTime for ProcessAnalysis{
         let log_stddev = &mut self.log_stddev;
         for (i, &x) in lcount.iter().enumerate(){
             log_mean[i] = log_mean[i] / (x as f64);
-            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).sqrt();
+            log_stddev[i] = stddev_from_variance(log_stddev[i] / (x as f64) - log_mean[i].powi(2));
         }
     }
 }
-- 
2.43.0


From 0c0542156f96aad22db8fe96d37e79f3b3732762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 14/27] fix: ProcessAnalysis::clear forgets the number of
 points

---
 src/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index 1dd4cac..b3911db 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -1158,6 +1158,7 @@ impl Analysis for ProcessAnalysis{
     fn clear(&mut self){
         self.long_term_mean = 0f64;
         self.long_term_stddev = 0f64;
+        self.tot_point = 0;
         self.ensemble = 0;
 
         self.mean = vec![0f64; self.num_bin];
-- 
2.43.0


From a77a31bf18919e98a8f51efa36539d2000e94d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 15/27] fix: exported distributions list every bin that has
 data and no other

---
 src/analysis.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index b3911db..177b374 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -461,10 +461,10 @@ impl Analysis for TimeAnalysis{
         let mut time = self.min_time - bin_size / 2f64;
         for (i, &x) in self.hist.iter().enumerate(){
             time += bin_size;
-            if x.abs() < 1e-15{
+            let n = self.count[i];
+            if n == 0{
                 continue;
             }
-            let n = self.count[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -477,10 +477,10 @@ impl Analysis for TimeAnalysis{
 
         for (i, &x) in self.lhist.iter().enumerate(){
             time *= r;
-            if x.abs() < 1e-15{
+            let n = self.lcount[i];
+            if n == 0{
                 continue;
             }
-            let n = self.lcount[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -790,9 +790,8 @@ impl Analysis for TimeVecAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_bin{
             let mut string = String::new();
             let mut check = false;
 
@@ -801,7 +800,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.count[idx][i];
                 let x = self.hist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -811,7 +810,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time += bin_size;
-            i += 1;
 
         }
         Ok(())
@@ -821,9 +819,8 @@ impl Analysis for TimeVecAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let mut string = String::new();
             let mut check = false;
 
@@ -832,7 +829,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.lcount[idx][i];
                 let x = self.lhist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -842,7 +839,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1191,20 +1187,18 @@ impl Analysis for ProcessAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_bin{
 
             let n = self.count[i];
             let x = self.mean[i];
             let dx = self.stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
             time += bin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1213,19 +1207,17 @@ impl Analysis for ProcessAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let n = self.lcount[i];
             let x = self.log_mean[i];
             let dx = self.log_stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
-- 
2.43.0


From 14bcf34a712ec092c12fa1dd1c6cf8fb815e7e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 16/27] fix: headings of a summary are in the order of its
 columns

---
 src/analysis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 177b374..1f032b7 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -447,7 +447,7 @@ impl Analysis for TimeAnalysis{
                   bin_size, "Bin size for Linear Histogram",
                   lbin_size, "Bin size for Logarithmic Histogram",
                   output_dir, "Directory for data files");
-    export_form!(export_form, ensemble, mean, stddev);
+    export_form!(export_form, mean, stddev, ensemble);
 
 
     #[allow(dead_code)]
@@ -1173,7 +1173,7 @@ impl Analysis for ProcessAnalysis{
                   bin_size, "Bin size for Linear Histogram",
                   lbin_size, "Bin size for Logarithmic Histogram",
                   output_dir, "Directory for data files");
-    export_form!(export_form, ensemble, long_term_mean, long_term_stddev);
+    export_form!(export_form, long_term_mean, long_term_stddev, ensemble);
 
     #[allow(dead_code)]
     fn export_mean_stddev(&self, prec : usize) -> Result<String, Error>{
-- 
2.43.0


From f0d2a6e16bf2555fb47efba6aae92b87206b49f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:28 +0000
Subject: [PATCH 17/27] fix: data sets are the same only if their parameters
 are

---
 src/analysis.rs | 7 +------
 src/macros.rs   | 9 +--------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 1f032b7..490284c 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -107,12 +107,7 @@ macro_rules! construct_dataset {
 
         impl PartialEq for $name{
             fn eq(&self, other: &Self) -> bool {
-                fn calculate_hash<T: Hash>(t: &T) -> u64 {
-                    let mut s = std::collections::hash_map::DefaultHasher::new();
-                    t.hash(&mut s);
-                    s.finish()
-                }
-                calculate_hash(&self) == calculate_hash(other)
+                true $($(&& (self.$var as f64 + 0f64).to_bits() == (other.$var as f64 + 0f64).to_bits())*)*
             }
         }
 
diff --git a/src/macros.rs b/src/macros.rs
index 9f05ce1..5678f06 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -136,14 +136,7 @@ macro_rules! derive_hash{
         impl Hash for $name{
             fn hash<H: Hasher>(&self, state: &mut H){
                 $(
-                    let mut c = self.$var as f64 * 1e10;
-                    let mut b : f64 = 0.0;
-
-                    if c < 0.0 {
-                        c = - c;
-                        b = 1.0;
-                    }
-                    ((c + b) as usize).hash(state);
+                    (self.$var as f64 + 0f64).to_bits().hash(state);        // + 0 : -0 is same as 0
                     )*
             }
         }
-- 
2.43.0


From a3c296c766639912cb32af9997cdb4e8d01b9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:28 +0000
Subject: [PATCH 18/27] fix: headings of columns do not run into each other

---
 src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 5678f06..6d1ea82 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -152,7 +152,7 @@ macro_rules! export_form{
         #[allow(dead_code)]
         fn $name(width: usize) -> String{
             let mut string = String::new();
-            $(string.push_str(format!("{}", format_args!("{0:<1$}", stringify!($var), width)).as_str());
+            $(string.push_str(format!("{}", format_args!("{0:<1$}\t", stringify!($var), width)).as_str());
                 )*
             return string;
         }
@@ -166,7 +166,7 @@ macro_rules! pub_export_form{
         #[allow(dead_code)]
         pub fn $name(width: usize) -> String{
             let mut string = String::new();
-            $(string.push_str(format!("{}", format_args!("{0:<1$}", stringify!($var), width)).as_str());
+            $(string.push_str(format!("{}", format_args!("{0:<1$}\t", stringify!($var), width)).as_str());
                 )*
             return string;
         }
-- 
2.43.0


From c179de6749c027f010edfe950a70823cb939b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:28 +0000
Subject: [PATCH 19/27] fix: simulation! compiles with cylindrical systems and
 merging agents

---
 moledyn_proc/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moledyn_proc/src/lib.rs b/moledyn_proc/src/lib.rs
index 1ec717d..d02d7e6 100644
--- a/moledyn_proc/src/lib.rs
+++ b/moledyn_proc/src/lib.rs
@@ -75,7 +75,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContCylindricalSystem" => {
             let tokens = proc_quote::quote!{
-                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [radius, f64, length, f64, dim, usize]
+                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]
             };
             tokens.into()
         },
@@ -103,7 +103,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContPassiveMergeAgent" => {
             let tokens = proc_quote::quote!{
-                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [radius, f64, alpha, f64, num_agent, usize]
+                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]
             };
             tokens.into()
         },
-- 
2.43.0


From 8b969b58840b5acdf7b771adccb880e532007806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:28 +0000
Subject: [PATCH 20/27] fix: TimeVecAnalysis announces the five words it needs

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 490284c..2172abd 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -749,7 +749,7 @@ impl VarN for TimeVecAnalysis{
 }
 
 impl Analysis for TimeVecAnalysis{
-    const NUM_ARGS : usize = 4;
+    const NUM_ARGS : usize = 5;
 
     // Clear data
     fn clear(&mut self){
-- 
2.43.0


From 9aceb0839aa82b4c0741a70032429bed846b18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:13 +0000
Subject: [PATCH 21/27] fix: coordinates that do not parse are refused, not
 read as zero

---
 src/agent_mod/types.rs | 2 +-
 src/position.rs        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/agent_mod/types.rs b/src/agent_mod/types.rs
index 3213635..3f0adda 100644
--- a/src/agent_mod/types.rs
+++ b/src/agent_mod/types.rs
@@ -233,7 +233,7 @@ impl<T : FromStr + Default + Clone> FromStr for InitType<T>{
         }
         else{
             match split[1]{
-                "all" => Ok(InitType::<T>::SpecificPosition(split[4].parse::<Position<T>>().expect("Failed to parse"))),
+                "all" => Ok(InitType::<T>::SpecificPosition(split.get(4).copied().unwrap_or("").parse::<Position<T>>()?)),
                 "agents" => Ok(InitType::<T>::Uniform),
                 _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             }
diff --git a/src/position.rs b/src/position.rs
index 2aa0eba..a2d6832 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -123,8 +123,8 @@ impl<T : FromStr + Default + Clone> FromStr for Position<T>{
                                  .split(|c| c == ',' || c == ':')
                                  .collect();
         let coords: Vec<T> = coords.iter()
-                                     .map(|x| x.parse::<T>().map_or(Default::default(), |v| v))
-                                     .collect();
+                                     .map(|x| x.trim().parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                                     .collect::<Result<Vec<T>, Error>>()?;
         return Ok(Position::<T>::new(coords));
     }
 }
-- 
2.43.0


From 48f04114516fca31edadba750ccf07070522732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 22/27] fix: text forms, words and headers that do not parse
 are errors, not panics

---
 src/agent_mod/types.rs | 13 +++++++------
 src/argument.rs        |  4 ++--
 src/system_mod/mod.rs  | 10 +++++-----
 src/time_mod/mod.rs    | 11 ++++++-----
 4 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/agent_mod/types.rs b/src/agent_mod/types.rs
index 3f0adda..a9d5733 100644
--- a/src/agent_mod/types.rs
+++ b/src/agent_mod/types.rs
@@ -171,8 +171,9 @@ impl FromStr for MoveType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Brownian" => Ok(MoveType::Brownian(split[4].parse::<f64>().expect("Failed to parse"))),
+        match split.get(0).copied().unwrap_or(""){
+            "Brownian" => split.get(4).copied().unwrap_or("").parse::<f64>().map(|c| MoveType::Brownian(c))
+                                   .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Levy" => Ok(MoveType::Levy),
             _ => {
                 if split.len() == 1{
@@ -232,7 +233,7 @@ impl<T : FromStr + Default + Clone> FromStr for InitType<T>{
             }
         }
         else{
-            match split[1]{
+            match split.get(1).copied().unwrap_or(""){
                 "all" => Ok(InitType::<T>::SpecificPosition(split.get(4).copied().unwrap_or("").parse::<Position<T>>()?)),
                 "agents" => Ok(InitType::<T>::Uniform),
                 _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
@@ -300,7 +301,7 @@ impl FromStr for InteractType{
             let name = split[0];
             match name{
                 "Exponential" => {
-                    let args : Vec<&str> = split[1].split(',').collect();
+                    let args : Vec<&str> = split.get(1).copied().unwrap_or("").split(',').collect();
                     if args.len() != 2{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
                     }
@@ -315,7 +316,7 @@ impl FromStr for InteractType{
                     return Ok(InteractType::Coulomb3D);
                 },
                 "LennardJones" => {
-                    let ptl_size : f64 = split[1].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                    let ptl_size : f64 = split.get(1).copied().unwrap_or("").parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                     return Ok(InteractType::LennardJones(ptl_size));
                 }
                 _ => {
@@ -323,7 +324,7 @@ impl FromStr for InteractType{
                 }
             }
         } else {
-            match split[0]{
+            match split.get(0).copied().unwrap_or(""){
                 "Exponential" => {
                     if split.len() != 10{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
diff --git a/src/argument.rs b/src/argument.rs
index a495a8a..d703231 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -111,7 +111,7 @@ macro_rules! impl_fn_read_args_from_vec{
                     )*
                 $($var : {
                         let word : &str = iter.next().unwrap().trim();
-                        word.parse().expect("Failed to parse\n")
+                        word.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?
                     },
                     )*
             })
@@ -151,7 +151,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                             }
                             let val_string : &str = &split[1].trim();
-                            val_string.parse().expect("Failed to parse\n")},
+                            val_string.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat))?},
                     )*
             })
         }
diff --git a/src/system_mod/mod.rs b/src/system_mod/mod.rs
index c0bac70..43a6daa 100644
--- a/src/system_mod/mod.rs
+++ b/src/system_mod/mod.rs
@@ -70,13 +70,13 @@ impl FromStr for SystemType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match split.get(0).copied().unwrap_or(""){
             "Continuous" => {
-                match split[1]{
+                match split.get(1).copied().unwrap_or(""){
                     "Circular" => Ok(SystemType::ContinuousCircular),
                     "Rectangular" => Ok(SystemType::ContinuousRectangular),
                     "Cylindrical" => {
-                        let d = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                        let d = split.get(3).and_then(|x| x.get(3..)).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                         Ok(SystemType::ContinuousCylindrical(d))
                     }
                     _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
@@ -136,11 +136,11 @@ impl FromStr for BoundaryCond{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match split.get(0).copied().unwrap_or(""){
             "Reflective"    => Ok(BoundaryCond::Reflection),
             "Periodic"      => Ok(BoundaryCond::Periodic),
             "Mixed"         => {
-                let x = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let x = split.get(3).and_then(|x| x.get(3..)).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(BoundaryCond::Mixed(x))
             },
             string => {
diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 1c4bed0..00ce6f2 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -62,12 +62,13 @@ impl FromStr for TimeType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Constant" => Ok(TimeType::Constant(split[5].parse::<f64>().expect("Failed to parse"))),
+        match split.get(0).copied().unwrap_or(""){
+            "Constant" => split.get(5).copied().unwrap_or("").parse::<f64>().map(|c| TimeType::Constant(c))
+                                   .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Exponential" => {
-                let dt_min = split[5].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let dt_max = split[7].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let length = split[13].parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_min = split.get(5).copied().unwrap_or("").parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_max = split.get(7).copied().unwrap_or("").parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let length = split.get(13).copied().unwrap_or("").parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(TimeType::Exponential(dt_min, dt_max, length))
             },
             _ => {
-- 
2.43.0


From 075c9108b24062eb194449f66357de75ddbfb32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 23/27] fix: analysis answers malformed words and data with
 errors, not panics

---
 src/analysis.rs | 59 +++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 2172abd..93e8dee 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -513,9 +513,9 @@ impl Analysis for TimeAnalysis{
         match args.len(){
             4 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -524,10 +524,10 @@ impl Analysis for TimeAnalysis{
             },
             5 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
             },
             _ => {
@@ -593,7 +593,7 @@ impl Analysis for TimeAnalysis{
 
             for line in lines{
                 let line = line.map_err(Error::make_error_io)?;
-                let time : f64 = line.trim().parse().unwrap();
+                let time : f64 = line.trim().parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat))?;
                 analysis.add_ensemble(time);
             }
 
@@ -873,10 +873,10 @@ impl Analysis for TimeVecAnalysis{
         match args.len(){
             5 => {
                 let mut idx : usize = 0;
-                num_var  = args[idx].parse().unwrap();      idx+=1;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                num_var  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -885,11 +885,11 @@ impl Analysis for TimeVecAnalysis{
             },
             6 => {
                 let mut idx : usize = 0;
-                num_var  = args[idx].parse().unwrap();      idx+=1;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                num_var  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
             },
             _ => {
@@ -955,7 +955,12 @@ impl Analysis for TimeVecAnalysis{
 
             for line in lines{
                 let line = line.map_err(Error::make_error_io)?;
-                let values = line.trim().split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect();
+                let values : Vec<f64> = line.trim().split_whitespace()
+                                            .map(|x| x.parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat)))
+                                            .collect::<Result<Vec<f64>, Error>>()?;
+                if analysis.num_var != 0 && values.len() != analysis.num_var{
+                    return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
+                }
                 analysis.add_ensemble(values);
             }
 
@@ -991,8 +996,8 @@ impl<T> FromStr for Pair<T>
     fn from_str(s : &str) -> Result<Self, Self::Err>{
         let mut trim = s.to_string();
         trim.retain(|c| c != '(' && c != ')');
-        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)).unwrap())
-                           .collect();
+        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                           .collect::<Result<Vec<T>, Error>>()?;
         if splitted.len() != 2{
             return Err(Error::make_error_syntax(ErrorCode::InvalidNumberOfArguments));
         }
@@ -1251,9 +1256,9 @@ impl Analysis for ProcessAnalysis{
         match args.len(){
             4 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -1262,10 +1267,10 @@ impl Analysis for ProcessAnalysis{
             },
             5 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
             },
             _ => {
-- 
2.43.0


From 26e055da082a375f28dbe97a3ec98b618ff44a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 24/27] fix: TimeAnalysis leaves out data sets without data

---
 src/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index 93e8dee..ec75360 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -601,6 +601,9 @@ impl Analysis for TimeAnalysis{
         }
 
         for (dataset, analysis) in hashmap.iter_mut(){
+            if analysis.ensemble == 0{
+                continue;
+            }
             analysis.draw();
 
             let hist_filename = dataset.export_file_removed_idx(prefix);
-- 
2.43.0


From efa26fa8ec5928a5d3b4b87a2b2e1a5855f0f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 25/27] fix: setup_simulation_fixed skips the first words for
 analysis too

---
 src/setup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setup.rs b/src/setup.rs
index a451711..1f3e928 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -103,7 +103,7 @@ macro_rules! setup_simulation_fixed{
         define_total_num_args!($($struct_type),*);
 
         if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
-                return <$analysis>::analyze::<$dataset>(&$args, WIDTH, $prefix);
+                return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
         else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
-- 
2.43.0


From 163b0dc48fda828a18022b574d4a1c17f59638fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:31 +0000
Subject: [PATCH 26/27] fix: the summary row is written whole, however little
 the writer takes at once

---
 src/analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index ec75360..19e724b 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -483,7 +483,7 @@ impl Analysis for TimeAnalysis{
 
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
         // Export datas
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -844,7 +844,7 @@ impl Analysis for TimeVecAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -1228,7 +1228,7 @@ impl Analysis for ProcessAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
-- 
2.43.0


From 91b92d5a316a215f28accd6cb275669ceb56a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:31 +0000
Subject: [PATCH 27/27] fix: an analysis that cannot write its summary is an
 error

---
 src/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index 19e724b..2b062fc 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -611,6 +611,7 @@ impl Analysis for TimeAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -981,6 +982,7 @@ impl Analysis for TimeVecAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -1361,6 +1363,7 @@ impl Analysis for ProcessAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
-- 
2.43.0

