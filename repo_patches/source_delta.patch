From 2354640e7f4e76913381c68409a85a07538ff3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 01/36] fix: keep the pair sweep complete when elements are
 deleted during it

Deleting the first element of a pair, or an element the pair cursor points
at, made the sweep skip pairs, present an element with itself or end early.
A single sweep started after an abandoned pair sweep kept its stale cursor.
---
 src/iterator.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/iterator.rs b/src/iterator.rs
index 88c25e9..cbafa9a 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -120,12 +120,6 @@ impl<T> LinkedList<T>{
         self.links[idx].alive = false;
         let node = self.links[idx];
 
-        for c in &mut self.current{
-            if *c == Some(idx){
-                *c = node.next;
-            }
-        }
-
         match node.prev{
             Some(prev) => {self.links[prev].next = node.next;},
             None => {self.head = node.next;},
@@ -136,6 +130,20 @@ impl<T> LinkedList<T>{
             None => {self.tail = node.prev;},
         }
 
+        if self.current[0] == Some(idx){
+            // the row of deleted node is finished. restart from the first pair of the next row
+            self.current[0] = node.next;
+            self.current[1] = self.current[1].and(node.next).and_then(|x| self.links[x].next);
+        }
+        else if self.current[1] == Some(idx){
+            self.current[1] = node.next;
+            if node.next.is_none(){
+                // no partner left in this row. move to the first pair of the next row
+                self.current[0] = self.current[0].and_then(|x| self.links[x].next);
+                self.current[1] = self.current[0].and_then(|x| self.links[x].next);
+            }
+        }
+
         Ok(())
     }
 
@@ -181,6 +189,7 @@ impl<T> LinkedList<T>{
     #[allow(dead_code)]
     pub fn into_iter(&mut self){
         self.current[0] = self.head;
+        self.current[1] = None;
     }
 
     pub fn into_double_iter(&mut self){
-- 
2.43.0


From 724080c8cc2da4a977ff46e079fa9729fbb3604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 02/36] fix: refuse to merge deleted, missing or identical list
 elements

The size was added before the elements were checked, so a refused merge
changed the total size, and a deleted absorber swallowed a live element.
---
 src/iterator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iterator.rs b/src/iterator.rs
index cbafa9a..febb609 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -323,6 +323,11 @@ impl<T> LinkedList<T>{
 impl<M : Merge> LinkedList<M>{
     #[allow(dead_code)]
     pub fn merge(&mut self, idx1 : usize, idx2 : usize) -> Result<(), Error>{
+        if idx1 == idx2 || !self.links.get(idx1).map_or(false, |x| x.alive)
+                        || !self.links.get(idx2).map_or(false, |x| x.alive){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
+
         let size : usize = self.contents[idx2].size();
         self.contents[idx1].add_size(size)?;
         self.del(idx2)?;
-- 
2.43.0


From f6f73566228860a95b502851bb7108ec9df3d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 03/36] fix: do not grow an agent whose kind of motion cannot
 merge

The size was changed before the unsupported kind of motion was reported.
---
 src/agent_mod/cont_passive_merge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agent_mod/cont_passive_merge.rs b/src/agent_mod/cont_passive_merge.rs
index 74157e0..6c6e687 100644
--- a/src/agent_mod/cont_passive_merge.rs
+++ b/src/agent_mod/cont_passive_merge.rs
@@ -225,9 +225,9 @@ impl Passive<f64, f64> for ContPassiveMergeAgent{
 
 impl Merge for ContPassiveMergeAgent{
     fn merge(&mut self, other : &Self) -> Result<(), Error>{
-        self.size = self.size + other.size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + other.size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
@@ -243,9 +243,9 @@ impl Merge for ContPassiveMergeAgent{
     }
 
     fn add_size(&mut self, size : usize) -> Result<(), Error>{
-        self.size = self.size + size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
-- 
2.43.0


From 01080f225914cc597ca8b4634fd02ceb4a29f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 04/36] fix: keep the growth factor of short stages above one

With a stage length of two the steps never grew, and set_inc on a stage
length of one made them shrink towards zero, so time stopped advancing.
---
 src/time_mod/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index ef4d950..58faea1 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -213,7 +213,7 @@ impl ExponentialStep{
         }
 
         let inc : f64;
-        if length == 1{
+        if length <= 2{
             inc = 1.2f64;
         }
         else if length < 10{
@@ -240,7 +240,10 @@ impl ExponentialStep{
         }
         match self.titype{
             TimeType::Exponential(_min, _max, length) =>{
-                if inc * 2f64 > length as f64{
+                if length <= 2{
+                    self.inc = inc.min(1.2f64);
+                }
+                else if inc * 2f64 > length as f64{
                     self.inc = (length as f64) / 2f64;
                 }
                 else{
-- 
2.43.0


From bc4556c13c5eb3ac42d883913dedd3c5d8f065f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 05/36] fix: refuse a vanishing time step read from arguments

The constructors refuse it, but convert_from accepted it and the clock
then never advanced.
---
 src/time_mod/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 58faea1..27ee3c3 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -173,7 +173,7 @@ impl ConstStep{
     pub fn convert_from(argument : &ConstStepArguments) -> Self{
         let tmax : f64;
 
-        if argument.tmax < 0f64 || argument.dt < 0f64{
+        if argument.tmax < 0f64 || argument.dt < 1e-15{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if argument.tmax < 1e-10{
@@ -349,7 +349,7 @@ impl ExponentialStep{
         let length : usize = argument.length;
         let mut tmax : f64 = argument.tmax;
 
-        if tmax < 0f64 || dt_min < 0f64
+        if tmax < 0f64 || dt_min < 1e-15
             || dt_min > dt_max || length < 10{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
-- 
2.43.0


From 8747970712b83b1f4292580f944319aca71e2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 06/36] fix: draw in-place positions inside the cylinder

The draw from (-1, 1) was scaled by the full diameter and length, so three
quarters of each axis lay outside of the system.
---
 src/system_mod/cont_cyl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index ab01119..f08794f 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -224,7 +224,7 @@ impl SystemCore<f64> for ContCylindricalSystem{
         }
         loop{
             vec.clear();
-            get_uniform_to_vec_nonstandard(rng, vec, -1f64, 1f64);
+            get_uniform_to_vec_nonstandard(rng, vec, -0.5f64, 0.5f64);
 
             let mut r : f64 = 0f64;
             for i in 0..d{
-- 
2.43.0


From 7bcf66cc218ac0ff64b38a894ab4c41d76e38cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 07/36] fix: position out of a cylinder without rectangular
 axes lies outside

With all axes circular and the radius larger than the length the position
meant to be outside could lie inside of the system.
---
 src/system_mod/cont_cyl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index f08794f..d516978 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -248,7 +248,7 @@ impl SystemCore<f64> for ContCylindricalSystem{
         // system 밖의 점을 하나 출력해주는 함수
         // searcher를 새로 정의할 때, 맨 처음 위치를 시스템 밖에 두면 편리해서 생긴 기능
 
-        let sys_length : f64 = self.sys_length;
+        let sys_length : f64 = self.sys_length.max(self.sys_radius);  // rectangular domain이 없을 때에도 circular domain 밖이도록
         let dim : usize = self.dim;
         return Position::new(vec![2f64 * sys_length; dim]);   // circular domain에선 아니더라도 rectangular domain에서 밖으로 나감
     }
@@ -260,7 +260,7 @@ impl SystemCore<f64> for ContCylindricalSystem{
             return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
         }
 
-        let sys_length : f64 = self.sys_length;
+        let sys_length : f64 = self.sys_length.max(self.sys_radius);
         for x in vec.iter_mut(){
             *x = 2f64 * sys_length;
         }
-- 
2.43.0


From 98669c1b5ee1869eab8444f3ddd0fe1f1489527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 08/36] fix: refuse a cylinder of radius zero read from
 arguments

The constructor refuses it; from arguments it was accepted and drawing a
random position in it never ended.
---
 src/system_mod/cont_cyl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index d516978..40afe34 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -53,7 +53,7 @@ impl ContCylindricalSystem{
                 panic!("{:?}", ErrorCode::InvalidArgumentInput);
             },
         };
-        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius < 0f64 ||
+        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius <= 0f64 ||
                 argument.sys_length <= 0f64 || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
-- 
2.43.0


From a572a62bf1a06796ddc1583fcf17c0c40ad9fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 09/36] fix: respect a small upper limit of time in the
 constant scheme

---
 src/time_mod/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 27ee3c3..d8e90f8 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -132,7 +132,7 @@ impl TimeIterator for ConstStep{
         if tmax < 0f64{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
-        else if tmax < 1e-10{
+        else if tmax < 1e-15{
             self.tmax = std::f64::MAX;
         }
         else{
@@ -176,7 +176,7 @@ impl ConstStep{
         if argument.tmax < 0f64 || argument.dt < 1e-15{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
-        else if argument.tmax < 1e-10{
+        else if argument.tmax < 1e-15{
             tmax = std::f64::MAX;
         }
         else{
-- 
2.43.0


From ba559936c1f565d26ac4e8fe7a265dd55bcf561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 10/36] fix: answer a move of a wrong dimension with an error

---
 src/system_mod/cont_circ.rs  | 3 +++
 src/system_mod/cont_cubic.rs | 3 +++
 src/system_mod/cont_cyl.rs   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 8b3f5ef..a70f5eb 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -80,6 +80,9 @@ impl SystemCore<f64> for ContCircSystem{
         // pos : initial position of ptl
         // dp : displacement of ptl
 
+        if pos.dim() != self.dim || dp.dim() != self.dim{     // 움직이기 전에 dimension부터 확인
+            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
         pos.mut_add(dp);                           // add dp to pos
         if self.check_inclusion(pos)?{              // if ptl is still in the system after movement
             return Ok(());                          // return
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index 1ae66dd..1f99cda 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -91,6 +91,9 @@ impl SystemCore<f64> for ContCubicSystem{
         // pos : initial position of ptl
         // dp : displacement of ptl
 
+        if pos.dim() != self.dim || dp.dim() != self.dim{     // 움직이기 전에 dimension부터 확인
+            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
         pos.mut_add(dp);                           // add dp to pos
         if self.check_inclusion(pos)?{              // if ptl is still in the system after movement
             return Ok(());                          // return
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index 40afe34..b48c83c 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -112,6 +112,9 @@ impl SystemCore<f64> for ContCylindricalSystem{
         // pos : initial position of ptl
         // dp : displacement of ptl
 
+        if pos.dim() != self.dim || dp.dim() != self.dim{     // 움직이기 전에 dimension부터 확인
+            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
         pos.mut_add(dp);                           // add dp to pos
         if self.check_inclusion(pos)?{              // if ptl is still in the system after movement
             return Ok(());                          // return
-- 
2.43.0


From 1824c92ce6739ae9e5b9b93b6ed1bae18e478e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 11/36] fix: distance of integer positions does not overflow

---
 src/position.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 85b01e0..fba6bb1 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -185,7 +185,7 @@ impl Position<i32>{
 
         let mut r : f64 = 0.0f64;
         for (&x, &y) in self.iter().zip(other.iter()){
-            r += ((x - y) *  (x - y)) as f64;
+            r += (x as f64 - y as f64).powi(2);     // 정수 범위를 넘지 않도록 실수로 계산
         }
         return Ok(r.sqrt());
     }
-- 
2.43.0


From aabb8a9d130b6e3d4df6aa534363b10f776353f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 12/36] fix: read configuration values that contain a colon

---
 src/argument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argument.rs b/src/argument.rs
index b35d5d4..a495a8a 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -144,7 +144,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 Some(x) => x.map_err(Error::make_error_io)?,
                                 None => {return Err(Error::make_error_syntax(ErrorCode::InvalidFile));}
                             };
-                            let split : Vec<String> = list.split(":")
+                            let split : Vec<String> = list.splitn(2, ":")
                                                           .map(|s| s.to_string())
                                                           .collect();
                             if split.len() != 2{
-- 
2.43.0


From c30bb72cf187d5216c1b699d7082c5ec20dfb1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 13/36] fix: answer an argument that cannot be parsed with an
 error

---
 src/agent_mod/types.rs | 11 +++++++++--
 src/argument.rs        |  4 ++--
 src/system_mod/mod.rs  | 10 +++++-----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/agent_mod/types.rs b/src/agent_mod/types.rs
index 3213635..2d3d15d 100644
--- a/src/agent_mod/types.rs
+++ b/src/agent_mod/types.rs
@@ -171,8 +171,12 @@ impl FromStr for MoveType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
+        if split.is_empty() || (split[0] == "Brownian" && split.len() != 5){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
         match split[0]{
-            "Brownian" => Ok(MoveType::Brownian(split[4].parse::<f64>().expect("Failed to parse"))),
+            "Brownian" => split[4].parse::<f64>().map(|c| MoveType::Brownian(c))
+                                   .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Levy" => Ok(MoveType::Levy),
             _ => {
                 if split.len() == 1{
@@ -231,9 +235,12 @@ impl<T : FromStr + Default + Clone> FromStr for InitType<T>{
                 },
             }
         }
+        else if split.is_empty(){
+            Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput))
+        }
         else{
             match split[1]{
-                "all" => Ok(InitType::<T>::SpecificPosition(split[4].parse::<Position<T>>().expect("Failed to parse"))),
+                "all" if split.len() == 5 => split[4].parse::<Position<T>>().map(|pos| InitType::<T>::SpecificPosition(pos)),
                 "agents" => Ok(InitType::<T>::Uniform),
                 _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             }
diff --git a/src/argument.rs b/src/argument.rs
index a495a8a..337e5cf 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -111,7 +111,7 @@ macro_rules! impl_fn_read_args_from_vec{
                     )*
                 $($var : {
                         let word : &str = iter.next().unwrap().trim();
-                        word.parse().expect("Failed to parse\n")
+                        word.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?
                     },
                     )*
             })
@@ -151,7 +151,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                             }
                             let val_string : &str = &split[1].trim();
-                            val_string.parse().expect("Failed to parse\n")},
+                            val_string.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?},
                     )*
             })
         }
diff --git a/src/system_mod/mod.rs b/src/system_mod/mod.rs
index c0bac70..43a6daa 100644
--- a/src/system_mod/mod.rs
+++ b/src/system_mod/mod.rs
@@ -70,13 +70,13 @@ impl FromStr for SystemType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match split.get(0).copied().unwrap_or(""){
             "Continuous" => {
-                match split[1]{
+                match split.get(1).copied().unwrap_or(""){
                     "Circular" => Ok(SystemType::ContinuousCircular),
                     "Rectangular" => Ok(SystemType::ContinuousRectangular),
                     "Cylindrical" => {
-                        let d = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                        let d = split.get(3).and_then(|x| x.get(3..)).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                         Ok(SystemType::ContinuousCylindrical(d))
                     }
                     _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
@@ -136,11 +136,11 @@ impl FromStr for BoundaryCond{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match split.get(0).copied().unwrap_or(""){
             "Reflective"    => Ok(BoundaryCond::Reflection),
             "Periodic"      => Ok(BoundaryCond::Periodic),
             "Mixed"         => {
-                let x = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let x = split.get(3).and_then(|x| x.get(3..)).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(BoundaryCond::Mixed(x))
             },
             string => {
-- 
2.43.0


From 292ba7d8007f156c35263bb48ffe7601e54b2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 14/36] fix: refuse a position with a coordinate that is not a
 number

---
 src/position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index fba6bb1..35d4269 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -123,8 +123,8 @@ impl<T : FromStr + Default + Clone> FromStr for Position<T>{
                                  .split(|c| c == ',' || c == ':')
                                  .collect();
         let coords: Vec<T> = coords.iter()
-                                     .map(|x| x.parse::<T>().map_or(Default::default(), |v| v))
-                                     .collect();
+                                     .map(|x| x.trim().parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                                     .collect::<Result<Vec<T>, Error>>()?;
         return Ok(Position::<T>::new(coords));
     }
 }
-- 
2.43.0


From 6df3dae5e561907c4c16e4a0d4ea44188b11b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 15/36] fix: refuse a configuration line of another field

---
 src/argument.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/argument.rs b/src/argument.rs
index 337e5cf..129637f 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -150,6 +150,9 @@ macro_rules! impl_fn_read_args_from_lines{
                             if split.len() != 2{
                                 return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                             }
+                            if split[0].trim() != stringify!($var){
+                                return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
+                            }
                             let val_string : &str = &split[1].trim();
                             val_string.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?},
                     )*
-- 
2.43.0


From e7a93c8b7ff085f6610844cd626df0ca56d18f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 16/36] fix: refuse the configuration of another type of
 component

---
 src/argument.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/argument.rs b/src/argument.rs
index 129637f..5907c84 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -136,6 +136,17 @@ macro_rules! impl_fn_print_configuration{
 #[macro_export]
 #[allow(unused_macros)]
 macro_rules! impl_fn_read_args_from_lines{
+    ($name:ident; $($type_name:ident, $type_default:expr),*; $($var:ident),*) => {
+        fn read_args_from_lines(reader : &mut Lines<BufReader<File>>) -> Result<$name, Error>{
+            impl_fn_read_args_from_lines!($name, $($var), *);
+
+            let args : $name = read_args_from_lines(reader)?;
+            $(if args.$type_name != $type_default{
+                return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
+            })*
+            Ok(args)
+        }
+    };
     ($name:ident, $($var:ident), *) => {
         fn read_args_from_lines(reader : &mut Lines<BufReader<File>>) -> Result<$name, Error>{
             Ok($name{
@@ -184,7 +195,7 @@ macro_rules! impl_argument_trait{
 
             impl_fn_read_args_from_vec!($arg_name $(,$type_name, $type_default)*; $($var), *);
 
-            impl_fn_read_args_from_lines!($arg_name $(, $type_name)* $(,$var)*);
+            impl_fn_read_args_from_lines!($arg_name; $($type_name, $type_default),*; $($type_name,)* $($var),*);
         }
 
         // impl Display for $struct_name{
-- 
2.43.0


From 04c0cc46584e66254df86ed38415efa8fce680b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 17/36] fix: count a sample at the upper end of the range in
 the last bin

---
 src/analysis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index b23c025..d736d25 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -226,7 +226,7 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt - self.min_time) / self.bin_size).floor() as usize);
+                return Some((((fpt - self.min_time) / self.bin_size).floor() as usize).min(self.num_bin.saturating_sub(1)));
             }
         }
 
@@ -236,7 +236,7 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize);
+                return Some((((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize).min(self.num_lbin.saturating_sub(1)));
             }
         }
     }
-- 
2.43.0


From 5f1c7297ad04de18dae4b85156db4cc0d670574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 18/36] fix: export every bin that holds samples

---
 src/analysis.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index d736d25..ff374a6 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -454,7 +454,7 @@ impl Analysis for TimeAnalysis{
         let mut time = self.min_time - bin_size / 2f64;
         for (i, &x) in self.hist.iter().enumerate(){
             time += bin_size;
-            if x.abs() < 1e-15{
+            if self.count[i] == 0{
                 continue;
             }
             let n = self.count[i];
@@ -470,7 +470,7 @@ impl Analysis for TimeAnalysis{
 
         for (i, &x) in self.lhist.iter().enumerate(){
             time *= r;
-            if x.abs() < 1e-15{
+            if self.lcount[i] == 0{
                 continue;
             }
             let n = self.lcount[i];
@@ -785,7 +785,7 @@ impl Analysis for TimeVecAnalysis{
         let mut time = self.min_time + bin_size / 2f64;
         let mut i : usize = 0;
 
-        while time <= self.max_time{
+        while i < self.num_bin{
             let mut string = String::new();
             let mut check = false;
 
@@ -794,7 +794,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.count[idx][i];
                 let x = self.hist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -816,7 +816,7 @@ impl Analysis for TimeVecAnalysis{
         let mut time = self.min_time * lbin_size.sqrt();
         let mut i : usize = 0;
 
-        while time <= self.max_time{
+        while i < self.num_lbin{
             let mut string = String::new();
             let mut check = false;
 
@@ -825,7 +825,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.lcount[idx][i];
                 let x = self.lhist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -1185,13 +1185,13 @@ impl Analysis for ProcessAnalysis{
         let mut time = self.min_time + bin_size / 2f64;
         let mut i : usize = 0;
 
-        while time <= self.max_time{
+        while i < self.num_bin{
 
             let n = self.count[i];
             let x = self.mean[i];
             let dx = self.stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
@@ -1207,12 +1207,12 @@ impl Analysis for ProcessAnalysis{
         let mut time = self.min_time * lbin_size.sqrt();
         let mut i : usize = 0;
 
-        while time <= self.max_time{
+        while i < self.num_lbin{
             let n = self.lcount[i];
             let x = self.log_mean[i];
             let dx = self.log_stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
-- 
2.43.0


From 1c0923324565c1b2ef5844f58b95c69c43936c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 19/36] fix: keep the deviation of nearly equal samples a
 number

---
 src/analysis.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index ff374a6..f5dc865 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -403,7 +403,7 @@ impl Var1 for TimeAnalysis{
         let en : f64= self.ensemble as f64;
 
         self.mean = self.mean / en;
-        self.stddev = ((self.stddev / en) - self.mean.powi(2)).sqrt();
+        self.stddev = ((self.stddev / en) - self.mean.powi(2)).max(0f64).sqrt();
 
         let d_bin : f64 = en * (self.bin_size as f64);
         let lbin : f64 = self.lbin_size;
@@ -726,7 +726,7 @@ impl VarN for TimeVecAnalysis{
 
         for idx in 0..self.num_var{
             self.means[idx] = self.means[idx] / en;
-            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).sqrt();
+            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).max(0f64).sqrt();
 
             let mut d_lbin : f64 = self.min_time * en * (lbin - 1f64);
 
@@ -1124,14 +1124,14 @@ impl VarTime for ProcessAnalysis{
         let en = self.tot_point as f64;
 
         self.long_term_mean = self.long_term_mean / en;
-        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).sqrt();
+        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).max(0f64).sqrt();
 
         let count = &self.count;
         let mean = &mut self.mean;
         let stddev = &mut self.stddev;
         for (i, &x) in count.iter().enumerate(){
             mean[i] = mean[i] / (x as f64);
-            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).sqrt();
+            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).max(0f64).sqrt();
         }
 
         let lcount = &self.lcount;
@@ -1139,7 +1139,7 @@ impl VarTime for ProcessAnalysis{
         let log_stddev = &mut self.log_stddev;
         for (i, &x) in lcount.iter().enumerate(){
             log_mean[i] = log_mean[i] / (x as f64);
-            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).sqrt();
+            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).max(0f64).sqrt();
         }
     }
 }
-- 
2.43.0


From 2ed345606b4d458a804f0533393e405c04f9d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 20/36] fix: clear everything an analysis has accumulated

---
 src/analysis.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index f5dc865..b164e0a 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -429,6 +429,8 @@ impl Analysis for TimeAnalysis{
         self.mean = 0f64;
         self.stddev = 0f64;
         self.ensemble = 0usize;
+        self.hist = vec![0.0f64; self.num_bin];
+        self.lhist = vec![0.0f64; self.num_lbin];
         self.count = vec![0; self.num_bin];
         self.lcount = vec![0; self.num_lbin];
     }
@@ -755,6 +757,8 @@ impl Analysis for TimeVecAnalysis{
         self.stddevs = vec![0f64; self.num_var];
         self.ensemble = 0;
 
+        self.hist = vec![vec![0.0f64; self.num_bin]; self.num_var];
+        self.lhist = vec![vec![0.0f64; self.num_lbin]; self.num_var];
         self.count = vec![vec![0; self.num_bin]; self.num_var];
         self.lcount = vec![vec![0; self.num_lbin]; self.num_var];
     }
@@ -1151,6 +1155,7 @@ impl Analysis for ProcessAnalysis{
     fn clear(&mut self){
         self.long_term_mean = 0f64;
         self.long_term_stddev = 0f64;
+        self.tot_point = 0;
         self.ensemble = 0;
 
         self.mean = vec![0f64; self.num_bin];
-- 
2.43.0


From 29aee2a5ca633c05b9c9d6ab9b05fa60b937bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 21/36] fix: name the summary columns in the order of their
 values

---
 src/analysis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index b164e0a..e8dbcd2 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -442,7 +442,7 @@ impl Analysis for TimeAnalysis{
                   bin_size, "Bin size for Linear Histogram",
                   lbin_size, "Bin size for Logarithmic Histogram",
                   output_dir, "Directory for data files");
-    export_form!(export_form, ensemble, mean, stddev);
+    export_form!(export_form, mean, stddev, ensemble);
 
 
     #[allow(dead_code)]
@@ -1174,7 +1174,7 @@ impl Analysis for ProcessAnalysis{
                   bin_size, "Bin size for Linear Histogram",
                   lbin_size, "Bin size for Logarithmic Histogram",
                   output_dir, "Directory for data files");
-    export_form!(export_form, ensemble, long_term_mean, long_term_stddev);
+    export_form!(export_form, long_term_mean, long_term_stddev, ensemble);
 
     #[allow(dead_code)]
     fn export_mean_stddev(&self, prec : usize) -> Result<String, Error>{
-- 
2.43.0


From b631a109c933d44dc409a52f17e3c0a157b24e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 22/36] fix: give no summary row for a configuration without
 samples

---
 src/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index e8dbcd2..5e39c17 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -601,6 +601,9 @@ impl Analysis for TimeAnalysis{
         }
 
         for (dataset, analysis) in hashmap.iter_mut(){
+            if analysis.ensemble == 0{
+                continue;
+            }
             analysis.draw();
 
             let hist_filename = dataset.export_file_removed_idx(prefix);
-- 
2.43.0


From 8e7d7f0e105c92302175d60e2217e7b3512857af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 23/36] fix: number of arguments of the analysis of time
 vectors

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 5e39c17..e2a535e 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -752,7 +752,7 @@ impl VarN for TimeVecAnalysis{
 }
 
 impl Analysis for TimeVecAnalysis{
-    const NUM_ARGS : usize = 4;
+    const NUM_ARGS : usize = 5;
 
     // Clear data
     fn clear(&mut self){
-- 
2.43.0


From 64e5fcdf821e6a8d8853611cc5668df68a3ae3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 24/36] fix: skip the leading arguments in an analysis with
 given arguments

---
 src/setup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setup.rs b/src/setup.rs
index a451711..1f3e928 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -103,7 +103,7 @@ macro_rules! setup_simulation_fixed{
         define_total_num_args!($($struct_type),*);
 
         if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
-                return <$analysis>::analyze::<$dataset>(&$args, WIDTH, $prefix);
+                return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
         else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
-- 
2.43.0


From 8cf80c84a0e13bb6558abe9ef2eb19998a859d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 25/36] fix: tell apart configurations that differ by any
 amount

---
 src/macros.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 9f05ce1..41254c5 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -136,14 +136,7 @@ macro_rules! derive_hash{
         impl Hash for $name{
             fn hash<H: Hasher>(&self, state: &mut H){
                 $(
-                    let mut c = self.$var as f64 * 1e10;
-                    let mut b : f64 = 0.0;
-
-                    if c < 0.0 {
-                        c = - c;
-                        b = 1.0;
-                    }
-                    ((c + b) as usize).hash(state);
+                    (self.$var as f64 + 0.0).to_bits().hash(state);
                     )*
             }
         }
-- 
2.43.0


From a4bd185cecb9a0104d2e3347e6814564821381b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 26/36] fix: field names of cylinder and merging agent in the
 simulation macro

---
 moledyn_proc/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moledyn_proc/src/lib.rs b/moledyn_proc/src/lib.rs
index 1ec717d..d02d7e6 100644
--- a/moledyn_proc/src/lib.rs
+++ b/moledyn_proc/src/lib.rs
@@ -75,7 +75,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContCylindricalSystem" => {
             let tokens = proc_quote::quote!{
-                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [radius, f64, length, f64, dim, usize]
+                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]
             };
             tokens.into()
         },
@@ -103,7 +103,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContPassiveMergeAgent" => {
             let tokens = proc_quote::quote!{
-                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [radius, f64, alpha, f64, num_agent, usize]
+                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]
             };
             tokens.into()
         },
-- 
2.43.0


From 4228bcdd964e490d8ab21e521334ed235bc79b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 27/36] fix: refuse malformed time types, interaction types and
 pairs instead of panicking

---
 src/agent_mod/types.rs | 6 ++++++
 src/analysis.rs        | 4 ++--
 src/time_mod/mod.rs    | 7 ++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/agent_mod/types.rs b/src/agent_mod/types.rs
index 2d3d15d..a05f14b 100644
--- a/src/agent_mod/types.rs
+++ b/src/agent_mod/types.rs
@@ -302,9 +302,15 @@ impl FromStr for InteractType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
+        if split.is_empty(){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
         if split.len() == 1{
             let split : Vec<&str> = split[0].split(&['(', ')'][..]).collect();
             let name = split[0];
+            if (name == "Exponential" || name == "LennardJones") && split.len() < 2{
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
             match name{
                 "Exponential" => {
                     let args : Vec<&str> = split[1].split(',').collect();
diff --git a/src/analysis.rs b/src/analysis.rs
index e2a535e..f1d8b35 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -1000,8 +1000,8 @@ impl<T> FromStr for Pair<T>
     fn from_str(s : &str) -> Result<Self, Self::Err>{
         let mut trim = s.to_string();
         trim.retain(|c| c != '(' && c != ')');
-        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)).unwrap())
-                           .collect();
+        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                           .collect::<Result<Vec<T>, Error>>()?;
         if splitted.len() != 2{
             return Err(Error::make_error_syntax(ErrorCode::InvalidNumberOfArguments));
         }
diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index d8e90f8..023db94 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -62,8 +62,13 @@ impl FromStr for TimeType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
+        if split.is_empty() || (split[0] == "Constant" && split.len() != 6)
+                || (split[0] == "Exponential" && split.len() != 15){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
         match split[0]{
-            "Constant" => Ok(TimeType::Constant(split[5].parse::<f64>().expect("Failed to parse"))),
+            "Constant" => split[5].parse::<f64>().map(|c| TimeType::Constant(c))
+                                   .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Exponential" => {
                 let dt_min = split[5].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 let dt_max = split[7].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-- 
2.43.0


From 835f6dfbe58207a674a67fa283beb4f6d6f5110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 28/36] fix: refuse unusable bins and bin words before an
 analysis starts

---
 src/analysis.rs | 55 ++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index f1d8b35..9ac0dd1 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -164,6 +164,9 @@ macro_rules! construct_trait_bin {
             else{
                 time = min_time;
             }
+            if !(max_time > time && bin_size > 0f64 && lbin_size > 1f64){
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
 
             let num_bin : usize = ((max_time - time) / bin_size + 0.5f64).ceil() as usize;
             let num_lbin : usize = ((max_time / time).log2() / lbin_size.log2() + 0.5f64).ceil() as usize;
@@ -214,6 +217,9 @@ macro_rules! construct_trait_bin {
             else{
                 time = min_time;
             }
+            if !(max_time > time){
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
 
             let bin_size : f64 = (max_time - time) / (num_bin as f64);
             let lbin_size : f64 = (max_time / time).powf(1f64 / (num_bin as f64));
@@ -513,9 +519,9 @@ impl Analysis for TimeAnalysis{
         match args.len(){
             4 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -524,11 +530,12 @@ impl Analysis for TimeAnalysis{
             },
             5 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
+                Self::default().update_from_bin_size(min_time, max_time, bin_size, lbin_size)?;
             },
             _ => {
                 return Err(Error::make_error_syntax(ErrorCode::InvalidNumberOfArguments))
@@ -882,10 +889,10 @@ impl Analysis for TimeVecAnalysis{
         match args.len(){
             5 => {
                 let mut idx : usize = 0;
-                num_var  = args[idx].parse().unwrap();      idx+=1;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                num_var  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -894,12 +901,13 @@ impl Analysis for TimeVecAnalysis{
             },
             6 => {
                 let mut idx : usize = 0;
-                num_var  = args[idx].parse().unwrap();      idx+=1;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                num_var  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
+                Self::default().update_from_bin_size(min_time, max_time, bin_size, lbin_size)?;
             },
             _ => {
                 return Err(Error::make_error_syntax(ErrorCode::InvalidNumberOfArguments))
@@ -1264,9 +1272,9 @@ impl Analysis for ProcessAnalysis{
         match args.len(){
             4 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                num_bin  = args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                num_bin  = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
 
                 let bin_info =  Self::convert_num_bin_to_bin_size(min_time, max_time, num_bin)?;
@@ -1275,11 +1283,12 @@ impl Analysis for ProcessAnalysis{
             },
             5 => {
                 let mut idx : usize = 0;
-                min_time = args[idx].parse().unwrap();      idx+=1;
-                max_time = args[idx].parse().unwrap();      idx+=1;
-                bin_size = args[idx].parse().unwrap();      idx+=1;
-                lbin_size= args[idx].parse().unwrap();      idx+=1;
+                min_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                max_time = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                bin_size = args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
+                lbin_size= args[idx].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;      idx+=1;
                 data_dir = args[idx].clone();
+                Self::default().update_from_bin_size(min_time, max_time, bin_size, lbin_size)?;
             },
             _ => {
                 return Err(Error::make_error_syntax(ErrorCode::InvalidNumberOfArguments))
-- 
2.43.0


From 37e1a0646692a7c2d3b9b52f888c96b845f46a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 29/36] fix: refuse a displacement of another dimension in the
 exact and first order reflection

---
 src/system_mod/cont_circ.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index a70f5eb..9fce449 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -178,6 +178,9 @@ pub fn check_bc_exact(sys: ContCircSystem, pos: &mut Position<f64>, dp: &mut Pos
     // pos : initial position of ptl
     // dp : displacement of ptl
 
+    if pos.dim() != sys.dim || dp.dim() != sys.dim{     // 움직이기 전에 dimension부터 확인
+        return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+    }
     pos.mut_add(dp);
     if sys.check_inclusion(pos)?{
         return Ok(());
@@ -206,6 +209,9 @@ pub fn check_bc_first_order(sys: ContCircSystem, pos: &mut Position<f64>, dp: &m
     // 위의 정확한 계산에서 dp가 작고, pos이 경계에 가깝단 조건에서 first order만 남긴 결과
     // 비례로 줄여들어오는 것보다 오히려 더 안좋다.
 
+    if pos.dim() != sys.dim || dp.dim() != sys.dim{     // 움직이기 전에 dimension부터 확인
+        return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
+    }
     pos.mut_add(dp);
     if sys.check_inclusion(pos)?{
         return Ok(());
-- 
2.43.0


From 0262fef77096e97acafe74c415ef111ce9dd2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:46 +0000
Subject: [PATCH 30/36] fix: write a position without coordinates instead of
 panicking

---
 src/position.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 35d4269..dc74a4d 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -356,7 +356,9 @@ impl<T: Display> Display for Position<T>{
     fn fmt(&self, f : &mut Formatter) -> fmt::Result{
         let mut string = String::new();
 
-        write!(&mut string, "{}", self.coordinate[0])?;
+        if let Some(x) = self.coordinate.first(){
+            write!(&mut string, "{}", x)?;
+        }
         for x in self.iter().skip(1){
             write!(&mut string, ",{}", x)?;
         }
@@ -367,7 +369,9 @@ impl<T: Display> Display for Position<T>{
 impl<T: LowerExp> LowerExp for Position<T>{
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result{
         // write!(f, "(")?;
-        LowerExp::fmt(&self.coordinate[0], f)?;
+        if let Some(x) = self.coordinate.first(){
+            LowerExp::fmt(x, f)?;
+        }
         for x in self.iter().skip(1){
             write!(f, ",")?;
             LowerExp::fmt(x, f)?;
-- 
2.43.0


From 5d1deeae682b6d3655ffbc1e231871562e3cd85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 31/36] fix: report a summary that could not be written
 completely

---
 src/analysis.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 9ac0dd1..08d6883 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -489,7 +489,7 @@ impl Analysis for TimeAnalysis{
 
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
         // Export datas
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -618,6 +618,7 @@ impl Analysis for TimeAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -857,7 +858,7 @@ impl Analysis for TimeVecAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -990,6 +991,7 @@ impl Analysis for TimeVecAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -1241,7 +1243,7 @@ impl Analysis for ProcessAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -1375,6 +1377,7 @@ impl Analysis for ProcessAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
-- 
2.43.0


From 66bc061cf09f3a080e6a7162d470f150be602aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 32/36] fix: answer a data line that is no sample with an error

---
 src/analysis.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 08d6883..5ae60f3 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -600,7 +600,7 @@ impl Analysis for TimeAnalysis{
 
             for line in lines{
                 let line = line.map_err(Error::make_error_io)?;
-                let time : f64 = line.trim().parse().unwrap();
+                let time : f64 = line.trim().parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFile))?;
                 analysis.add_ensemble(time);
             }
 
@@ -973,7 +973,12 @@ impl Analysis for TimeVecAnalysis{
 
             for line in lines{
                 let line = line.map_err(Error::make_error_io)?;
-                let values = line.trim().split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect();
+                let values = line.trim().split_whitespace()
+                                 .map(|x| x.parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFile)))
+                                 .collect::<Result<Vec<f64>, Error>>()?;
+                if analysis.num_var != 0 && analysis.num_var != values.len(){
+                    return Err(Error::make_error_syntax(ErrorCode::InvalidFile));
+                }
                 analysis.add_ensemble(values);
             }
 
-- 
2.43.0


From d525bb4308d8542171cc0a5fa63015ffc166ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:03 +0000
Subject: [PATCH 33/36] fix: refuse to add or subtract in place a vector of
 another dimension

---
 src/position.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index dc74a4d..677d645 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -324,6 +324,10 @@ impl<T> Numerics<T> for Position<T>
     }
 
     fn mut_add(&mut self, other: &Self){
+        if self.dim() != other.dim(){
+            panic!("panic! {}", Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         for idx in 0..self.dim(){
             let x = &mut self.coordinate[idx];
             let y = other.coordinate[idx];
@@ -332,6 +336,10 @@ impl<T> Numerics<T> for Position<T>
     }
 
     fn mut_sub(&mut self, other: &Self){
+        if self.dim() != other.dim(){
+            panic!("panic! {}", Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         for idx in 0..self.dim(){
             let x = &mut self.coordinate[idx];
             let y = other.coordinate[idx];
-- 
2.43.0


From d09ec83b4e1e6c0c5984239b86a9427a63706608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 34/36] fix: refuse sizes, steps and limits that are no numbers

---
 src/system_mod/cont_circ.rs  |  4 ++--
 src/system_mod/cont_cubic.rs |  4 ++--
 src/system_mod/cont_cyl.rs   |  6 +++---
 src/time_mod/mod.rs          | 16 ++++++++--------
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 9fce449..1c59bb7 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -16,7 +16,7 @@ impl ContCircSystem{
         // r : radius of system
         // dim : dimension of system
 
-        if r <= 0f64 || dim == 0{
+        if !(r > 0f64) || dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
@@ -39,7 +39,7 @@ impl ContCircSystem{
     #[allow(dead_code)]
     pub fn convert_from(argument : &ContCircSystemArguments) -> Self{
 
-        if argument.sys_size <= 0f64 || argument.dim == 0{
+        if !(argument.sys_size > 0f64) || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index 1f99cda..9f01892 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -16,7 +16,7 @@ impl ContCubicSystem{
         // length : length, width, height of system
         // dim : dimension of system
 
-        if length <= 0f64 || dim ==0 {
+        if !(length > 0f64) || dim ==0 {
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
@@ -45,7 +45,7 @@ impl ContCubicSystem{
     #[allow(dead_code)]
     pub fn convert_from(argument : &ContCubicSystemArguments) -> Self{
 
-        if argument.sys_size <= 0f64 || argument.dim == 0{
+        if !(argument.sys_size > 0f64) || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index b48c83c..cfd73a6 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -17,7 +17,7 @@ impl ContCylindricalSystem{
         // length : length, width, height of system
         // dim : dimension of system
 
-        if cyl_dim > dim || sys_radius <= 0f64 || sys_length <= 0f64 || dim == 0{
+        if cyl_dim > dim || !(sys_radius > 0f64) || !(sys_length > 0f64) || dim == 0{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
 
@@ -53,8 +53,8 @@ impl ContCylindricalSystem{
                 panic!("{:?}", ErrorCode::InvalidArgumentInput);
             },
         };
-        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius <= 0f64 ||
-                argument.sys_length <= 0f64 || argument.dim == 0{
+        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || !(argument.sys_radius > 0f64) ||
+                !(argument.sys_length > 0f64) || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 023db94..38c812d 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -108,7 +108,7 @@ pub struct ConstStep{
 impl ConstStep{
     #[allow(dead_code)]
     pub fn new(dt : f64) -> Result<Self, Error>{
-        if dt < 1e-15{
+        if !(dt >= 1e-15){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         Ok(Self{
@@ -134,7 +134,7 @@ impl TimeIterator for ConstStep{
     }
 
     fn set_tmax(&mut self, tmax : f64) -> Result<(), Error>{
-        if tmax < 0f64{
+        if !(tmax >= 0f64){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         else if tmax < 1e-15{
@@ -178,7 +178,7 @@ impl ConstStep{
     pub fn convert_from(argument : &ConstStepArguments) -> Self{
         let tmax : f64;
 
-        if argument.tmax < 0f64 || argument.dt < 1e-15{
+        if !(argument.tmax >= 0f64) || !(argument.dt >= 1e-15){
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if argument.tmax < 1e-15{
@@ -213,7 +213,7 @@ pub struct ExponentialStep{
 impl ExponentialStep{
     #[allow(dead_code)]
     pub fn new(dt_min : f64, dt_max : f64, length : usize) -> Result<Self, Error>{
-        if dt_min < 1e-15 || dt_min > dt_max || length == 0{
+        if !(dt_min >= 1e-15) || !(dt_min <= dt_max) || length == 0{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
 
@@ -240,7 +240,7 @@ impl ExponentialStep{
 
     #[allow(dead_code)]
     pub fn set_inc(&mut self, inc : f64) -> Result<(), Error>{
-        if inc <= 1f64{
+        if !(inc > 1f64){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         match self.titype{
@@ -289,7 +289,7 @@ impl TimeIterator for ExponentialStep{
     }
 
     fn set_tmax(&mut self, tmax : f64) -> Result<(), Error>{
-        if tmax < 0f64{
+        if !(tmax >= 0f64){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         else if tmax < 1e-15{
@@ -354,8 +354,8 @@ impl ExponentialStep{
         let length : usize = argument.length;
         let mut tmax : f64 = argument.tmax;
 
-        if tmax < 0f64 || dt_min < 1e-15
-            || dt_min > dt_max || length < 10{
+        if !(tmax >= 0f64) || !(dt_min >= 1e-15)
+            || !(dt_min <= dt_max) || length < 10{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if tmax < 1e-15{
-- 
2.43.0


From f6bc5e4b9b4c1b8270ab39e140c036aafdfc3a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 35/36] fix: keep configurations apart whose integers differ
 beyond 2^53

---
 src/macros.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/macros.rs b/src/macros.rs
index 41254c5..3ee3f39 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -137,6 +137,7 @@ macro_rules! derive_hash{
             fn hash<H: Hasher>(&self, state: &mut H){
                 $(
                     (self.$var as f64 + 0.0).to_bits().hash(state);
+                    (self.$var as i128).hash(state);        // integers beyond 2^53 are not distinguished by f64
                     )*
             }
         }
-- 
2.43.0


From a223ca08f6970bce39b01f60438ec1775418504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:27 +0000
Subject: [PATCH 36/36] fix: answer a sample that is not finite with an error

---
 src/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 5ae60f3..78d9c62 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -601,6 +601,9 @@ impl Analysis for TimeAnalysis{
             for line in lines{
                 let line = line.map_err(Error::make_error_io)?;
                 let time : f64 = line.trim().parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFile))?;
+                if !time.is_finite(){
+                    return Err(Error::make_error_syntax(ErrorCode::InvalidFile));
+                }
                 analysis.add_ensemble(time);
             }
 
@@ -976,7 +979,7 @@ impl Analysis for TimeVecAnalysis{
                 let values = line.trim().split_whitespace()
                                  .map(|x| x.parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFile)))
                                  .collect::<Result<Vec<f64>, Error>>()?;
-                if analysis.num_var != 0 && analysis.num_var != values.len(){
+                if values.iter().any(|x| !x.is_finite()) || (analysis.num_var != 0 && analysis.num_var != values.len()){
                     return Err(Error::make_error_syntax(ErrorCode::InvalidFile));
                 }
                 analysis.add_ensemble(values);
@@ -1363,6 +1366,9 @@ impl Analysis for ProcessAnalysis{
                 let splitted : Vec<&str> = line.trim().split_whitespace().collect();
                 for s in splitted{
                     let pair : Pair<f64> = s.parse()?;
+                    if !pair.0.is_finite() || !pair.1.is_finite(){
+                        return Err(Error::make_error_syntax(ErrorCode::InvalidFile));
+                    }
                     analysis.add_pair(pair);
                 }
                 analysis.add_ensemble();
-- 
2.43.0

