From fbbc8fb652874e3ebdb660acf81c4a02e8cf50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 01/25] fix: keep colons in header values when reading a result
 file back

---
 src/argument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argument.rs b/src/argument.rs
index b35d5d4..a495a8a 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -144,7 +144,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 Some(x) => x.map_err(Error::make_error_io)?,
                                 None => {return Err(Error::make_error_syntax(ErrorCode::InvalidFile));}
                             };
-                            let split : Vec<String> = list.split(":")
+                            let split : Vec<String> = list.splitn(2, ":")
                                                           .map(|s| s.to_string())
                                                           .collect();
                             if split.len() != 2{
-- 
2.43.0


From d020183e57632321a448b734e45c13974100ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 02/25] fix: refuse malformed header values with an error
 instead of a panic

---
 src/agent_mod/types.rs | 18 +++++++++++-------
 src/argument.rs        |  2 +-
 src/system_mod/mod.rs  | 12 +++++++-----
 src/time_mod/mod.rs    | 11 ++++++-----
 4 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/agent_mod/types.rs b/src/agent_mod/types.rs
index 3213635..c0e715b 100644
--- a/src/agent_mod/types.rs
+++ b/src/agent_mod/types.rs
@@ -171,8 +171,9 @@ impl FromStr for MoveType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Brownian" => Ok(MoveType::Brownian(split[4].parse::<f64>().expect("Failed to parse"))),
+        match split.get(0).copied().unwrap_or(""){
+            "Brownian" => split.get(4).and_then(|x| x.parse::<f64>().ok()).map(|c| MoveType::Brownian(c))
+                               .ok_or_else(|| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Levy" => Ok(MoveType::Levy),
             _ => {
                 if split.len() == 1{
@@ -232,8 +233,11 @@ impl<T : FromStr + Default + Clone> FromStr for InitType<T>{
             }
         }
         else{
-            match split[1]{
-                "all" => Ok(InitType::<T>::SpecificPosition(split[4].parse::<Position<T>>().expect("Failed to parse"))),
+            match split.get(1).copied().unwrap_or(""){
+                "all" => match split.get(4){
+                    Some(pos) => pos.parse::<Position<T>>().map(|pos| InitType::<T>::SpecificPosition(pos)),
+                    None => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
+                },
                 "agents" => Ok(InitType::<T>::Uniform),
                 _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             }
@@ -300,7 +304,7 @@ impl FromStr for InteractType{
             let name = split[0];
             match name{
                 "Exponential" => {
-                    let args : Vec<&str> = split[1].split(',').collect();
+                    let args : Vec<&str> = split.get(1).copied().unwrap_or("").split(',').collect();
                     if args.len() != 2{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
                     }
@@ -315,7 +319,7 @@ impl FromStr for InteractType{
                     return Ok(InteractType::Coulomb3D);
                 },
                 "LennardJones" => {
-                    let ptl_size : f64 = split[1].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                    let ptl_size : f64 = split.get(1).copied().unwrap_or("").parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                     return Ok(InteractType::LennardJones(ptl_size));
                 }
                 _ => {
@@ -323,7 +327,7 @@ impl FromStr for InteractType{
                 }
             }
         } else {
-            match split[0]{
+            match split.get(0).copied().unwrap_or(""){
                 "Exponential" => {
                     if split.len() != 10{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
diff --git a/src/argument.rs b/src/argument.rs
index a495a8a..4438f4f 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -151,7 +151,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                             }
                             let val_string : &str = &split[1].trim();
-                            val_string.parse().expect("Failed to parse\n")},
+                            val_string.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidFormat))?},
                     )*
             })
         }
diff --git a/src/system_mod/mod.rs b/src/system_mod/mod.rs
index c0bac70..17301ae 100644
--- a/src/system_mod/mod.rs
+++ b/src/system_mod/mod.rs
@@ -70,13 +70,14 @@ impl FromStr for SystemType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match split.get(0).copied().unwrap_or(""){
             "Continuous" => {
-                match split[1]{
+                match split.get(1).copied().unwrap_or(""){
                     "Circular" => Ok(SystemType::ContinuousCircular),
                     "Rectangular" => Ok(SystemType::ContinuousRectangular),
                     "Cylindrical" => {
-                        let d = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                        let d = split.get(3).and_then(|x| x.get(3..)).and_then(|x| x.parse::<usize>().ok())
+                                        .ok_or_else(|| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                         Ok(SystemType::ContinuousCylindrical(d))
                     }
                     _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
@@ -136,11 +137,12 @@ impl FromStr for BoundaryCond{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match split.get(0).copied().unwrap_or(""){
             "Reflective"    => Ok(BoundaryCond::Reflection),
             "Periodic"      => Ok(BoundaryCond::Periodic),
             "Mixed"         => {
-                let x = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let x = split.get(3).and_then(|x| x.get(3..)).and_then(|x| x.parse::<usize>().ok())
+                                .ok_or_else(|| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(BoundaryCond::Mixed(x))
             },
             string => {
diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index ef4d950..dddd7c7 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -62,12 +62,13 @@ impl FromStr for TimeType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Constant" => Ok(TimeType::Constant(split[5].parse::<f64>().expect("Failed to parse"))),
+        match split.get(0).copied().unwrap_or(""){
+            "Constant" => split.get(5).and_then(|x| x.parse::<f64>().ok()).map(|c| TimeType::Constant(c))
+                               .ok_or_else(|| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Exponential" => {
-                let dt_min = split[5].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let dt_max = split[7].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let length = split[13].parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_min = split.get(5).copied().unwrap_or("").parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_max = split.get(7).copied().unwrap_or("").parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let length = split.get(13).copied().unwrap_or("").parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(TimeType::Exponential(dt_min, dt_max, length))
             },
             _ => {
-- 
2.43.0


From fbf12b702a1f7249092b0c74cc0da16117e03a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 03/25] fix: report a failed write of the analysis summary

---
 src/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index b23c025..aa23fe2 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -606,6 +606,7 @@ impl Analysis for TimeAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -975,6 +976,7 @@ impl Analysis for TimeVecAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
@@ -1358,6 +1360,7 @@ impl Analysis for ProcessAnalysis{
             summary.write_fmt(format_args!("{}", dataset.export_data(width)?)).map_err(Error::make_error_io)?;
             analysis.export(width, &mut summary, &summary_dir, &hist_filename)?;
         }
+        summary.flush().map_err(Error::make_error_io)?;
         return Ok(());
     }
 }
-- 
2.43.0


From 48cb26f99472bbf2260a142528c5cbdee86bd486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 04/25] fix: write whole summary rows even if the writer
 accepts them in parts

---
 src/analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index aa23fe2..6c7f5b0 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -481,7 +481,7 @@ impl Analysis for TimeAnalysis{
 
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
         // Export datas
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -844,7 +844,7 @@ impl Analysis for TimeVecAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
@@ -1227,7 +1227,7 @@ impl Analysis for ProcessAnalysis{
     // export data to summary file
     fn export<W: Write>(&self, prec: usize, brief_data : &mut W, export_dir: &String, filename: &String) -> Result<(), Error>{
 
-        brief_data.write(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
+        brief_data.write_all(format!("{}", format_args!("{}\n", self.export_mean_stddev(prec)?)).as_bytes()).map_err(Error::make_error_io)?;
 
         // Export linear histogram
         let linear_filename = format!("{}", format_args!("{}/linear_distribution/{}", export_dir, filename));
-- 
2.43.0


From 3ef67b1871572a14100aa34b611bb2e783257d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 05/25] fix: report data files that could not be opened or read
 instead of skipping them

---
 src/analysis.rs | 3 +++
 src/error.rs    | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index 6c7f5b0..e2fd7e4 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -574,6 +574,7 @@ impl Analysis for TimeAnalysis{
 
             let (dataset, mut lines) : (H, Lines<BufReader<File>>) = match H::from_file(path.clone()){
                 Ok(ds) => ds,
+                Err(err) if err.is_read_failure() => {return Err(err);},
                 Err(_err) => {continue;},
             };
 
@@ -941,6 +942,7 @@ impl Analysis for TimeVecAnalysis{
 
             let (dataset, mut lines) : (H, Lines<BufReader<File>>) = match H::from_file(path.clone()){
                 Ok(ds) => ds,
+                Err(err) if err.is_read_failure() => {return Err(err);},
                 Err(_err) => {continue;},
             };
 
@@ -1321,6 +1323,7 @@ impl Analysis for ProcessAnalysis{
 
             let (dataset, mut lines) : (H, Lines<BufReader<File>>) = match H::from_file(path.clone()){
                 Ok(ds) => ds,
+                Err(err) if err.is_read_failure() => {return Err(err);},
                 Err(_err) => {continue;},
             };
 
diff --git a/src/error.rs b/src/error.rs
index a94afc4..6ef53fc 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,6 +55,13 @@ impl Error{
         self.classify() == Category::Io
     }
 
+    pub fn is_read_failure(&self) -> bool{                              // file이 아니라 읽는 과정에 문제가 있는 경우
+        match *self.err{
+            ErrorCode::Io(ref err) => err.kind() != io::ErrorKind::InvalidData,
+            _ => false,
+        }
+    }
+
     pub fn is_data(&self) -> bool{
         self.classify() == Category::Data
     }
-- 
2.43.0


From 5841e54ce432c3d0bad385b87b39dd7f063020c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 06/25] fix: create the result directory of an analysis
 atomically

---
 src/analysis.rs | 66 ++++++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index e2fd7e4..dd00183 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -537,24 +537,20 @@ impl Analysis for TimeAnalysis{
         let mut summary_dir : String = format!("{}", format_args!("{}/analysis_{}",
                                     data_dir, Utc::today().format("%Y%m%d").to_string()));
 
-        if Path::new(&summary_dir).exists(){
-            let mut i : usize = 2;
-            let mut new : String;
-            loop{
-                new = format!("{}", format_args!("{}_{}", summary_dir, i));
-                if Path::new(&new).exists(){
-                    i += 1;
-                }
-                else{
-                    break;
-                }
+        // create_dir는 이미 존재하면 실패하므로, 동시에 실행된 다른 analysis와 directory를 공유하지 않는다.
+        fs::create_dir_all(&data_dir).map_err(Error::make_error_io)?;
+        let first_dir : String = summary_dir.clone();
+        let mut i : usize = 2;
+        while let Err(err) = fs::create_dir(&summary_dir){
+            if err.kind() != io::ErrorKind::AlreadyExists{
+                return Err(Error::make_error_io(err));
             }
-            summary_dir = new.clone();
+            summary_dir = format!("{}_{}", first_dir, i);
+            i += 1;
         }
 
         let summary_file : String = format!("{}/brief_result.dat", summary_dir);
 
-        fs::create_dir_all(&summary_dir).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/linear_distribution", &summary_dir)).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/logarithmic_distribution", &summary_dir)).map_err(Error::make_error_io)?;
 
@@ -905,24 +901,20 @@ impl Analysis for TimeVecAnalysis{
         let mut summary_dir : String = format!("{}", format_args!("{}/analysis_{}",
                                     data_dir, Utc::today().format("%Y%m%d").to_string()));
 
-        if Path::new(&summary_dir).exists(){
-            let mut i : usize = 2;
-            let mut new : String;
-            loop{
-                new = format!("{}", format_args!("{}_{}", summary_dir, i));
-                if Path::new(&new).exists(){
-                    i += 1;
-                }
-                else{
-                    break;
-                }
+        // create_dir는 이미 존재하면 실패하므로, 동시에 실행된 다른 analysis와 directory를 공유하지 않는다.
+        fs::create_dir_all(&data_dir).map_err(Error::make_error_io)?;
+        let first_dir : String = summary_dir.clone();
+        let mut i : usize = 2;
+        while let Err(err) = fs::create_dir(&summary_dir){
+            if err.kind() != io::ErrorKind::AlreadyExists{
+                return Err(Error::make_error_io(err));
             }
-            summary_dir = new.clone();
+            summary_dir = format!("{}_{}", first_dir, i);
+            i += 1;
         }
 
         let summary_file : String = format!("{}/brief_result.dat", summary_dir);
 
-        fs::create_dir_all(&summary_dir).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/linear_distribution", &summary_dir)).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/logarithmic_distribution", &summary_dir)).map_err(Error::make_error_io)?;
 
@@ -1286,24 +1278,20 @@ impl Analysis for ProcessAnalysis{
         let mut summary_dir : String = format!("{}", format_args!("{}/analysis_{}",
                                     data_dir, Utc::today().format("%Y%m%d").to_string()));
 
-        if Path::new(&summary_dir).exists(){
-            let mut i : usize = 2;
-            let mut new : String;
-            loop{
-                new = format!("{}", format_args!("{}_{}", summary_dir, i));
-                if Path::new(&new).exists(){
-                    i += 1;
-                }
-                else{
-                    break;
-                }
+        // create_dir는 이미 존재하면 실패하므로, 동시에 실행된 다른 analysis와 directory를 공유하지 않는다.
+        fs::create_dir_all(&data_dir).map_err(Error::make_error_io)?;
+        let first_dir : String = summary_dir.clone();
+        let mut i : usize = 2;
+        while let Err(err) = fs::create_dir(&summary_dir){
+            if err.kind() != io::ErrorKind::AlreadyExists{
+                return Err(Error::make_error_io(err));
             }
-            summary_dir = new.clone();
+            summary_dir = format!("{}_{}", first_dir, i);
+            i += 1;
         }
 
         let summary_file : String = format!("{}/brief_data.dat", summary_dir);
 
-        fs::create_dir_all(&summary_dir).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/linear_distribution", &summary_dir)).map_err(Error::make_error_io)?;
         fs::create_dir_all(format!("{}/logarithmic_distribution", &summary_dir)).map_err(Error::make_error_io)?;
 
-- 
2.43.0


From 96d32e1ec2fa14b13f8519f149bfb07145b5e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 07/25] fix: no summary row for a configuration without a
 recorded time

---
 src/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index dd00183..aa7516d 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -596,6 +596,9 @@ impl Analysis for TimeAnalysis{
         }
 
         for (dataset, analysis) in hashmap.iter_mut(){
+            if analysis.ensemble == 0{
+                continue;
+            }
             analysis.draw();
 
             let hist_filename = dataset.export_file_removed_idx(prefix);
-- 
2.43.0


From a3de007f8ac1edef4b25af898a3836b5caefb126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 08/25] fix: no NaN deviation when rounding makes the variance
 negative

---
 src/analysis.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index aa7516d..ed841eb 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -403,7 +403,7 @@ impl Var1 for TimeAnalysis{
         let en : f64= self.ensemble as f64;
 
         self.mean = self.mean / en;
-        self.stddev = ((self.stddev / en) - self.mean.powi(2)).sqrt();
+        self.stddev = ((self.stddev / en) - self.mean.powi(2)).max(0f64).sqrt();
 
         let d_bin : f64 = en * (self.bin_size as f64);
         let lbin : f64 = self.lbin_size;
@@ -727,7 +727,7 @@ impl VarN for TimeVecAnalysis{
 
         for idx in 0..self.num_var{
             self.means[idx] = self.means[idx] / en;
-            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).sqrt();
+            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).max(0f64).sqrt();
 
             let mut d_lbin : f64 = self.min_time * en * (lbin - 1f64);
 
@@ -1123,14 +1123,14 @@ impl VarTime for ProcessAnalysis{
         let en = self.tot_point as f64;
 
         self.long_term_mean = self.long_term_mean / en;
-        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).sqrt();
+        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).max(0f64).sqrt();
 
         let count = &self.count;
         let mean = &mut self.mean;
         let stddev = &mut self.stddev;
         for (i, &x) in count.iter().enumerate(){
             mean[i] = mean[i] / (x as f64);
-            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).sqrt();
+            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).max(0f64).sqrt();
         }
 
         let lcount = &self.lcount;
@@ -1138,7 +1138,7 @@ impl VarTime for ProcessAnalysis{
         let log_stddev = &mut self.log_stddev;
         for (i, &x) in lcount.iter().enumerate(){
             log_mean[i] = log_mean[i] / (x as f64);
-            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).sqrt();
+            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).max(0f64).sqrt();
         }
     }
 }
-- 
2.43.0


From c5383ba5602b58379e36b7d8fe8fd412657b8534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 09/25] fix: export the last bin of a distribution even if its
 centre lies beyond the range

---
 src/analysis.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index ed841eb..daf6648 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -784,9 +784,8 @@ impl Analysis for TimeVecAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_bin{
             let mut string = String::new();
             let mut check = false;
 
@@ -805,8 +804,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time += bin_size;
-            i += 1;
-
         }
         Ok(())
     }
@@ -815,9 +812,8 @@ impl Analysis for TimeVecAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let mut string = String::new();
             let mut check = false;
 
@@ -836,7 +832,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1182,9 +1177,8 @@ impl Analysis for ProcessAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_bin{
 
             let n = self.count[i];
             let x = self.mean[i];
@@ -1195,7 +1189,6 @@ impl Analysis for ProcessAnalysis{
             }
 
             time += bin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1204,9 +1197,8 @@ impl Analysis for ProcessAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
 
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let n = self.lcount[i];
             let x = self.log_mean[i];
             let dx = self.log_stddev[i];
@@ -1216,7 +1208,6 @@ impl Analysis for ProcessAnalysis{
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
-- 
2.43.0


From 45a1d4e98f92b31b52405299553c8266cbaac4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 10/25] fix: export every non-empty bin, also with a tiny
 density or a negative mean

---
 src/analysis.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index daf6648..7fda1ff 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -454,10 +454,10 @@ impl Analysis for TimeAnalysis{
         let mut time = self.min_time - bin_size / 2f64;
         for (i, &x) in self.hist.iter().enumerate(){
             time += bin_size;
-            if x.abs() < 1e-15{
+            let n = self.count[i];
+            if n == 0{
                 continue;
             }
-            let n = self.count[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -470,10 +470,10 @@ impl Analysis for TimeAnalysis{
 
         for (i, &x) in self.lhist.iter().enumerate(){
             time *= r;
-            if x.abs() < 1e-15{
+            let n = self.lcount[i];
+            if n == 0{
                 continue;
             }
-            let n = self.lcount[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -794,7 +794,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.count[idx][i];
                 let x = self.hist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -822,7 +822,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.lcount[idx][i];
                 let x = self.lhist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -1184,7 +1184,7 @@ impl Analysis for ProcessAnalysis{
             let x = self.mean[i];
             let dx = self.stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
@@ -1203,7 +1203,7 @@ impl Analysis for ProcessAnalysis{
             let x = self.log_mean[i];
             let dx = self.log_stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
-- 
2.43.0


From fa5ea5ebc3995901b8fc9c44681d4d9c266e11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 11/25] fix: name the summary columns in the order they are
 written

---
 src/analysis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 7fda1ff..c163ebe 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -440,7 +440,7 @@ impl Analysis for TimeAnalysis{
                   bin_size, "Bin size for Linear Histogram",
                   lbin_size, "Bin size for Logarithmic Histogram",
                   output_dir, "Directory for data files");
-    export_form!(export_form, ensemble, mean, stddev);
+    export_form!(export_form, mean, stddev, ensemble);
 
 
     #[allow(dead_code)]
@@ -1163,7 +1163,7 @@ impl Analysis for ProcessAnalysis{
                   bin_size, "Bin size for Linear Histogram",
                   lbin_size, "Bin size for Logarithmic Histogram",
                   output_dir, "Directory for data files");
-    export_form!(export_form, ensemble, long_term_mean, long_term_stddev);
+    export_form!(export_form, long_term_mean, long_term_stddev, ensemble);
 
     #[allow(dead_code)]
     fn export_mean_stddev(&self, prec : usize) -> Result<String, Error>{
-- 
2.43.0


From e2bfee03275e11c92e9b0bf7d5e7fbb1dd0ed685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 12/25] fix: tell data sets apart by the exact parameter values

---
 src/macros.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 9f05ce1..9ee436c 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -136,14 +136,7 @@ macro_rules! derive_hash{
         impl Hash for $name{
             fn hash<H: Hasher>(&self, state: &mut H){
                 $(
-                    let mut c = self.$var as f64 * 1e10;
-                    let mut b : f64 = 0.0;
-
-                    if c < 0.0 {
-                        c = - c;
-                        b = 1.0;
-                    }
-                    ((c + b) as usize).hash(state);
+                    self.$var.to_string().hash(state);      // 서로 다른 값은 항상 다른 string을 갖는다
                     )*
             }
         }
-- 
2.43.0


From 0b7a12b23e7ad5dcee7e78b5fa79d46e3cab9f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 13/25] fix: count a value at the upper end of the range in the
 last bin

---
 src/analysis.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index c163ebe..77f7560 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -226,7 +226,8 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt - self.min_time) / self.bin_size).floor() as usize);
+                let idx = ((fpt - self.min_time) / self.bin_size).floor() as usize;
+                return Some(idx.min(self.num_bin.saturating_sub(1)));
             }
         }
 
@@ -236,7 +237,8 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize);
+                let idx = ((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize;
+                return Some(idx.min(self.num_lbin.saturating_sub(1)));
             }
         }
     }
-- 
2.43.0


From 2e71c9a3873192c08aba62b095ce48b667d56346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 14/25] fix: draw in-place cylinder positions inside the
 cylinder

---
 src/system_mod/cont_cyl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index ab01119..b9271fc 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -228,11 +228,11 @@ impl SystemCore<f64> for ContCylindricalSystem{
 
             let mut r : f64 = 0f64;
             for i in 0..d{
-                vec[i] *= 2f64 * sys_radius;
+                vec[i] *= sys_radius;
                 r += vec[i] * vec[i];
             }
             for i in d..dim{
-                vec[i] *= 2f64 * sys_length;
+                vec[i] *= sys_length;
             }
 
             r = r.sqrt();
-- 
2.43.0


From c639194a59412c8c7e545faa1981299705ae67b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 15/25] fix: exponential steps of short length must still grow

---
 src/time_mod/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index dddd7c7..803e5b5 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -218,7 +218,7 @@ impl ExponentialStep{
             inc = 1.2f64;
         }
         else if length < 10{
-            inc = (length as f64) / 2f64;
+            inc = ((length as f64) / 2f64).max(1.2f64);
         }
         else{
             inc = 10f64;            // default
@@ -241,8 +241,9 @@ impl ExponentialStep{
         }
         match self.titype{
             TimeType::Exponential(_min, _max, length) =>{
-                if inc * 2f64 > length as f64{
-                    self.inc = (length as f64) / 2f64;
+                let max_inc = ((length as f64) / 2f64).max(1.2f64);       // 1보다 커야 step size가 증가한다
+                if inc > max_inc{
+                    self.inc = max_inc;
                 }
                 else{
                     self.inc = inc;
-- 
2.43.0


From 5e7b1fe2f5e87e49faf39e7b4cb6dc50395e4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 16/25] fix: a refused merge changes nothing

---
 src/agent_mod/cont_passive_merge.rs | 4 ++--
 src/iterator.rs                     | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/agent_mod/cont_passive_merge.rs b/src/agent_mod/cont_passive_merge.rs
index 74157e0..6c6e687 100644
--- a/src/agent_mod/cont_passive_merge.rs
+++ b/src/agent_mod/cont_passive_merge.rs
@@ -225,9 +225,9 @@ impl Passive<f64, f64> for ContPassiveMergeAgent{
 
 impl Merge for ContPassiveMergeAgent{
     fn merge(&mut self, other : &Self) -> Result<(), Error>{
-        self.size = self.size + other.size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + other.size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
@@ -243,9 +243,9 @@ impl Merge for ContPassiveMergeAgent{
     }
 
     fn add_size(&mut self, size : usize) -> Result<(), Error>{
-        self.size = self.size + size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
diff --git a/src/iterator.rs b/src/iterator.rs
index 88c25e9..6d3f74a 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -314,6 +314,9 @@ impl<T> LinkedList<T>{
 impl<M : Merge> LinkedList<M>{
     #[allow(dead_code)]
     pub fn merge(&mut self, idx1 : usize, idx2 : usize) -> Result<(), Error>{
+        if idx1 == idx2 || [idx1, idx2].iter().any(|&idx| self.links.len() <= idx || self.links[idx].alive == false){
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
         let size : usize = self.contents[idx2].size();
         self.contents[idx1].add_size(size)?;
         self.del(idx2)?;
-- 
2.43.0


From 587d884bdec9d5275ca57fd8b549733aa0987078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 17/25] fix: simulation! can be used with cylindrical systems
 and merging agents

---
 moledyn_proc/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moledyn_proc/src/lib.rs b/moledyn_proc/src/lib.rs
index 1ec717d..d02d7e6 100644
--- a/moledyn_proc/src/lib.rs
+++ b/moledyn_proc/src/lib.rs
@@ -75,7 +75,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContCylindricalSystem" => {
             let tokens = proc_quote::quote!{
-                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [radius, f64, length, f64, dim, usize]
+                ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]
             };
             tokens.into()
         },
@@ -103,7 +103,7 @@ fn ident_to_dataset(ident : &proc_macro2::Ident) -> proc_macro2::TokenStream{
         },
         "ContPassiveMergeAgent" => {
             let tokens = proc_quote::quote!{
-                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [radius, f64, alpha, f64, num_agent, usize]
+                ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]
             };
             tokens.into()
         },
-- 
2.43.0


From 60c6878f0115b220e930a953588d2023f1cf2d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 18/25] fix: dispatch to the analysis with its documented
 arguments

---
 src/analysis.rs | 2 +-
 src/setup.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 77f7560..a10c7bd 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -750,7 +750,7 @@ impl VarN for TimeVecAnalysis{
 }
 
 impl Analysis for TimeVecAnalysis{
-    const NUM_ARGS : usize = 4;
+    const NUM_ARGS : usize = 5;
 
     // Clear data
     fn clear(&mut self){
diff --git a/src/setup.rs b/src/setup.rs
index a451711..1f3e928 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -103,7 +103,7 @@ macro_rules! setup_simulation_fixed{
         define_total_num_args!($($struct_type),*);
 
         if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
-                return <$analysis>::analyze::<$dataset>(&$args, WIDTH, $prefix);
+                return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
         else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
-- 
2.43.0


From 15faa345131e070bdeabe62d9abcfee2e2e614db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 19/25] fix: clear the number of points of a process analysis

---
 src/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index a10c7bd..7191275 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -1147,6 +1147,7 @@ impl Analysis for ProcessAnalysis{
     fn clear(&mut self){
         self.long_term_mean = 0f64;
         self.long_term_stddev = 0f64;
+        self.tot_point = 0;
         self.ensemble = 0;
 
         self.mean = vec![0f64; self.num_bin];
-- 
2.43.0


From 26c9c938ada2f7bf0cf5c38eb84805f8a2009dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 20/25] fix: an interrupted last record does not abort the
 analysis

---
 src/analysis.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 7191275..1eb749c 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -588,10 +588,14 @@ impl Analysis for TimeAnalysis{
             };
             lines.next();
 
-            for line in lines{
+            let mut lines = lines.peekable();
+            while let Some(line) = lines.next(){
                 let line = line.map_err(Error::make_error_io)?;
-                let time : f64 = line.trim().parse().unwrap();
-                analysis.add_ensemble(time);
+                match line.trim().parse::<f64>(){
+                    Ok(time) => analysis.add_ensemble(time),
+                    Err(_) if lines.peek().is_none() => break,         // 도중에 종료된 simulation의 마지막 줄
+                    Err(_) => return Err(Error::make_error_syntax(ErrorCode::InvalidFormat)),
+                }
             }
 
             println!("File read end : {:?}", path.clone());
@@ -950,10 +954,15 @@ impl Analysis for TimeVecAnalysis{
             };
             lines.next();
 
-            for line in lines{
+            let mut lines = lines.peekable();
+            while let Some(line) = lines.next(){
                 let line = line.map_err(Error::make_error_io)?;
-                let values = line.trim().split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect();
-                analysis.add_ensemble(values);
+                let values : std::result::Result<Vec<f64>, _> = line.trim().split_whitespace().map(|x| x.parse::<f64>()).collect();
+                match values{
+                    Ok(values) if analysis.num_var == 0 || analysis.num_var == values.len() => analysis.add_ensemble(values),
+                    _ if lines.peek().is_none() => break,              // 도중에 종료된 simulation의 마지막 줄
+                    _ => return Err(Error::make_error_syntax(ErrorCode::InvalidFormat)),
+                }
             }
 
             println!("File read end : {:?}", path.clone());
@@ -989,8 +998,8 @@ impl<T> FromStr for Pair<T>
     fn from_str(s : &str) -> Result<Self, Self::Err>{
         let mut trim = s.to_string();
         trim.retain(|c| c != '(' && c != ')');
-        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)).unwrap())
-                           .collect();
+        let splitted : Vec<T> = trim.split(',').map(|t| t.parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                           .collect::<Result<Vec<T>, Error>>()?;
         if splitted.len() != 2{
             return Err(Error::make_error_syntax(ErrorCode::InvalidNumberOfArguments));
         }
@@ -1324,14 +1333,20 @@ impl Analysis for ProcessAnalysis{
             };
             lines.next();
 
-            for line in lines{
+            let mut lines = lines.peekable();
+            while let Some(line) = lines.next(){
                 let line = line.map_err(Error::make_error_io)?;
-                let splitted : Vec<&str> = line.trim().split_whitespace().collect();
-                for s in splitted{
-                    let pair : Pair<f64> = s.parse()?;
-                    analysis.add_pair(pair);
+                let pairs : Result<Vec<Pair<f64>>, Error> = line.trim().split_whitespace().map(|s| s.parse()).collect();
+                match pairs{
+                    Ok(pairs) => {
+                        for pair in pairs{
+                            analysis.add_pair(pair);
+                        }
+                        analysis.add_ensemble();
+                    },
+                    Err(_) if lines.peek().is_none() => break,         // 도중에 종료된 simulation의 마지막 줄
+                    Err(_) => return Err(Error::make_error_syntax(ErrorCode::InvalidFormat)),
                 }
-                analysis.add_ensemble();
             }
 
             println!("File read end : {:?}", path.clone());
-- 
2.43.0


From e15c9113f206184351973ba126f623dbe8568589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 21/25] fix: separate the column names of the analysis summary

---
 src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 9ee436c..f7a65e3 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -152,7 +152,7 @@ macro_rules! export_form{
         #[allow(dead_code)]
         fn $name(width: usize) -> String{
             let mut string = String::new();
-            $(string.push_str(format!("{}", format_args!("{0:<1$}", stringify!($var), width)).as_str());
+            $(string.push_str(format!("{}", format_args!("{0:<1$}\t", stringify!($var), width)).as_str());
                 )*
             return string;
         }
@@ -166,7 +166,7 @@ macro_rules! pub_export_form{
         #[allow(dead_code)]
         pub fn $name(width: usize) -> String{
             let mut string = String::new();
-            $(string.push_str(format!("{}", format_args!("{0:<1$}", stringify!($var), width)).as_str());
+            $(string.push_str(format!("{}", format_args!("{0:<1$}\t", stringify!($var), width)).as_str());
                 )*
             return string;
         }
-- 
2.43.0


From fd4f12d5be04b637babfc7c8272efc501167cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 22/25] fix: report a failing read of the title or end-marker
 line of a data file

---
 src/analysis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 1eb749c..df6783b 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -58,7 +58,7 @@ macro_rules! construct_dataset {
                 let f = File::open(path).map_err(Error::make_error_io)?;
                 let f = BufReader::new(f);
                 let mut lines = f.lines();
-                lines.next();
+                lines.next().transpose().map_err(Error::make_error_io)?;
 
                 $(
                     let $arg_name = <$struct_type>::read_args_from_lines(&mut lines)?;
@@ -586,7 +586,7 @@ impl Analysis for TimeAnalysis{
                     hashmap.get_mut(&dataset).unwrap()
                 },
             };
-            lines.next();
+            lines.next().transpose().map_err(Error::make_error_io)?;
 
             let mut lines = lines.peekable();
             while let Some(line) = lines.next(){
@@ -952,7 +952,7 @@ impl Analysis for TimeVecAnalysis{
                     hashmap.get_mut(&dataset).unwrap()
                 },
             };
-            lines.next();
+            lines.next().transpose().map_err(Error::make_error_io)?;
 
             let mut lines = lines.peekable();
             while let Some(line) = lines.next(){
@@ -1331,7 +1331,7 @@ impl Analysis for ProcessAnalysis{
                     hashmap.get_mut(&dataset).unwrap()
                 },
             };
-            lines.next();
+            lines.next().transpose().map_err(Error::make_error_io)?;
 
             let mut lines = lines.peekable();
             while let Some(line) = lines.next(){
-- 
2.43.0


From 94a39544ffa71020d838be3a36d87dba2caef4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 23/25] fix: the position outside of a cylinder without axial
 part is outside

---
 src/system_mod/cont_cyl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index b9271fc..6eeda8f 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -248,9 +248,9 @@ impl SystemCore<f64> for ContCylindricalSystem{
         // system 밖의 점을 하나 출력해주는 함수
         // searcher를 새로 정의할 때, 맨 처음 위치를 시스템 밖에 두면 편리해서 생긴 기능
 
-        let sys_length : f64 = self.sys_length;
+        let size : f64 = self.sys_length.max(self.sys_radius);   // rectangular domain이 없는 경우(cyl_dim == dim)에도 밖으로 나가야 함
         let dim : usize = self.dim;
-        return Position::new(vec![2f64 * sys_length; dim]);   // circular domain에선 아니더라도 rectangular domain에서 밖으로 나감
+        return Position::new(vec![2f64 * size; dim]);
     }
 
     fn position_out_of_system_to_vec(&self, vec: &mut Position<f64>) -> Result<(), Error>{
@@ -260,9 +260,9 @@ impl SystemCore<f64> for ContCylindricalSystem{
             return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
         }
 
-        let sys_length : f64 = self.sys_length;
+        let size : f64 = self.sys_length.max(self.sys_radius);
         for x in vec.iter_mut(){
-            *x = 2f64 * sys_length;
+            *x = 2f64 * size;
         }
         Ok(())
     }
-- 
2.43.0


From a604da704d647912738e7555fe4a3a12784c2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 24/25] fix: check_bc_first_order refuses a step its expansion
 is undefined for instead of accepting NaN

---
 src/system_mod/cont_circ.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 8b3f5ef..3988f04 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -223,7 +223,8 @@ pub fn check_bc_first_order(sys: ContCircSystem, pos: &mut Position<f64>, dp: &m
     dp.mut_scalar_mul(1f64 - 2f64 * k * t);
     pos.mut_add(dp);
 
-    if sys.check_inclusion(pos)?{
+    // 중심에서 출발하거나 pos와 dp가 수직이면 위의 전개가 정의되지 않아 NaN이 될 수 있음.
+    if pos.norm().is_finite() && sys.check_inclusion(pos)?{
         return Ok(());
     }
     return Err(Error::make_error_syntax(ErrorCode::TooLargeTimeStep));
-- 
2.43.0


From 4008901d220abfd90a484cd509fffad7082b6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 25/25] fix: check_bc_exact reflects a tangential step from the
 boundary instead of accepting NaN

---
 src/system_mod/cont_circ.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 3988f04..482ece3 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -185,7 +185,8 @@ pub fn check_bc_exact(sys: ContCircSystem, pos: &mut Position<f64>, dp: &mut Pos
     let r = pos.norm();
     let dr = dp.norm();
     let rdr = pos.inner_product(dp)?;
-    let t =  (- rdr + (rdr * rdr + dr * dr * (r0 * r0 - r * r)).sqrt()) / (dr * dr);
+    // 경계에서 접선 방향으로 움직이면 rounding 때문에 근호 안이 음수가 될 수 있음.
+    let t =  (- rdr + (rdr * rdr + dr * dr * (r0 * r0 - r * r)).max(0f64).sqrt()) / (dr * dr);
     let k = (1f64 - t) * (rdr + t * dr * dr) / (r0 * r0);
 
     dp.mut_scalar_mul(1f64 - 2f64 * k * t);
-- 
2.43.0

