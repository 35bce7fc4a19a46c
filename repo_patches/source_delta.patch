From 1d532a3670607528da541de5a5912cd9b8f6fe5b Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 01/21] fix: do not panic on short or non-ASCII sentence type
 fields

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bcf5f6e..7935982 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -196,8 +196,8 @@ impl NmeaParser {
 
         // Recognize GNSS system by talker ID.
         let nav_system = {
-            if &sentence_type[0..1] == "$" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with("$") {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "GN" => Some(gnss::NavigationSystem::Combination),
                     "GP" => Some(gnss::NavigationSystem::Gps),
                     "GL" => Some(gnss::NavigationSystem::Glonass),
@@ -214,14 +214,14 @@ impl NmeaParser {
         if nav_system != None {
             // Shorten the GNSS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("${}", &sentence_type[3..6]);
+                sentence_type = format!("${}", sentence_type.get(3..6).unwrap_or(""));
             }
         }
 
         // Recognize AIS station
         let station = {
-            if &sentence_type[0..1] == "!" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with("!") {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "AB" => Some(ais::Station::BaseStation),
                     "AD" => Some(ais::Station::DependentAisBaseStation),
                     "AI" => Some(ais::Station::MobileStation),
@@ -239,7 +239,7 @@ impl NmeaParser {
         if station != None {
             // Shorten the AIS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("!{}", &sentence_type[3..6]);
+                sentence_type = format!("!{}", sentence_type.get(3..6).unwrap_or(""));
             }
         }
 
-- 
2.43.0


From c7ec078e446a95336de1a42f785d5224562a4746 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 02/21] fix: reject AIS payload characters outside the six-bit
 armoring alphabet

---
 src/lib.rs  | 6 +++---
 src/util.rs | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7935982..a45d2db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -384,7 +384,7 @@ impl NmeaParser {
                 // Try parse the payload
                 let mut bv: Option<BitVec> = None;
                 if fragment_count == 1 {
-                    bv = parse_payload(&payload_string).ok();
+                    bv = Some(parse_payload(&payload_string)?);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
                         let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
@@ -395,7 +395,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key2.into()) {
                                 let mut payload_string_combined = payload_string;
                                 payload_string_combined.push_str(p.as_str());
-                                bv = parse_payload(&payload_string_combined). ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key1.into(), payload_string);
                             }
@@ -403,7 +403,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key1.into()) {
                                 let mut payload_string_combined = p.clone();
                                 payload_string_combined.push_str(payload_string.as_str());
-                                bv = parse_payload(&payload_string_combined).ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key2.into(), payload_string);
                             }
diff --git a/src/util.rs b/src/util.rs
index bbbb3b1..1459e13 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,6 +28,10 @@ pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count
 pub fn parse_payload(payload: &String) -> Result<BitVec, String> {   
     let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
     for c in payload.chars() {
+        match c {
+            '0'..='W' | '`'..='w' => { },
+            _ => { return Err(format!("Invalid character in AIS payload: {:?}", c)); }
+        }
         let mut ci = (c as u8) - 48;
         if ci > 40 {
             ci -= 8;
-- 
2.43.0


From 52bac6680a508f51cb74c54a8bb3f11e4a042280 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 03/21] fix: base station report without a valid UTC time has
 no timestamp instead of panicking

---
 src/ais/vdm_t4.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ais/vdm_t4.rs b/src/ais/vdm_t4.rs
index 2d0748f..e04f8aa 100644
--- a/src/ais/vdm_t4.rs
+++ b/src/ais/vdm_t4.rs
@@ -82,12 +82,13 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 8, 30) as u32
         },
         timestamp: {
-            Some(Utc.ymd(pick_u64(&bv, 38, 14) as i32, 
+            Utc.ymd_opt(pick_u64(&bv, 38, 14) as i32, 
                         pick_u64(&bv, 52, 4) as u32, 
                         pick_u64(&bv, 56, 5) as u32)
-                    .and_hms(pick_u64(&bv, 61, 5) as u32, 
-                             pick_u64(&bv, 66, 6) as u32, 
-                             pick_u64(&bv, 72, 6) as u32))
+               .single()
+               .and_then(|d| d.and_hms_opt(pick_u64(&bv, 61, 5) as u32, 
+                                           pick_u64(&bv, 66, 6) as u32, 
+                                           pick_u64(&bv, 72, 6) as u32))
         },        
         high_position_accuracy: {
             pick_u64(&bv, 78, 1) != 0
-- 
2.43.0


From 741a11b5bcff8eb9ee6ee6063f4233ae6965fff5 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:05 +0000
Subject: [PATCH 04/21] fix: empty, short or out-of-range GNSS times and dates
 are reported as missing instead of panicking

---
 src/util.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 1459e13..8716fd2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -139,10 +139,12 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
 
 /// Parse time field of format HHMMSS and convert it to DateTime<Utc> using the current time.
 pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, String> {
-    if let Some(hour) = hhmmss[0..2].parse::<u32>().ok() {
-        if let Some(minute) = hhmmss[2..4].parse::<u32>().ok() {
-            if let Some(second) = hhmmss[4..6].parse::<u32>().ok() {
-                return Ok(Utc.ymd(now.year(), now.month(), now.day()).and_hms(hour, minute, second))
+    if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
+        if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
+            if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
+                return Utc.ymd(now.year(), now.month(), now.day())
+                          .and_hms_opt(hour, minute, second)
+                          .ok_or(format!("Invalid time format: {}", hhmmss))
             }
         }
     }
@@ -158,8 +160,11 @@ pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>,
                 if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
                     if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
                         if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
-                            return Ok(Utc.ymd(century + year, month, day)
-                                         .and_hms(hour, minute, second))
+                            return Utc.ymd_opt(century + year, month, day)
+                                      .single()
+                                      .and_then(|d| d.and_hms_opt(hour, minute, second))
+                                      .ok_or(format!("Invalid date or time: {} {}", 
+                                                     yymmdd, hhmmss))
                         }
                     }
                 }
-- 
2.43.0


From ebf388a413ac21b139f8f72091f24c383fe61c64 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 05/21] fix: an ETA that is not a valid date and time is
 reported as missing instead of panicking

---
 src/util.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 8716fd2..0c20d53 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -111,16 +111,17 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     if day == 0    { day = now.day(); }
     if hour == 24  { hour = 23; minute = 59; second = 59; }
     if minute == 60  { minute = 59; second = 59; }
-    if second == 60  { second = 59; }
+    if second >= 60  { second = 59; }
     
     // This and next year
-    let this_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-    let next_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
+    let this_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
+                            .and_then(|d| d.and_hms_opt(hour, minute, second));
+    let next_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
+                            .and_then(|d| d.and_hms_opt(hour, minute, second));
 
-    if now <= this_year_eta {
-        Some(DateTime::<Utc>::from_utc(this_year_eta, Utc))
-    } else {
-        Some(DateTime::<Utc>::from_utc(next_year_eta, Utc))
+    match this_year_eta {
+        Some(eta) if now <= eta => Some(DateTime::<Utc>::from_utc(eta, Utc)),
+        _ => next_year_eta.map(|eta| DateTime::<Utc>::from_utc(eta, Utc)),
     }
 }
 
-- 
2.43.0


From 2dfefae35ff01b48590a5e6fe07fb1d0bc06c441 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 06/21] fix: an ETA already passed this year belongs to the
 next year

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 0c20d53..a5ddaa7 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -116,7 +116,7 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     // This and next year
     let this_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
                             .and_then(|d| d.and_hms_opt(hour, minute, second));
-    let next_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
+    let next_year_eta = NaiveDate::from_ymd_opt(now.year() + 1, month, day)
                             .and_then(|d| d.and_hms_opt(hour, minute, second));
 
     match this_year_eta {
-- 
2.43.0


From 9218afc4841db638913ffc5cd4f9ebebcfa405eb Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 07/21] fix: recognise the ETA default 'not available' value

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index a5ddaa7..1a673d5 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -103,7 +103,7 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     let mut minute = pick_u64(bv, index + 4 + 5 + 5, 6) as u32;
     let mut second = pick_u64(bv, index + 4 + 5 + 5 + 6, 6) as u32;
     
-    if month == 0 && day == 0 && hour == 24 && minute == 60 && second == 60 {
+    if month == 0 && day == 0 && hour == 24 && minute == 60 {
         return None;
     }
     
-- 
2.43.0


From dd4516e6e7b157e1da05316d267ecce239c522e8 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:37 +0000
Subject: [PATCH 08/21] fix: reject GSV sentences whose numbering cannot belong
 to a group

---
 src/gnss/gsv.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gnss/gsv.rs b/src/gnss/gsv.rs
index efdc429..153894c 100644
--- a/src/gnss/gsv.rs
+++ b/src/gnss/gsv.rs
@@ -43,8 +43,11 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
     let split: Vec<&str> = sentence.split(',').collect();
 
     let msg_type = split.get(0).unwrap_or(&"");
-    let msg_count = pick_number_field(&split, 1)?.unwrap_or(0);
-    let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);
+    let msg_count: u32 = pick_number_field::<u8>(&split, 1)?.unwrap_or(0).into();
+    let msg_num: u32 = pick_number_field::<u8>(&split, 2)?.unwrap_or(0).into();
+    if msg_num < 1 || msg_num > msg_count {
+        return Err(format!("Invalid GSV sentence number: {}/{}", msg_num, msg_count).into());
+    }
     store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
 
     let mut found_count = 0;
-- 
2.43.0


From e01d2ba7ee9ead5c130fea79ed0b71d07e78566a Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 09/21] fix: a repeated type 24 part does not complete a class
 B static report

---
 src/ais/vdm_t24.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index 23a4bfd..fac2a8c 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -129,12 +129,16 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         }
     };
 
-    // Check whether we can return a complete or incomplete response
-    if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
-        Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?))
-    } else {
-        store.push_vsd(vsd.mmsi, vsd);
-        Ok(ParsedSentence::Incomplete)
+    // Check whether we can return a complete or incomplete response. Only a part A and a part B 
+    // (recognized by the equipment fields) complete each other, a repeated part replaces the old.
+    match store.pull_vsd(vsd.mmsi) {
+        Some(ref vsd2) if vsd2.equipment_model.is_some() != vsd.equipment_model.is_some() => {
+            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))
+        },
+        _ => {
+            store.push_vsd(vsd.mmsi, vsd);
+            Ok(ParsedSentence::Incomplete)
+        }
     }
 }
 
-- 
2.43.0


From 2f4c23e98f04a701bf2504103c9c11b1ae79764d Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 10/21] fix: type 24 part A name is 20 characters, not 120

---
 src/ais/vdm_t24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index fac2a8c..9f614a1 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -47,7 +47,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         },
         name: {
             if part_a {
-                let raw = pick_string(&bv, 40, 120);
+                let raw = pick_string(&bv, 40, 20);
                 match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
             } else {
                 None
-- 
2.43.0


From a46ac792953177ea30983267f65de75baefa4e1d Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 11/21] fix: type 5 static data comes from class A equipment

---
 src/ais/vdm_t5.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index 37fb814..c1b24e9 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -20,7 +20,7 @@ use super::*;
 pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
     return Ok(ParsedSentence::VesselStaticData(VesselStaticData{
         own_vessel:              own_vessel,
-        ais_type:                AisClass::ClassB,
+        ais_type:                AisClass::ClassA,
         mmsi:                    pick_u64(&bv, 8, 30) as u32,
         ais_version_indicator:   pick_u64(&bv, 38, 2) as u8,
         imo_number: {
-- 
2.43.0


From 5c109a60a77b363a87d35b76e1cf8751e6f6a81e Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 12/21] fix: manoeuvre indicator 1 means not engaged in special
 manoeuvre

---
 src/ais/vdm_t1t2t3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 8a68569..aa66a56 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -119,7 +119,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             let raw = pick_u64(&bv, 143, 2);
             match raw {
                 0 => { None },
-                1 => { Some(true) },
+                1 => { Some(false) },
                 2 => { Some(true) },
                 _ => {
                     warn!("Unrecognized Maneuver Indicator value: {}", raw);
-- 
2.43.0


From dc49684753800480988990609769cb50562a4273 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 13/21] fix: scale the AIS rate of turn to 0..708 degrees per
 minute

---
 src/ais/vdm_t1t2t3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index aa66a56..7b00227 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -38,9 +38,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         rot: {
             let raw = pick_i64(&bv, 42, 8);
             if -126 <= raw && raw < 0 {
-                Some(-((-raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(-(-raw as f64 / 4.733).powi(2))
             } else if 0 <= raw && raw <= 126 {
-                Some(((raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some((raw as f64 / 4.733).powi(2))
             } else {
                 None
             }
-- 
2.43.0


From 709e981ab6a9545c5d293f3edc15cf4a7818172a Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 14/21] fix: ship types 8x are tankers and 9x are other ships

---
 src/ais/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index bc0b8aa..e9140ba 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -452,10 +452,10 @@ impl ShipType {
                 ShipType::Cargo
             },
             80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 => {
-                ShipType::Cargo
+                ShipType::Tanker
             },
             90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 => {
-                ShipType::Cargo
+                ShipType::Other
             },
             _ => {
                 warn!("Unexpected ship and cargo type: {}", raw);
-- 
2.43.0


From b59fc5015acc76e68021d9b4d60ddd7412d2aae7 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 15/21] fix: read the type 21 off-position indicator from its
 own bit

---
 src/ais/vdm_t21.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index ddcb097..f1f1054 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -347,7 +347,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 253, 6) as u8
         },
         off_position_indicator: {
-            pick_u64(&bv, 243, 1) != 0
+            pick_u64(&bv, 259, 1) != 0
         },
         regional: {
             pick_u64(&bv, 260, 8) as u8
-- 
2.43.0


From fdb616ae1b40ad79331310c8ce9b9f625391ca77 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 16/21] fix: read the type 18 class B flags from their own bits

---
 src/ais/vdm_t18.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/ais/vdm_t18.rs b/src/ais/vdm_t18.rs
index 3201a2b..76c0254 100644
--- a/src/ais/vdm_t18.rs
+++ b/src/ais/vdm_t18.rs
@@ -73,18 +73,14 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
                 }
             },
         timestamp_seconds: pick_u64(&bv, 133, 6) as u8,
-        class_b_unit_flag: { 
-            None 
-        },
-        class_b_display:    Some(pick_u64(&bv, 141, 1) != 0),
-        class_b_dsc:        Some(pick_u64(&bv, 142, 1) != 0),
-        class_b_band_flag:  Some(pick_u64(&bv, 143, 1) != 0),
-        class_b_msg22_flag: Some(pick_u64(&bv, 144, 1) != 0),
-        class_b_mode_flag:  Some(pick_u64(&bv, 145, 1) != 0),
-        raim_flag:          pick_u64(&bv, 141, 1) != 0,
-        class_b_css_flag: {
-            None
-        },
+        class_b_unit_flag:  Some(pick_u64(&bv, 141, 1) != 0),
+        class_b_display:    Some(pick_u64(&bv, 142, 1) != 0),
+        class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0),
+        class_b_band_flag:  Some(pick_u64(&bv, 144, 1) != 0),
+        class_b_msg22_flag: Some(pick_u64(&bv, 145, 1) != 0),
+        class_b_mode_flag:  Some(pick_u64(&bv, 146, 1) != 0),
+        raim_flag:          pick_u64(&bv, 147, 1) != 0,
+        class_b_css_flag:   Some(pick_u64(&bv, 148, 1) != 0),
         radio_status:            Some(pick_u64(&bv, 149, 19) as u32),
         nav_status:              NavigationStatus::NotDefined,
         rot:                     None,
-- 
2.43.0


From abe8796d2a9bfcd29b8ab1a5cbb44b6415c12b68 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 17/21] fix: recognise the FAA simulator mode

---
 src/gnss/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index 0e6959e..bf2bad5 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -110,6 +110,7 @@ impl FaaMode {
             "D" => Ok(FaaMode::Differential),
             "E" => Ok(FaaMode::Estimated),
             "N" => Ok(FaaMode::NotValid),
+            "S" => Ok(FaaMode::Simulator),
             _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
         }
     }
-- 
2.43.0


From 873c797cbb4a08b035e1394a34ee6d115e445671 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 18/21] fix: read the type 27 GNSS position status from its own
 bit

---
 src/ais/vdm_t27.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t27.rs b/src/ais/vdm_t27.rs
index 6f219f1..ba1791a 100644
--- a/src/ais/vdm_t27.rs
+++ b/src/ais/vdm_t27.rs
@@ -79,7 +79,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         heading_true:               None,
         timestamp_seconds:          0,
         positioning_system_meta:    None,
-        current_gnss_position:      Some(pick_u64(&bv, 62, 1) == 0),
+        current_gnss_position:      Some(pick_u64(&bv, 94, 1) == 0),
         special_manoeuvre:          None,
         raim_flag:                  pick_u64(&bv, 39, 1) != 0,
         class_b_unit_flag:          None,
-- 
2.43.0


From 9ecb137d9cbca3bcd80ca9e607f9f0ce5fcb31ad Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 19/21] fix: keep the space between a type 21 name and its
 extension

---
 src/ais/vdm_t21.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index f1f1054..737f805 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -305,9 +305,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             NavAidType::new(pick_u64(&bv, 38, 5) as u8).ok().unwrap_or(NavAidType::NotSpecified)
         },
         name: {
-            let mut s = pick_string(&bv, 43, 20);
-            s.push_str(&pick_string(&bv, 272, 14));
-            s
+            let s = pick_string(&bv, 43, 20);
+            let extension = pick_string(&bv, 272, 14);
+            if extension.is_empty() { s } else { format!("{:<20}{}", s, extension) }
         },
         high_position_accuracy: {
             pick_u64(&bv, 163, 1) != 0
-- 
2.43.0


From 515bd669ead22d169a4df09a89cd24a2cd2920ca Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:20 +0000
Subject: [PATCH 20/21] fix: print safe water and special mark beacons
 differently from the marks of that name

---
 src/ais/vdm_t21.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index 737f805..afda7e2 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -263,8 +263,8 @@ impl std::fmt::Display for NavAidType {
                 write!(f, "lateral beacon, preferred channel, starboard side") 
             },
             NavAidType::BeaconIsolatedDanger => { write!(f, "isolated danger beacon") },
-            NavAidType::BeaconSafeWater => { write!(f, "safe water") },
-            NavAidType::BeaconSpecialMark => { write!(f, "special mark") },
+            NavAidType::BeaconSafeWater => { write!(f, "safe water beacon") },
+            NavAidType::BeaconSpecialMark => { write!(f, "special mark beacon") },
             NavAidType::CardinalMarkNorth => { write!(f, "cardinal mark, north") },
             NavAidType::CardinalMarkEast => { write!(f, "cardinal mark, east") },
             NavAidType::CardinalMarkSouth => { write!(f, "cardinal mark, south") },
-- 
2.43.0


From a291528baad1b0e6d3aa63c8324a2aea0c60c240 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:20 +0000
Subject: [PATCH 21/21] fix: print the FAA simulator mode as its letter

---
 src/gnss/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index bf2bad5..e4ab990 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -123,7 +123,7 @@ impl std::fmt::Display for FaaMode {
             FaaMode::Differential => { write!(f, "D") }
             FaaMode::Estimated => { write!(f, "E") }
             FaaMode::NotValid => { write!(f, "N") }
-            _ => { write!(f, "?") }
+            FaaMode::Simulator => { write!(f, "S") }
         }
         
     }
-- 
2.43.0

