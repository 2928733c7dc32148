From cd6dd8952a73fb70ac4110000c63f72aa06759d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 001/169] fix: FakeDataStream zero fills past its data when a
 read spans the end of the data

---
 keramics-core/src/fake_data_stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 3d11ec6..35938a2 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -67,8 +67,10 @@ impl DataStream for FakeDataStream {
         while buf_offset < read_size {
             let read_remainder_size: usize = read_size - buf_offset;
 
-            let read_count: usize = if self.current_offset < self.data_size as u64 {
-                let data_offset: usize = self.current_offset as usize;
+            let read_offset: u64 = self.current_offset + buf_offset as u64;
+
+            let read_count: usize = if read_offset < self.data_size as u64 {
+                let data_offset: usize = read_offset as usize;
 
                 let data_remainder_size: usize =
                     min(read_remainder_size, self.data_size - data_offset);
-- 
2.43.0


From 3da603ea4d0267091d5ed3e954063a6432200aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 002/169] fix: ISO-8859-2 and ISO-8859-4 encoders report
 unsupported code points instead of encoding them as 0x1a

---
 keramics-encodings/src/iso8859_2.rs | 6 +++---
 keramics-encodings/src/iso8859_4.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/iso8859_2.rs b/keramics-encodings/src/iso8859_2.rs
index 620a5f4..05762b5 100644
--- a/keramics-encodings/src/iso8859_2.rs
+++ b/keramics-encodings/src/iso8859_2.rs
@@ -288,11 +288,11 @@ impl<'a> EncoderIso8859_2<'a> {
     const BASE_0X02D8: [Option<&'static [u8]>; 8] = [
         Some(&[0xa2]),
         Some(&[0xff]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xb2]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xbd]),
-        Some(&[0x1a]),
+        None,
         None,
     ];
 
diff --git a/keramics-encodings/src/iso8859_4.rs b/keramics-encodings/src/iso8859_4.rs
index f722fcd..5c1ce37 100644
--- a/keramics-encodings/src/iso8859_4.rs
+++ b/keramics-encodings/src/iso8859_4.rs
@@ -303,7 +303,7 @@ impl<'a> EncoderIso8859_4<'a> {
         None,
         Some(&[0xae]),
         Some(&[0xbe]),
-        Some(&[0x1a]),
+        None,
     ];
 
     /// Creates a new encoder.
-- 
2.43.0


From c92ca89b21d7d47e330c096573e694e1ceedb494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 003/169] fix: ASCII and ISO-8859-1 encoders advance past a
 code point they cannot encode

---
 keramics-encodings/src/ascii.rs     | 4 ++--
 keramics-encodings/src/iso8859_1.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/ascii.rs b/keramics-encodings/src/ascii.rs
index ebfbf97..515f167 100644
--- a/keramics-encodings/src/ascii.rs
+++ b/keramics-encodings/src/ascii.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderAscii<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0080 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0080 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
diff --git a/keramics-encodings/src/iso8859_1.rs b/keramics-encodings/src/iso8859_1.rs
index 7ce7497..c9cf61a 100644
--- a/keramics-encodings/src/iso8859_1.rs
+++ b/keramics-encodings/src/iso8859_1.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderIso8859_1<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0100 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0100 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 49ecdf6103f7c27de493ebc1ada60f5578e6047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 004/169] fix: UTF-8 decoder rejects overlong two byte
 sequences and code points beyond U+10FFFF

---
 keramics-encodings/src/utf8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index eb715ab..6f4f6d2 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -51,7 +51,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             }
             None => return None,
         };
-        if (byte_value1 >= 0x80 && byte_value1 < 0xc0) || byte_value1 > 0xf4 {
+        if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
                 byte_value1
@@ -75,6 +75,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 0xe0 => byte_value < 0xa0 || byte_value > 0xbf,
                 0xed => byte_value < 0x80 || byte_value > 0x9f,
                 0xf0 => byte_value < 0x90 || byte_value > 0xbf,
+                0xf4 => byte_value < 0x80 || byte_value > 0x8f,
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
-- 
2.43.0


From bbf663b4515ec41dea96811b666d57bfda9802ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 005/169] fix: UTF-8 decoder advances past bytes it cannot
 decode

---
 keramics-encodings/src/utf8.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index 6f4f6d2..3a910df 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -52,6 +52,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             None => return None,
         };
         if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
+            self.byte_index = byte_index;
+
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
                 byte_value1
@@ -65,6 +67,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                     *byte_value
                 }
                 None => {
+                    self.byte_index = byte_index;
+
                     return Some(Err(keramics_core::error_trace_new!(format!(
                         "Unable to decode UTF-8: 0x{:02x} as Unicode",
                         byte_value1
@@ -79,6 +83,9 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
+                // The unexpected byte is the start of the next sequence.
+                self.byte_index = byte_index - 1;
+
                 return Some(Err(keramics_core::error_trace_new!(format!(
                     "Unable to decode UTF-8: 0x{:02x}, 0x{:02x} as Unicode",
                     byte_value1, byte_value
@@ -96,6 +103,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                     *byte_value
                 }
                 None => {
+                    self.byte_index = byte_index;
+
                     return Some(Err(keramics_core::error_trace_new!(format!(
                         "Unable to decode UTF-8: 0x{:02x}, 0x{:02x} as Unicode",
                         byte_value1, byte_value2
@@ -108,6 +117,9 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
+                // The unexpected byte is the start of the next sequence.
+                self.byte_index = byte_index - 1;
+
                 return Some(Err(keramics_core::error_trace_new!(format!(
                     "Unable to decode UTF-8: 0x{:02x}, 0x{:02x}, 0x{:02x} as Unicode",
                     byte_value1, byte_value2, byte_value
@@ -125,6 +137,8 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                     *byte_value
                 }
                 None => {
+                    self.byte_index = byte_index;
+
                     return Some(Err(keramics_core::error_trace_new!(format!(
                         "Unable to decode UTF-8: 0x{:02x}, 0x{:02x}, 0x{:02x} as Unicode",
                         byte_value1, byte_value2, byte_value3
@@ -132,6 +146,9 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 }
             };
             if byte_value < 0x80 || byte_value > 0xbf {
+                // The unexpected byte is the start of the next sequence.
+                self.byte_index = byte_index - 1;
+
                 return Some(Err(keramics_core::error_trace_new!(format!(
                     "Unable to decode UTF-8: 0x{:02x}, 0x{:02x}, 0x{:02x}, 0x{:02x} as Unicode",
                     byte_value1, byte_value2, byte_value3, byte_value
-- 
2.43.0


From c60eb5a00233472d04b78bc60ffde591ded8f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 006/169] fix: ByteString to_string represents bytes that
 cannot be decoded by the replacement character

---
 keramics-types/src/byte_string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-types/src/byte_string.rs b/keramics-types/src/byte_string.rs
index eea9ce5..d8d42e8 100644
--- a/keramics-types/src/byte_string.rs
+++ b/keramics-types/src/byte_string.rs
@@ -139,7 +139,8 @@ impl ByteString {
                     };
                     string_parts.push(string);
                 }
-                Err(error) => todo!(),
+                // Bytes that cannot be decoded are represented by the replacement character.
+                Err(_) => string_parts.push(char::REPLACEMENT_CHARACTER.to_string()),
             }
         }
         string_parts.join("")
-- 
2.43.0


From 9441b7aef64fb2fa90d85bedea22dbd19cbe0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 007/169] fix: UCS-2 and UTF-16 strings ignore an incomplete
 last element

---
 keramics-types/src/ucs2_string.rs  | 6 +++---
 keramics-types/src/utf16_string.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-types/src/ucs2_string.rs b/keramics-types/src/ucs2_string.rs
index cab4401..2346ae1 100644
--- a/keramics-types/src/ucs2_string.rs
+++ b/keramics-types/src/ucs2_string.rs
@@ -50,7 +50,7 @@ impl Ucs2String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size - (data_size % 2)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_be!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -65,7 +65,7 @@ impl Ucs2String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size - (data_size % 2)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -91,7 +91,7 @@ impl Ucs2String {
     pub fn read_data_le(&mut self, data: &[u8]) {
         let data_size: usize = data.len();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size - (data_size % 2)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
             if value_16bit == 0 {
                 break;
diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 306b23b..c2b3844 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -33,7 +33,7 @@ impl Utf16String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size - (data_size % 2)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_be!(data, data_offset);
             if value_16bit == 0 {
                 break;
@@ -48,7 +48,7 @@ impl Utf16String {
         let data_size: usize = data.len();
         let mut elements: Vec<u16> = Vec::new();
 
-        for data_offset in (0..data_size).step_by(2) {
+        for data_offset in (0..data_size - (data_size % 2)).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
             if value_16bit == 0 {
                 break;
-- 
2.43.0


From 0c4a1bf555702808814a81d07d54b5a88261dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 008/169] fix: UTF-16 string with an unpaired surrogate
 converts to a string

---
 keramics-types/src/utf16_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index c2b3844..dc451bf 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -60,7 +60,7 @@ impl Utf16String {
 
     /// Converts the UTF-16 string to a `String`.
     pub fn to_string(&self) -> String {
-        String::from_utf16(&self.elements).unwrap()
+        String::from_utf16_lossy(&self.elements)
     }
 }
 
-- 
2.43.0


From 2f40333c0a2c4645841ad79de014a606d0efa3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 009/169] fix: UUID from string rejects strings with other
 characters than hexadecimal digits and dashes

---
 keramics-types/src/uuid.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-types/src/uuid.rs b/keramics-types/src/uuid.rs
index 30601bc..faf1ad5 100644
--- a/keramics-types/src/uuid.rs
+++ b/keramics-types/src/uuid.rs
@@ -83,6 +83,12 @@ impl Uuid {
         if string_length != 36 {
             return Err(ParseError::new(format!("Unsupported string length")));
         }
+        if !string
+            .bytes()
+            .all(|byte_value| byte_value == b'-' || byte_value.is_ascii_hexdigit())
+        {
+            return Err(ParseError::new(format!("Unsupported string")));
+        }
         if &string[8..9] != "-"
             || &string[13..14] != "-"
             || &string[18..19] != "-"
-- 
2.43.0


From 375541c932027c3c1f7e1547a58844319e1cb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 010/169] fix: Base64 decode reports data that is too small

---
 keramics-encodings/src/base64.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/base64.rs b/keramics-encodings/src/base64.rs
index b9601da..0aa4335 100644
--- a/keramics-encodings/src/base64.rs
+++ b/keramics-encodings/src/base64.rs
@@ -130,7 +130,14 @@ impl Base64Context {
         let mut data_offset: usize = 0;
 
         while let Some(byte_value) = base64_stream.get_value()? {
-            data[data_offset] = byte_value;
+            match data.get_mut(data_offset) {
+                Some(value) => *value = byte_value,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid data value too small"
+                    ));
+                }
+            }
             data_offset += 1;
         }
         self.data_size = data_offset;
-- 
2.43.0


From a6ed31573d93b1f7d7c33d923fc1fd00becbe086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 011/169] fix: dates before the epoch and beyond the year 9999

---
 keramics-datetime/src/filetime.rs |  2 +-
 keramics-datetime/src/posix.rs    |  4 +-
 keramics-datetime/src/util.rs     | 67 ++++++++++---------------------
 3 files changed, 25 insertions(+), 48 deletions(-)

diff --git a/keramics-datetime/src/filetime.rs b/keramics-datetime/src/filetime.rs
index 59bf610..df389b6 100644
--- a/keramics-datetime/src/filetime.rs
+++ b/keramics-datetime/src/filetime.rs
@@ -57,7 +57,7 @@ impl Filetime {
         let number_of_seconds: u64 = self.timestamp / 10000000;
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(number_of_seconds as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:07}",
             year, month, day_of_month, hours, minutes, seconds, fraction
diff --git a/keramics-datetime/src/posix.rs b/keramics-datetime/src/posix.rs
index a32f7cc..3d1e8c0 100644
--- a/keramics-datetime/src/posix.rs
+++ b/keramics-datetime/src/posix.rs
@@ -60,7 +60,7 @@ impl PosixTime32 {
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(self.timestamp as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year, month, day_of_month, hours, minutes, seconds
@@ -103,7 +103,7 @@ impl PosixTime64Ns {
     /// Retrieves an ISO 8601 string representation of the timestamp.
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) = get_time_values(self.timestamp);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}",
             year, month, day_of_month, hours, minutes, seconds, self.fraction
diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 7aeb6a5..a79fe5d 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -100,34 +100,28 @@ fn get_days_in_century(year: i16) -> i32 {
     }
 }
 
+/// Number of days in 400 years, after which the Gregorian calendar repeats.
+const DAYS_IN_400_YEARS: i64 = 146097;
+
 /// Retrieves date values.
-pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8) {
-    let before_epoch: bool = number_of_days < 0;
+pub fn get_date_values(number_of_days: i64, epoch: &Epoch) -> (i64, u8, u8) {
+    // Determine the date relative to the start of the 400 year cycle, to also cover dates before
+    // the epoch.
+    let number_of_cycles: i64 = number_of_days.div_euclid(DAYS_IN_400_YEARS);
+    let mut number_of_days: i64 = number_of_days.rem_euclid(DAYS_IN_400_YEARS);
 
     let mut year: i16 = epoch.year;
     let mut month: u8 = epoch.month;
     number_of_days += epoch.day_of_month as i64;
 
-    if before_epoch {
-        month -= 1;
-
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        }
-        number_of_days *= -1;
-    }
     // Align with the start of the year.
     while month > 1 {
         let days_in_month: i64 = get_days_in_month(year, month) as i64;
         if number_of_days < days_in_month {
             break;
         }
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
+        month += 1;
+
         if month > 12 {
             month = 1;
             year += 1;
@@ -141,46 +135,28 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
         if number_of_days < days_in_year {
             break;
         }
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
     }
     let mut days_in_century: i64 = get_days_in_century(year) as i64;
     while number_of_days > days_in_century {
-        if before_epoch {
-            year -= 100;
-        } else {
-            year += 100;
-        }
+        year += 100;
         number_of_days -= days_in_century;
 
         days_in_century = get_days_in_century(year) as i64;
     }
     let mut days_in_year: i64 = get_days_in_year(year) as i64;
     while number_of_days > days_in_year {
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
 
         days_in_year = get_days_in_year(year) as i64;
     }
     let mut days_in_month: i64 = get_days_in_month(year, month) as i64;
     while number_of_days > days_in_month {
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        } else if month > 12 {
+        month += 1;
+
+        if month > 12 {
             month = 1;
             year += 1;
         }
@@ -188,15 +164,16 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
 
         days_in_month = get_days_in_month(year, month) as i64;
     }
-    if before_epoch {
-        let days_in_month: i64 = get_days_in_month(year, month) as i64;
-        number_of_days = days_in_month - number_of_days;
-    } else if number_of_days == 0 {
+    if number_of_days == 0 {
         number_of_days = 31;
         month = 12;
         year -= 1;
     }
-    (year, month, number_of_days as u8)
+    (
+        year as i64 + (number_of_cycles * 400),
+        month,
+        number_of_days as u8,
+    )
 }
 
 /// Retrieves time values.
-- 
2.43.0


From 105d1289bf649fdee7c5a68a6fd8449047f22552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 012/169] fix: signatures with the same pattern at different
 offsets are not equivalent

---
 keramics-sigscan/src/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 061570d..88ffa00 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -102,7 +102,10 @@ impl Signature {
 impl PartialEq for Signature {
     /// Determines if the signature is equivalent to another signature.
     fn eq(&self, other: &Signature) -> bool {
-        self.pattern == other.pattern
+        self.identifier == other.identifier
+            && self.pattern_type == other.pattern_type
+            && self.pattern_offset == other.pattern_offset
+            && self.pattern == other.pattern
     }
 }
 
-- 
2.43.0


From 0352d415feaf395642e0eff3c80e86825497c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 013/169] fix: scanning data smaller than the offset of a
 signature bound to the end

---
 keramics-sigscan/src/signature.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 88ffa00..2c77712 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -64,7 +64,13 @@ impl Signature {
         buffer_size: usize,
     ) -> bool {
         let pattern_offset: u64 = match self.pattern_type {
-            PatternType::BoundToEnd => data_size - self.pattern_offset as u64,
+            PatternType::BoundToEnd => {
+                // The data is too small to contain the pattern.
+                if self.pattern_offset as u64 > data_size {
+                    return false;
+                }
+                data_size - self.pattern_offset as u64
+            }
             PatternType::BoundToStart => self.pattern_offset as u64,
             PatternType::Unbound => data_offset,
         };
-- 
2.43.0


From c4d3ae789665ab79ea61e5eb2a6633d9e4127175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 014/169] fix: unbound signatures are reported at the offset of
 the match

---
 keramics-sigscan/src/scan_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index b8ea4fb..bb61c9e 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -101,7 +101,7 @@ impl<'a> ScanContext<'a> {
                     let pattern_offset: u64 = match signature.pattern_type {
                         PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
                         PatternType::BoundToStart => signature.pattern_offset as u64,
-                        PatternType::Unbound => self.data_offset,
+                        PatternType::Unbound => self.data_offset + buffer_offset as u64,
                     };
                     self.results.insert(pattern_offset, Arc::clone(&signature));
 
-- 
2.43.0


From 5b3865bef1db31e14a62954ea1cb36e46c851212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 015/169] fix: scan for unbound signatures restarts at the root
 of the scan tree

---
 keramics-sigscan/src/scan_context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index bb61c9e..9b6f6a6 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -134,6 +134,9 @@ impl<'a> ScanContext<'a> {
                 break;
             }
             buffer_offset += skip_value;
+
+            // Scan the next offset from the root of the scan tree.
+            scan_tree_node = &scan_tree.root_node;
         }
     }
 
-- 
2.43.0


From 231f69877fd0287312a4b8db3574ce8bbce0c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 016/169] fix: scan for unbound signatures of a single byte

---
 keramics-sigscan/src/scan_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 9b6f6a6..2ff04fa 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -122,7 +122,7 @@ impl<'a> ScanContext<'a> {
                                 _ => scan_tree.skip_table.smallest_pattern_size,
                             };
                         }
-                        skip_value_offset -= 1;
+                        skip_value_offset = skip_value_offset.saturating_sub(1);
 
                         if skip_value_offset <= buffer_offset || skip_value != 0 {
                             break;
-- 
2.43.0


From ac222152751cc058f370d8f3f21244028aee1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 017/169] fix: scan tree build without common byte values at
 the start of the patterns

---
 keramics-sigscan/src/signature_table.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/keramics-sigscan/src/signature_table.rs b/keramics-sigscan/src/signature_table.rs
index fdd2275..0d928fa 100644
--- a/keramics-sigscan/src/signature_table.rs
+++ b/keramics-sigscan/src/signature_table.rs
@@ -11,7 +11,6 @@
  * under the License.
  */
 
-use std::cmp::min;
 use std::collections::BTreeMap;
 use std::sync::Arc;
 
@@ -34,9 +33,6 @@ pub(super) struct SignatureTable {
     /// Byte value groups.
     pub byte_value_groups: BTreeMap<usize, ByteValueGroup>,
 
-    /// Smallest pattern offset.
-    pub smallest_pattern_offset: usize,
-
     /// Signatures.
     pub signatures: Vec<SignatureReference>,
 
@@ -57,7 +53,6 @@ impl SignatureTable {
             mediator: Mediator::current(),
             pattern_type: pattern_type.clone(),
             byte_value_groups: BTreeMap::new(),
-            smallest_pattern_offset: 0,
             signatures: Vec::new(),
             byte_value_weights: PatternWeights::new(),
             occurrence_weights: PatternWeights::new(),
@@ -130,8 +125,8 @@ impl SignatureTable {
             2 => self.get_pattern_offset_by_occurrence_weights(),
             _ => self.get_pattern_offset_by_similarity_weights(),
         };
-        if result.is_none() && self.byte_value_groups.len() > 0 {
-            result = Some(self.smallest_pattern_offset);
+        if result.is_none() {
+            result = self.byte_value_groups.keys().next().copied();
         }
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
@@ -384,8 +379,6 @@ impl SignatureTable {
         match self.byte_value_groups.get_mut(&pattern_offset) {
             Some(byte_value_group) => byte_value_group.insert_signature(byte_value, signature),
             None => {
-                self.smallest_pattern_offset = min(pattern_offset, self.smallest_pattern_offset);
-
                 let mut byte_value_group: ByteValueGroup = ByteValueGroup::new(pattern_offset);
                 byte_value_group.insert_signature(byte_value, signature);
 
-- 
2.43.0


From 6f298ed0f110248fe17cfc4c0c65b304b857b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 018/169] fix: scan tree build with more than one signature
 that matches the same data

---
 keramics-sigscan/src/scan_tree.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/keramics-sigscan/src/scan_tree.rs b/keramics-sigscan/src/scan_tree.rs
index bebe11c..34a8dfa 100644
--- a/keramics-sigscan/src/scan_tree.rs
+++ b/keramics-sigscan/src/scan_tree.rs
@@ -62,6 +62,18 @@ impl ScanTreeNode {
         self.pattern_offset = match signature_table.get_most_significant_pattern_offset() {
             Some(pattern_offset) => pattern_offset,
             None => {
+                // Without a pattern offset left all of the signatures match, in which case the most specific signature is used.
+                if let Some(signature) = signature_table
+                    .signatures
+                    .iter()
+                    .max_by_key(|signature| signature.pattern_size)
+                {
+                    self.scan_objects.insert(
+                        DEFAULT_SCAN_OBJECT,
+                        ScanObject::Signature(Arc::clone(signature)),
+                    );
+                    return Ok(());
+                }
                 return Err(BuildError::new(format!(
                     "Unable to determine most significant pattern offset"
                 )));
-- 
2.43.0


From 5300ccd53c880c27fbc9d82d0e045cdf52103b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 019/169] fix: signed 8-bit integer field in a layout map

---
 keramics-layout-map/src/structure.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 5e10d77..6542786 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -405,9 +405,8 @@ impl StructureLayoutField {
                 }
                 _ => panic!("Unsupported byte order"),
             },
-            DataType::SignedInteger8Bit | DataType::UnsignedInteger8Bit => {
-                quote!(data[#data_offset])
-            }
+            DataType::SignedInteger8Bit => quote!((data[#data_offset] as i8)),
+            DataType::UnsignedInteger8Bit => quote!(data[#data_offset]),
             DataType::SignedInteger16Bit => match byte_order {
                 &ByteOrder::BigEndian => {
                     quote!(keramics_types::bytes_to_i16_be!(data, #data_offset))
-- 
2.43.0


From 979eecd86a0b4ae3786f120577191eb92e469af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 020/169] fix: bit field of 64 bits in a layout map

---
 keramics-layout-map/src/structure.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 6542786..69c36a2 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -667,8 +667,12 @@ impl StructureLayout {
         for bitfield in bitfields_group.bitfields.iter() {
             let field_name: Ident = format_ident!("{}", bitfield.name);
 
-            let bit_mask: usize = (1 << bitfield.number_of_bits) - 1;
-            let bit_mask_literal = Literal::usize_unsuffixed(bit_mask);
+            let bit_mask: u64 = if bitfield.number_of_bits < 64 {
+                (1 << bitfield.number_of_bits) - 1
+            } else {
+                u64::MAX
+            };
+            let bit_mask_literal = Literal::u64_unsuffixed(bit_mask);
             let quote_from_packed_value = if bit_offset == 0 {
                 quote!(#packed_field_name & #bit_mask_literal)
             } else {
-- 
2.43.0


From 8f1f3a292472e14e014a49aa34c247d17021ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 021/169] fix: debug format of empty arrays and arrays with a
 partial last line

---
 keramics-core/src/formatters.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 44ca025..035b3aa 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -15,7 +15,10 @@
 pub fn debug_format_array(array: &Vec<String>) -> String {
     // TODO: pass string for indentation?
     let number_of_values: usize = array.len();
-    let string_value: &String = &array[0];
+    let string_value: &String = match array.first() {
+        Some(string_value) => string_value,
+        None => return String::from("[]"),
+    };
     let mut use_short_hand: bool = true;
 
     for array_value in array.iter() {
@@ -29,7 +32,7 @@ pub fn debug_format_array(array: &Vec<String>) -> String {
     }
     if number_of_values > 16 {
         let mut string_parts: Vec<String> = Vec::new();
-        let last_value_index: usize = number_of_values - 16;
+        let last_value_index: usize = ((number_of_values - 1) / 16) * 16;
         for value_index in (0..last_value_index).step_by(16) {
             string_parts.push(array[value_index..value_index + 16].join(", "));
         }
-- 
2.43.0


From 6a88f7d5eaba6057f4ec2953ee154ab93193e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 022/169] fix: hexdump with a last line of one byte

---
 keramics-core/src/formatters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 035b3aa..fb16e60 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -118,7 +118,7 @@ pub fn format_as_hexdump(data: &[u8], group: bool) -> String {
         }
         data_offset += 1;
     }
-    if data_size > 0 && character_index > 0 {
+    if groups_data_size < data_size {
         character_index += 1;
 
         for index in character_index..16 {
-- 
2.43.0


From ef9994b52f3b822a6af09cae48a756363420f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 023/169] fix: damaged bzip2 data overflows code sizes, run
 lengths and selectors

---
 keramics-compression/src/bzip2.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index db14796..6534279 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -457,6 +457,11 @@ impl Bzip2Context {
                 break;
             }
             if symbol == 0 || symbol == 1 {
+                if number_of_run_length_symbols >= 32 {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid number of run length symbols value out of bounds"
+                    ));
+                }
                 run_length_value |= (symbol as u64) << (number_of_run_length_symbols as u64);
                 number_of_run_length_symbols += 1;
 
@@ -499,7 +504,7 @@ impl Bzip2Context {
             if symbol_index % 50 == 0 {
                 let selector_index: usize = symbol_index / 50;
 
-                if selector_index > number_of_selectors {
+                if selector_index >= number_of_selectors {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid selector index: {} value out of bounds",
                         selector_index
@@ -534,8 +539,12 @@ impl Bzip2Context {
                 let value_32bit: u32 = bitstream.get_value(1);
                 if value_32bit == 0 {
                     code_size += 1;
-                } else {
+                } else if code_size > 1 {
                     code_size -= 1;
+                } else {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid code size value out of bounds"
+                    ));
                 }
             }
             if code_size >= 20 {
@@ -554,11 +563,11 @@ impl Bzip2Context {
                 largest_code_size
             )));
         }
-        let mut check_value: u32 = 1 << largest_code_size;
+        let mut check_value: i64 = 1 << largest_code_size;
 
         for symbol_index in 0..number_of_symbols {
             code_size = code_size_array[symbol_index] as u32;
-            check_value -= 1 << (largest_code_size - code_size);
+            check_value -= 1i64 << (largest_code_size - code_size);
         }
         if check_value != 0 {
             return Err(keramics_core::error_trace_new!(format!(
@@ -673,7 +682,7 @@ impl Bzip2Context {
             // TODO: move to a debug_format_array like function.
             self.mediator
                 .debug_print(format!("    symbols: [0x{:02x}", symbol_stack[0]));
-            for symbol in &symbol_stack[1..symbol_index] {
+            for symbol in symbol_stack[0..symbol_index].iter().skip(1) {
                 self.mediator.debug_print(format!(", 0x{:02x}", symbol));
             }
             self.mediator.debug_print(format!("],\n",));
-- 
2.43.0


From 790625563e67db3fd2fed7d65e0546c37ef0c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 024/169] fix: bzip2 data of more than one block or with blocks
 larger than 100000 bytes

---
 keramics-compression/src/bzip2.rs | 53 +++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index 6534279..dca94ce 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -29,7 +29,7 @@ use super::traits::Bitstream;
 /// Bzip2 data header signature.
 pub(super) const BZIP2_DATA_HEADER_SIGNATURE: [u8; 2] = [0x42, 0x5a]; // BZ
 
-/// Bzip2 block size;
+/// Bzip2 block size of compression level 1.
 pub(super) const BZIP2_BLOCK_SIZE: usize = 100000;
 
 /// Bitstream for bzip2 compressed data.
@@ -149,12 +149,15 @@ impl<'a> Bitstream for Bzip2Bitstream<'a> {
     method(name = "debug_read_data")
 )]
 /// Stream header used by bzip2 compressed data.
-struct Bzip2StreamHeader {}
+struct Bzip2StreamHeader {
+    /// Block size.
+    pub block_size: usize,
+}
 
 impl Bzip2StreamHeader {
     /// Creates a new stream header.
     pub fn new() -> Self {
-        Self {}
+        Self { block_size: 0 }
     }
 
     /// Reads the stream header.
@@ -177,6 +180,7 @@ impl Bzip2StreamHeader {
                 compression_level as char
             )));
         }
+        self.block_size = (compression_level - 0x30) as usize * BZIP2_BLOCK_SIZE;
         Ok(())
     }
 }
@@ -254,6 +258,9 @@ pub struct Bzip2Context {
     /// Mediator.
     mediator: MediatorReference,
 
+    /// Block size.
+    block_size: usize,
+
     /// Uncompressed data size.
     pub uncompressed_data_size: usize,
 }
@@ -263,6 +270,7 @@ impl Bzip2Context {
     pub fn new() -> Self {
         Self {
             mediator: Mediator::current(),
+            block_size: 9 * BZIP2_BLOCK_SIZE,
             uncompressed_data_size: 0,
         }
     }
@@ -296,6 +304,7 @@ impl Bzip2Context {
         data_header.read_data(compressed_data)?;
 
         let mut bitstream: Bzip2Bitstream = Bzip2Bitstream::new(&compressed_data, 4);
+        self.block_size = data_header.block_size;
         self.decompress_bitstream(&mut bitstream, uncompressed_data)?;
 
         Ok(())
@@ -307,7 +316,8 @@ impl Bzip2Context {
         bitstream: &mut Bzip2Bitstream,
         uncompressed_data: &mut [u8],
     ) -> Result<(), ErrorTrace> {
-        let mut block_data: [u8; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut block_data: Vec<u8> = vec![0; self.block_size];
+        let mut combined_checksum: u32 = 0;
         let mut selectors: [u8; 32769] = [0; 32769]; // ( 1 << 15 ) + 1 = 32769
         let mut symbol_stack: [u8; 256] = [0; 256];
         let mut uncompressed_data_offset: usize = 0;
@@ -318,9 +328,15 @@ impl Bzip2Context {
             block_header.read_from_bitstream(bitstream)?;
 
             if block_header.signature == 0x177245385090 {
+                if block_header.checksum != combined_checksum {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 stream checksums",
+                        block_header.checksum, combined_checksum
+                    )));
+                }
                 break;
             }
-            if (block_header.origin_pointer as usize) >= BZIP2_BLOCK_SIZE {
+            if (block_header.origin_pointer as usize) >= self.block_size {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid origin pointer: 0x{:06x} value out of bounds",
                     block_header.origin_pointer
@@ -367,6 +383,8 @@ impl Bzip2Context {
                 number_of_symbols,
                 &mut block_data,
             )?;
+            let block_start_offset: usize = uncompressed_data_offset;
+
             self.reverse_burrows_wheeler_transform(
                 &block_data,
                 block_data_size,
@@ -375,16 +393,17 @@ impl Bzip2Context {
                 &mut uncompressed_data_offset,
                 uncompressed_data_size,
             )?;
-        }
-        let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
-        crc32_context.update(&uncompressed_data[0..uncompressed_data_offset]);
-        let calculated_checksum: u32 = crc32_context.finalize();
+            let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
+            crc32_context.update(&uncompressed_data[block_start_offset..uncompressed_data_offset]);
+            let calculated_checksum: u32 = crc32_context.finalize();
 
-        if block_header.checksum != calculated_checksum {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
-                block_header.checksum, calculated_checksum
-            )));
+            if block_header.checksum != calculated_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
+                    block_header.checksum, calculated_checksum
+                )));
+            }
+            combined_checksum = combined_checksum.rotate_left(1) ^ calculated_checksum;
         }
         self.uncompressed_data_size = uncompressed_data_offset;
 
@@ -431,7 +450,7 @@ impl Bzip2Context {
                     self.mediator
                         .debug_print(format!("    0-byte run-length: {}\n", run_length,));
                 }
-                if (run_length as usize) > BZIP2_BLOCK_SIZE - block_data_offset {
+                if (run_length as usize) > block_data.len() - block_data_offset {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid run length: {} value out of bounds",
                         run_length
@@ -484,7 +503,7 @@ impl Bzip2Context {
                     self.mediator
                         .debug_print(format!("    symbol: {} (MTF: {})\n", symbol, stack_value));
                 }
-                if block_data_offset >= BZIP2_BLOCK_SIZE {
+                if block_data_offset >= block_data.len() {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid block data offset: {} value out of bounds",
                         block_data_offset
@@ -706,7 +725,7 @@ impl Bzip2Context {
         let mut distributions: [usize; 256] = [0; 256];
         let mut last_byte_value: u8 = 0;
         let mut number_of_last_byte_values: u8 = 0;
-        let mut permutations: [usize; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut permutations: Vec<usize> = vec![0; block_data.len()];
 
         for block_data_offset in 0..block_data_size {
             let byte_value: u8 = block_data[block_data_offset];
-- 
2.43.0


From ae23cca0e451a09c4e6f1a6bdf174714b0196662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 025/169] fix: the checksum of zlib compressed data is checked
 at the end of the data

---
 keramics-compression/src/zlib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 5c250cf..1b846b2 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -160,11 +160,12 @@ impl ZlibContext {
 
         bitstream.unread_data();
 
-        if 4 < bitstream.data_size - bitstream.data_offset {
+        if 4 <= bitstream.data_size - bitstream.data_offset {
             let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
 
             let mut adler32_context: Adler32Context = Adler32Context::new(1);
-            adler32_context.update(uncompressed_data);
+            adler32_context
+                .update(&uncompressed_data[0..deflate_context.uncompressed_data_size]);
             let calculated_checksum: u32 = adler32_context.finalize();
 
             if stored_checksum != calculated_checksum {
-- 
2.43.0


From 9efc5f6941ee92c3b615171eb776af044901ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 026/169] fix: debug output of zlib compressed data that is too
 small

---
 keramics-compression/src/zlib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 1b846b2..bcd15aa 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -60,7 +60,7 @@ impl ZlibDataHeader {
         string_parts.push(format!("    compression_level: {},\n", flags >> 6));
 
         if flags & 0x20 != 0 {
-            let preset_dictionary_identifier: u32 = bytes_to_u32_be!(data, 0);
+            let preset_dictionary_identifier: u32 = bytes_to_u32_be!(data, 2);
             string_parts.push(format!(
                 "    preset_dictionary_identifier: {},\n",
                 preset_dictionary_identifier
@@ -139,8 +139,10 @@ impl ZlibContext {
     ) -> Result<(), ErrorTrace> {
         let mut data_header: ZlibDataHeader = ZlibDataHeader::new();
 
+        data_header.read_data(compressed_data)?;
+
         if self.mediator.debug_output {
-            let header_size: usize = if compressed_data[1] & 0x20 == 0 { 2 } else { 6 };
+            let header_size: usize = data_header.header_size;
 
             self.mediator.debug_print(format!(
                 "ZlibDataHeader data of size: {} at offset: 0 (0x00000000)\n",
@@ -151,7 +153,6 @@ impl ZlibContext {
             self.mediator
                 .debug_print(ZlibDataHeader::debug_read_data(compressed_data));
         }
-        data_header.read_data(compressed_data)?;
 
         let mut bitstream: DeflateBitstream =
             DeflateBitstream::new(&compressed_data, data_header.header_size);
-- 
2.43.0


From 9e22eda88c390d583d1be7710762fbd2a0037e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 027/169] fix: DEFLATE block with literals only and no distance
 codes

---
 keramics-compression/src/deflate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index dabcfbe..9c3c606 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -400,7 +400,12 @@ impl DeflateContext {
             ));
         }
         literals_huffman_tree.build(&code_sizes[0..number_of_literal_codes])?;
-        distances_huffman_tree.build(&code_sizes[number_of_literal_codes..number_of_codes])?;
+
+        // Without distance codes the block only contains literals.
+        let distance_code_sizes: &[u8] = &code_sizes[number_of_literal_codes..number_of_codes];
+        if distance_code_sizes.iter().any(|code_size| *code_size != 0) {
+            distances_huffman_tree.build(distance_code_sizes)?;
+        }
 
         Ok(())
     }
-- 
2.43.0


From 59b1c4ed681f3fb69d4c85016eb92f220a10e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 028/169] fix: allow a code size of 20 in a bzip2 Huffman tree

---
 keramics-compression/src/bzip2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index dca94ce..29e927e 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -550,7 +550,7 @@ impl Bzip2Context {
         let mut largest_code_size: u32 = code_size;
 
         for symbol_index in 0..number_of_symbols {
-            while code_size < 20 {
+            while code_size <= 20 {
                 let value_32bit: u32 = bitstream.get_value(1);
                 if value_32bit == 0 {
                     break;
@@ -566,7 +566,7 @@ impl Bzip2Context {
                     ));
                 }
             }
-            if code_size >= 20 {
+            if code_size > 20 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid code size: {} value out of bounds",
                     code_size
-- 
2.43.0


From a5011b8a71d85901ddc56f10b5c4df0c546749e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 029/169] fix: read the LZFSE version 1 frequency table
 relative to its block

---
 keramics-compression/src/lzfse.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index bf9d1da..1c7e7a6 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -922,7 +922,6 @@ impl LzfseContext {
                 .debug_print(format!("LzfseFrequencyTable {{\n"));
             self.mediator.debug_print(format!("    values: [\n"));
         }
-        let mut data_offset: usize = 42;
         for frequency_table_index in 0..360 {
             let frequency_value: u16 = bytes_to_u16_le!(compressed_data, data_offset);
             data_offset += 2;
-- 
2.43.0


From d70d2ae8c433f301628f6d3cb9b52bb2f6e6c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 030/169] fix: refuse LZFSE frequencies that exceed the number
 of states

---
 keramics-compression/src/lzfse.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 1c7e7a6..04533af 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -489,14 +489,14 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
-            sum_of_frequencies += frequency as i16;
-
-            if sum_of_frequencies > number_of_states {
+            if frequency as i32 > (number_of_states - sum_of_frequencies) as i32 {
                 return Err(keramics_core::error_trace_new!(format!(
-                    "Invalid sum of frequencies: {} value out of bounds",
-                    sum_of_frequencies,
+                    "Invalid frequency: {} value out of bounds",
+                    frequency,
                 )));
             }
+            sum_of_frequencies += frequency as i16;
+
             let number_of_bits: u32 = frequency.leading_zeros() - number_of_leading_zeros;
             let base_decoder_weight: i16 =
                 ((2 * number_of_states) >> number_of_bits) - frequency as i16;
@@ -546,14 +546,14 @@ impl LzfseContext {
             if frequency == 0 {
                 continue;
             }
-            sum_of_frequencies += frequency as i16;
-
-            if sum_of_frequencies > number_of_states {
+            if frequency as i32 > (number_of_states - sum_of_frequencies) as i32 {
                 return Err(keramics_core::error_trace_new!(format!(
-                    "Invalid sum of frequencies: {} value out of bounds",
-                    sum_of_frequencies,
+                    "Invalid frequency: {} value out of bounds",
+                    frequency,
                 )));
             }
+            sum_of_frequencies += frequency as i16;
+
             let number_of_bits: u32 = frequency.leading_zeros() - number_of_leading_zeros;
             let base_decoder_weight: i16 =
                 ((2 * number_of_states) >> number_of_bits) - frequency as i16;
-- 
2.43.0


From 00c33b2f009a5d580b335efefcb2f9d813b5b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 031/169] fix: determine where the data of a LZFSE version 2
 block starts from its header size

---
 keramics-compression/src/lzfse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 04533af..2c38f42 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -980,7 +980,8 @@ impl LzfseContext {
                 ));
         }
         block_header.read_data(&compressed_data[data_offset..data_end_offset], decoder)?;
-        if block_header.header_size as usize > compressed_data_size - data_offset {
+        // Note that the header size includes the block marker and uncompressed block size.
+        if block_header.header_size as usize - 8 > compressed_data_size - data_offset {
             return Err(keramics_core::error_trace_new!(
                 "Invalid compressed data value too small"
             ));
@@ -1041,7 +1042,7 @@ impl LzfseContext {
                 self.mediator.debug_print(format!("}}\n"));
             }
         }
-        *compressed_data_offset = data_offset;
+        *compressed_data_offset = data_end_offset;
 
         Ok(())
     }
-- 
2.43.0


From aebd0d7f1cb278adb0a4d4236432587fd1793a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 032/169] fix: refuse a truncated LZFSE compressed frequency
 table

---
 keramics-compression/src/lzfse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 2c38f42..1521f23 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -1016,6 +1016,11 @@ impl LzfseContext {
                 let frequency_value_size: u8 =
                     LZFSE_FREQUENCY_NUMBER_OF_BITS_TABLE[table_index as usize];
 
+                if frequency_value_size as usize > number_of_bits {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid compressed frequency table value too small"
+                    ));
+                }
                 let frequency_value: u16 = match frequency_value_size {
                     8 => (((value_32bit >> 4) & 0x0000000f) + 8) as u16,
                     14 => (((value_32bit >> 4) & 0x000003ff) + 24) as u16,
-- 
2.43.0


From 35ba37b55760fbb623c17d6d5b3e3513fe9e75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 033/169] fix: refuse a LZFSE match without a distance

---
 keramics-compression/src/lzfse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 1521f23..84db0b4 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -1275,6 +1275,9 @@ impl LzfseContext {
                     active_d_value
                 )));
             }
+            if active_d_value == 0 && m_value > 0 {
+                return Err(keramics_core::error_trace_new!("Missing D value"));
+            }
             let mut compression_offset: usize = data_offset - active_d_value as usize;
 
             for _ in 0..m_value {
-- 
2.43.0


From 94e52cc42f4f25bfb52f99a0e3cb50f9285b6035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 034/169] fix: padding around the uncompressed blocks of LZX

---
 keramics-compression/src/lzx.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 81550a2..3bacd35 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -97,13 +97,17 @@ impl<'a> LzxBitstream<'a> {
 
         self.data_offset = data_end_offset;
 
-        // Flush the bits buffer.
-        self.bits = 0;
-        self.number_of_bits = 0;
+        self.flush_bits();
 
         Ok(())
     }
 
+    /// Flushes the internal bits buffer.
+    pub fn flush_bits(&mut self) {
+        self.bits = 0;
+        self.number_of_bits = 0;
+    }
+
     /// Reads input data forwards into the bits buffer in 16-bit little-endian byte order.
     #[inline(always)]
     pub fn read_data(&mut self, number_of_bits: usize) {
@@ -294,6 +298,12 @@ impl LzxContext {
                     )?;
                 }
                 3 => {
+                    // The block header is followed by 1 to 16 bits of padding.
+                    if bitstream.number_of_bits == 0 {
+                        bitstream.read_data(16);
+                    }
+                    bitstream.flush_bits();
+
                     if 12 > bitstream.data_size - bitstream.data_offset {
                         return Err(keramics_core::error_trace_new!(
                             "Invalid compressed data value too small"
@@ -336,6 +346,13 @@ impl LzxContext {
                         uncompressed_data_size,
                     )?;
                     uncompressed_data_offset += uncompressed_block_size;
+
+                    // The uncompressed data is padded to a multiple of 2 bytes.
+                    if uncompressed_block_size % 2 != 0
+                        && bitstream.data_offset < bitstream.data_size
+                    {
+                        bitstream.data_offset += 1;
+                    }
                 }
                 _ => {
                     return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From f51fff62bac011c14e95b7a887fb49c9600ec05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 035/169] fix: LZX block without match size codes

---
 keramics-compression/src/lzx.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 3bacd35..72fd282 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -282,14 +282,22 @@ impl LzxContext {
 
                     self.read_code_sizes(&mut bitstream, &mut match_sizes_code_sizes, 249)?;
 
-                    let mut match_sizes_huffman_tree: HuffmanTree = HuffmanTree::new(249, 16);
-                    match_sizes_huffman_tree.build(&match_sizes_code_sizes)?;
+                    // Note that there are no match size codes when no match is longer than 8 bytes.
+                    let match_sizes_huffman_tree: Option<HuffmanTree> =
+                        if match_sizes_code_sizes.iter().all(|&size| size == 0) {
+                            None
+                        } else {
+                            let mut huffman_tree: HuffmanTree = HuffmanTree::new(249, 16);
+                            huffman_tree.build(&match_sizes_code_sizes)?;
+
+                            Some(huffman_tree)
+                        };
 
                     self.decompress_huffmann_encoded_block(
                         &mut bitstream,
                         block_size,
                         &literals_huffman_tree,
-                        &match_sizes_huffman_tree,
+                        match_sizes_huffman_tree.as_ref(),
                         aligned_offsets_huffman_tree.as_ref(),
                         &mut recent_distances,
                         uncompressed_data,
@@ -412,7 +420,7 @@ impl LzxContext {
         bitstream: &mut LzxBitstream,
         block_size: u32,
         literals_huffman_tree: &HuffmanTree,
-        match_sizes_huffman_tree: &HuffmanTree,
+        match_sizes_huffman_tree: Option<&HuffmanTree>,
         aligned_offsets_huffman_tree: Option<&HuffmanTree>,
         recent_distances: &mut [u32],
         uncompressed_data: &mut [u8],
@@ -443,7 +451,14 @@ impl LzxContext {
                 let mut match_size: u32 = (symbol % 8) as u32;
 
                 if match_size == 7 {
-                    match_size += match_sizes_huffman_tree.decode_symbol(bitstream)? as u32;
+                    match_size += match match_sizes_huffman_tree {
+                        Some(huffman_tree) => huffman_tree.decode_symbol(bitstream)? as u32,
+                        None => {
+                            return Err(keramics_core::error_trace_new!(
+                                "Missing match sizes Huffman tree"
+                            ));
+                        }
+                    };
                 }
                 match_size += 2;
 
-- 
2.43.0


From 1674c31cdb95f064c04e309c14425decb0b860b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 036/169] fix: LZX call instruction translation in the last
 bytes of the data

---
 keramics-compression/src/lzx.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index 72fd282..ab3635a 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -383,14 +383,18 @@ impl LzxContext {
         uncompressed_data: &mut [u8],
         uncompressed_data_size: usize,
     ) -> Result<(), ErrorTrace> {
-        if uncompressed_data_size < 6 || uncompressed_data_size > (i32::MAX as usize) {
+        // Note that the last 10 bytes are not translated.
+        if uncompressed_data_size <= 10 {
+            return Ok(());
+        }
+        if uncompressed_data_size > (i32::MAX as usize) {
             return Err(keramics_core::error_trace_new!(
                 "Invalid uncompressed data size value out of bounds"
             ));
         }
         let mut data_offset: usize = 0;
 
-        while data_offset < uncompressed_data_size - 6 {
+        while data_offset < uncompressed_data_size - 10 {
             if uncompressed_data[data_offset] != 0xe8 {
                 data_offset += 1;
             } else {
-- 
2.43.0


From 62993f3d56fae07fa023b01e0b4b08a2f59917ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 037/169] fix: refuse a LZX match with a distance of 0

---
 keramics-compression/src/lzx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzx.rs b/keramics-compression/src/lzx.rs
index ab3635a..0aa6ca5 100644
--- a/keramics-compression/src/lzx.rs
+++ b/keramics-compression/src/lzx.rs
@@ -520,7 +520,7 @@ impl LzxContext {
                     self.mediator
                         .debug_print(format!("    uncompressed_data_offset: {},\n", data_offset));
                 }
-                if distance as usize > data_offset {
+                if distance == 0 || distance as usize > data_offset {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid distance value exceeds uncompressed data offset"
                     ));
-- 
2.43.0


From e4ba4e2cb7e2a8224f089963dacdc3e765c1ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 038/169] fix: refuse a LZVN match with a distance of 0

---
 keramics-compression/src/lzvn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzvn.rs b/keramics-compression/src/lzvn.rs
index 9c93d77..f24ff2d 100644
--- a/keramics-compression/src/lzvn.rs
+++ b/keramics-compression/src/lzvn.rs
@@ -477,7 +477,7 @@ impl LzvnContext {
                 uncompressed_data_offset = uncompressed_data_end_offset;
             }
             if match_size > 0 {
-                if distance as usize > uncompressed_data_offset {
+                if distance == 0 || distance as usize > uncompressed_data_offset {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid distance value exceeds uncompressed data offset"
                     ));
-- 
2.43.0


From 568a3a2d7b90d2f514bb17e02eb631c56fd27b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 039/169] fix: refuse a LZFSE LZVN block that is smaller than
 its block size

---
 keramics-compression/src/lzfse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 84db0b4..3780950 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -816,6 +816,14 @@ impl LzfseContext {
                             [uncompressed_data_offset..uncompressed_data_end_offset],
                     )?;
 
+                    if self.lzvn_context.uncompressed_data_size != uncompressed_block_size as usize
+                    {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Invalid LZVN uncompressed data size: {} value does not match block size",
+                            self.lzvn_context.uncompressed_data_size
+                        )));
+                    }
+
                     compressed_data_offset = compressed_data_end_offset;
                     uncompressed_data_offset = uncompressed_data_end_offset;
                 }
-- 
2.43.0


From 4e9effe1bcd40d15402afd8761009495ea117010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 040/169] fix: debug output of a truncated LZNT1 uncompressed
 block

---
 keramics-compression/src/lznt1.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-compression/src/lznt1.rs b/keramics-compression/src/lznt1.rs
index 3e60071..6427cac 100644
--- a/keramics-compression/src/lznt1.rs
+++ b/keramics-compression/src/lznt1.rs
@@ -143,6 +143,11 @@ impl Lznt1Context {
                 let uncompressed_data_end_offset: usize =
                     uncompressed_data_offset + block_header.block_size as usize;
 
+                if compressed_data_end_offset > compressed_data_size {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid compressed data value too small"
+                    ));
+                }
                 if self.mediator.debug_output {
                     self.mediator
                         .debug_print(format!("Lznt1Context::decompress {{\n",));
@@ -153,11 +158,6 @@ impl Lznt1Context {
                     );
                     self.mediator.debug_print(format!("}}\n\n"));
                 }
-                if compressed_data_end_offset > compressed_data_size {
-                    return Err(keramics_core::error_trace_new!(
-                        "Invalid compressed data value too small"
-                    ));
-                }
                 if uncompressed_data_end_offset > uncompressed_data_size {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid uncompressed data value too small"
-- 
2.43.0


From 8b0e5c09259977e2838c90aca3c37b79571b46b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 041/169] fix: offset of logical MBR partitions beyond the
 first extended boot record

---
 keramics-formats/src/mbr/partition_entry.rs |  4 ++++
 keramics-formats/src/mbr/volume_system.rs   | 10 +++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/mbr/partition_entry.rs b/keramics-formats/src/mbr/partition_entry.rs
index 59b4a96..4e8db7a 100644
--- a/keramics-formats/src/mbr/partition_entry.rs
+++ b/keramics-formats/src/mbr/partition_entry.rs
@@ -33,6 +33,9 @@ pub struct MbrPartitionEntry {
     /// The partition index.
     pub index: usize,
 
+    /// The offset of the boot record that contains the partition entry.
+    pub boot_record_offset: u64,
+
     /// The partition flags.
     pub flags: u8,
 
@@ -51,6 +54,7 @@ impl MbrPartitionEntry {
     pub fn new() -> Self {
         Self {
             index: 0,
+            boot_record_offset: 0,
             flags: 0,
             partition_type: 0,
             start_address_lba: 0,
diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index 720d932..a4c7f9a 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -76,14 +76,13 @@ impl MbrVolumeSystem {
                         "Unsupported bytes per sector: 0"
                     ));
                 }
-                let mut partition_offset: u64 =
-                    partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64;
+                // Note that the start address of a logical partition is relative to the start of
+                // the extended boot record that contains its partition entry.
+                let partition_offset: u64 = partition_entry.boot_record_offset
+                    + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
                 let partition_size: u64 =
                     partition_entry.number_of_sectors as u64 * self.bytes_per_sector as u64;
 
-                if partition_entry.index >= 4 {
-                    partition_offset += self.first_extended_boot_record_offset;
-                }
                 let mut partition: MbrPartition = MbrPartition::new(
                     partition_entry.index,
                     partition_offset,
@@ -274,6 +273,7 @@ impl MbrVolumeSystem {
                     + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
             } else if partition_entry.partition_type != 0 {
                 partition_entry.index = first_entry_index + entry_index;
+                partition_entry.boot_record_offset = offset;
                 self.partition_entries.push(partition_entry);
             }
             entry_index += 1;
-- 
2.43.0


From c0bfc02c453467efad1bb845a189ad96b4e386e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 042/169] fix: overflow in block numbers of GPT partition
 tables

---
 keramics-formats/src/gpt/volume_system.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index 4800daf..b6c5ade 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -165,8 +165,9 @@ impl GptVolumeSystem {
                 ));
             }
         }
-        let backup_partition_table_offset: u64 =
-            partition_table_header.backup_header_block_number * self.bytes_per_sector as u64;
+        let backup_partition_table_offset: u64 = partition_table_header
+            .backup_header_block_number
+            .saturating_mul(self.bytes_per_sector as u64);
 
         let mut backup_partition_table_header = GptPartitionTableHeader::new();
 
@@ -219,8 +220,9 @@ impl GptVolumeSystem {
         }
         let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0xedb88320, 0);
 
-        let mut entry_data_offset: u64 =
-            partition_table_header.entries_start_block_number * self.bytes_per_sector as u64;
+        let mut entry_data_offset: u64 = partition_table_header
+            .entries_start_block_number
+            .saturating_mul(self.bytes_per_sector as u64);
         let mut entry_data: Vec<u8> = vec![0; partition_table_header.entry_data_size as usize];
 
         for entry_index in 0..partition_table_header.number_of_entries {
@@ -258,7 +260,9 @@ impl GptVolumeSystem {
                         partition_table_header.area_end_block_number,
                     )));
                 }
-                if partition_entry.end_block_number < partition_entry.start_block_number {
+                if partition_entry.end_block_number < partition_entry.start_block_number
+                    || partition_entry.end_block_number >= u64::MAX / self.bytes_per_sector as u64
+                {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Partition entry: {} end block number: {} value out of bounds: {} - {}",
                         entry_index,
-- 
2.43.0


From 0ae79884109d1a1ebcfd1775cb234aa9cc44cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 043/169] fix: inserting smaller and overlapping ranges into
 the block tree

---
 keramics-formats/src/block_tree.rs      | 16 +++----
 keramics-formats/src/block_tree_node.rs | 60 +++++++++++++++++++++----
 2 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/keramics-formats/src/block_tree.rs b/keramics-formats/src/block_tree.rs
index 471af06..7dabe2a 100644
--- a/keramics-formats/src/block_tree.rs
+++ b/keramics-formats/src/block_tree.rs
@@ -43,7 +43,7 @@ impl<T> BlockTree<T> {
     }
 
     /// Creates the root node.
-    fn create_root_node(&mut self, size: u64) {
+    fn create_root_node(&mut self, offset: u64, size: u64) {
         let mut element_size: u64 = self.leaf_value_size;
 
         if self.elements_per_node * element_size > self.leaf_value_size {
@@ -53,7 +53,7 @@ impl<T> BlockTree<T> {
         }
         let elements_per_node: u64 = self.data_size.div_ceil(element_size);
 
-        let node_type: BlockTreeNodeType = if element_size <= size {
+        let node_type: BlockTreeNodeType = if offset % element_size == 0 && size >= element_size {
             BlockTreeNodeType::Leaf
         } else {
             BlockTreeNodeType::Branch
@@ -73,7 +73,7 @@ impl<T> BlockTree<T> {
 
     /// Retrieves a (leaf) value.
     pub fn get_value(&self, offset: u64) -> Option<&T> {
-        if self.root_node.is_none() {
+        if self.root_node.is_none() || offset >= self.data_size {
             return None;
         }
         let mut node: &BlockTreeNode<T> = self.root_node.as_ref().unwrap();
@@ -96,12 +96,10 @@ impl<T> BlockTree<T> {
 
     /// Inserts a (leaf) value.
     pub fn insert_value(&mut self, offset: u64, size: u64, value: T) -> Result<(), InsertError> {
-        if offset + size > self.data_size {
+        if offset > self.data_size || size > self.data_size - offset {
             return Err(InsertError::new(format!(
-                "Range: {} - {} exceeds data size: {}",
-                offset,
-                offset + size,
-                self.data_size
+                "Range at offset: {} with size: {} exceeds data size: {}",
+                offset, size, self.data_size
             )));
         }
         if offset % self.leaf_value_size != 0 {
@@ -117,7 +115,7 @@ impl<T> BlockTree<T> {
             )));
         }
         if self.root_node.is_none() {
-            self.create_root_node(size);
+            self.create_root_node(offset, size);
         }
         let root_node: &mut BlockTreeNode<T> = &mut self.root_node.as_mut().unwrap();
         root_node.insert_value(
diff --git a/keramics-formats/src/block_tree_node.rs b/keramics-formats/src/block_tree_node.rs
index 9f0a6fe..f9e3e42 100644
--- a/keramics-formats/src/block_tree_node.rs
+++ b/keramics-formats/src/block_tree_node.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::{max, min};
 use std::sync::Arc;
 
 use super::errors::InsertError;
@@ -52,6 +53,28 @@ impl<T> BlockTreeNode<T> {
         }
     }
 
+    /// Splits a leaf node into a branch node with the same values.
+    fn split(&mut self, elements_per_node: u64) {
+        let sub_node_element_size: u64 = self.element_size / elements_per_node;
+        let mut sub_node_offset: u64 = self.offset;
+
+        for value in std::mem::take(&mut self.values) {
+            self.sub_nodes.push(value.map(|value| {
+                let mut sub_node: BlockTreeNode<T> = BlockTreeNode::new(
+                    &BlockTreeNodeType::Leaf,
+                    sub_node_offset,
+                    sub_node_element_size,
+                );
+                sub_node.values = (0..elements_per_node)
+                    .map(|_| Some(value.clone()))
+                    .collect();
+                sub_node
+            }));
+            sub_node_offset += self.element_size;
+        }
+        self.node_type = BlockTreeNodeType::Branch;
+    }
+
     /// Inserts a (leaf) value.
     pub fn insert_value(
         &mut self,
@@ -61,28 +84,47 @@ impl<T> BlockTreeNode<T> {
         size: u64,
         value: Arc<T>,
     ) -> Result<(), InsertError> {
+        let is_aligned: bool = (offset - self.offset) % self.element_size == 0
+            && size % self.element_size == 0;
+
+        if self.node_type == BlockTreeNodeType::Leaf
+            && !is_aligned
+            && self.element_size > leaf_value_size
+        {
+            if self.values.len() == 0 {
+                self.values = (0..elements_per_node).map(|_| None).collect();
+            }
+            self.split(elements_per_node);
+        }
         if self.node_type == BlockTreeNodeType::Branch {
             if self.sub_nodes.len() == 0 {
                 self.sub_nodes = (0..elements_per_node).map(|_| None).collect();
             }
-            let number_of_sub_nodex: u64 = size.div_ceil(self.element_size);
             let first_sub_node_index: u64 = (offset - self.offset) / self.element_size;
-            let last_sub_node_index: u64 = first_sub_node_index + number_of_sub_nodex;
+            let last_sub_node_index: u64 =
+                (offset - self.offset + size).div_ceil(self.element_size);
 
             let mut sub_node_element_size: u64 = leaf_value_size;
 
             while self.element_size / sub_node_element_size > elements_per_node {
                 sub_node_element_size *= elements_per_node;
             }
-            let sub_node_type: BlockTreeNodeType = if sub_node_element_size <= size {
-                BlockTreeNodeType::Leaf
-            } else {
-                BlockTreeNodeType::Branch
-            };
             let mut sub_node_offset: u64 = self.offset + (first_sub_node_index * self.element_size);
 
             for sub_node_index in first_sub_node_index..last_sub_node_index {
+                // Only pass the part of the range that is within the sub node.
+                let sub_range_offset: u64 = max(offset, sub_node_offset);
+                let sub_range_end_offset: u64 =
+                    min(offset + size, sub_node_offset + self.element_size);
+                let sub_range_size: u64 = sub_range_end_offset - sub_range_offset;
+
                 if self.sub_nodes[sub_node_index as usize].is_none() {
+                    let sub_node_type: BlockTreeNodeType =
+                        if sub_node_element_size <= sub_range_size {
+                            BlockTreeNodeType::Leaf
+                        } else {
+                            BlockTreeNodeType::Branch
+                        };
                     let sub_node: BlockTreeNode<T> =
                         BlockTreeNode::new(&sub_node_type, sub_node_offset, sub_node_element_size);
                     self.sub_nodes[sub_node_index as usize] = Some(sub_node);
@@ -92,8 +134,8 @@ impl<T> BlockTreeNode<T> {
                 sub_node.insert_value(
                     elements_per_node,
                     leaf_value_size,
-                    offset,
-                    size,
+                    sub_range_offset,
+                    sub_range_size,
                     value.clone(),
                 )?;
                 sub_node_offset += self.element_size;
-- 
2.43.0


From 89706b95586fbdd5fbf53b9dff7c729480b8aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 044/169] fix: size of a resized VHD disk

---
 keramics-formats/src/vhd/file_footer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/vhd/file_footer.rs b/keramics-formats/src/vhd/file_footer.rs
index 993b73d..15e6c07 100644
--- a/keramics-formats/src/vhd/file_footer.rs
+++ b/keramics-formats/src/vhd/file_footer.rs
@@ -92,7 +92,7 @@ impl VhdFileFooter {
             )));
         }
         self.next_offset = bytes_to_u64_be!(data, 16);
-        self.data_size = bytes_to_u64_be!(data, 40);
+        self.data_size = bytes_to_u64_be!(data, 48);
         self.disk_type = bytes_to_u32_be!(data, 60);
         self.identifier = Uuid::from_be_bytes(&data[68..84]);
 
-- 
2.43.0


From 71e34a81130390679fe4b19d95de77b7e12fb0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 045/169] fix: sector bitmaps of VHD blocks

---
 keramics-formats/src/vhd/file.rs          | 28 +++++++++++++++--------
 keramics-formats/src/vhd/sector_bitmap.rs |  9 +++++---
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 6dd0d7d..5b88965 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -185,7 +186,7 @@ impl VhdFile {
                 self.parent_name = Some(dynamic_disk_header.parent_name);
             }
             let sectors_ber_block: u32 = dynamic_disk_header.block_size / 512;
-            self.sector_bitmap_size = (sectors_ber_block / 8).div_ceil(512) * 512;
+            self.sector_bitmap_size = sectors_ber_block.div_ceil(8).div_ceil(512) * 512;
 
             self.block_allocation_table = Some(VhdBlockAllocationTable::new(
                 dynamic_disk_header.block_table_offset,
@@ -291,32 +292,40 @@ impl VhdFile {
         let mut range_media_offset: u64 = block_number * (self.block_size as u64);
         let mut range_data_offset: u64 = sector_bitmap_offset + (self.sector_bitmap_size as u64);
 
+        let block_end_offset: u64 = range_media_offset + (self.block_size as u64);
+
         for bitmap_range in sector_bitmap.ranges.iter() {
+            // Note that the sector bitmap can contain padding.
+            let range_size: u64 = min(bitmap_range.size, block_end_offset - range_media_offset);
+
+            if range_size == 0 {
+                break;
+            }
             let block_range: VhdBlockRange = if bitmap_range.is_set {
                 VhdBlockRange::new(
                     range_media_offset,
                     range_data_offset,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InFile,
                 )
             } else if self.disk_type == VhdDiskType::Dynamic {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::Sparse,
                 )
             } else {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InParent,
                 )
             };
             match self
                 .block_tree
-                .insert_value(range_media_offset, bitmap_range.size, block_range)
+                .insert_value(range_media_offset, range_size, block_range)
             {
                 Ok(_) => {}
                 Err(error) => {
@@ -326,8 +335,8 @@ impl VhdFile {
                     ));
                 }
             };
-            range_media_offset += bitmap_range.size;
-            range_data_offset += bitmap_range.size;
+            range_media_offset += range_size;
+            range_data_offset += range_size;
         }
         Ok(())
     }
@@ -337,7 +346,6 @@ impl VhdFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -347,6 +355,8 @@ impl VhdFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -417,8 +427,6 @@ impl VhdFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
diff --git a/keramics-formats/src/vhd/sector_bitmap.rs b/keramics-formats/src/vhd/sector_bitmap.rs
index 366ea4d..26993cf 100644
--- a/keramics-formats/src/vhd/sector_bitmap.rs
+++ b/keramics-formats/src/vhd/sector_bitmap.rs
@@ -65,14 +65,17 @@ impl VhdSectorBitmap {
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         let mut offset: u64 = 0;
         let mut range_offset: u64 = 0;
-        let mut range_bit_value: u8 = data[0] >> 7;
+        let mut range_bit_value: u8 = match data.first() {
+            Some(byte_value) => byte_value >> 7,
+            None => return Ok(()),
+        };
 
         for data_offset in 0..data.len() {
             let mut byte_value: u8 = data[data_offset];
 
             for _ in (0..8).rev() {
-                let bit_value: u8 = byte_value & 0x01;
-                byte_value >>= 1;
+                let bit_value: u8 = byte_value >> 7;
+                byte_value <<= 1;
 
                 if bit_value != range_bit_value {
                     self.ranges.push(VhdSectorBitmapRange::new(
-- 
2.43.0


From a3fa1a6e8a314091050140347cfe57a49ffd9ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 046/169] fix: reading a differential VHD disk that is larger
 than its parent

---
 keramics-formats/src/vhd/file.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 5b88965..107e04f 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -54,6 +54,9 @@ pub struct VhdFile {
     /// Parent file.
     parent_file: Option<Arc<RwLock<VhdFile>>>,
 
+    /// Parent media size.
+    parent_media_size: u64,
+
     /// Bytes per sector.
     pub bytes_per_sector: u16,
 
@@ -82,6 +85,7 @@ impl VhdFile {
             parent_identifier: None,
             parent_name: None,
             parent_file: None,
+            parent_media_size: 0,
             bytes_per_sector: 0,
             block_size: 0,
             sector_bitmap_size: 0,
@@ -409,12 +413,18 @@ impl VhdFile {
                             return Err(keramics_core::error_trace_new!("Missing parent file"));
                         }
                     };
-                    let read_count: usize = keramics_core::data_stream_read_at_position!(
-                        parent_file,
-                        &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(media_offset)
-                    );
-                    read_count
+                    if media_offset >= self.parent_media_size {
+                        data[data_offset..data_end_offset].fill(0);
+
+                        range_read_size
+                    } else {
+                        let read_count: usize = keramics_core::data_stream_read_at_position!(
+                            parent_file,
+                            &mut data[data_offset..data_end_offset],
+                            SeekFrom::Start(media_offset)
+                        );
+                        read_count
+                    }
                 }
                 VhdBlockRangeType::Sparse => {
                     data[data_offset..data_end_offset].fill(0);
@@ -448,6 +458,7 @@ impl VhdFile {
                         file.identifier.to_string(),
                     )));
                 }
+                self.parent_media_size = file.media_size;
             }
             Err(error) => {
                 return Err(keramics_core::error_trace_new_with_error!(
-- 
2.43.0


From 657f442e9b07fbf82a026203d26aa33fef4c9f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 047/169] fix: endless loop when a VHD file is its own ancestor

---
 keramics-formats/src/vhd/image.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/keramics-formats/src/vhd/image.rs b/keramics-formats/src/vhd/image.rs
index 43c4e6c..76df45e 100644
--- a/keramics-formats/src/vhd/image.rs
+++ b/keramics-formats/src/vhd/image.rs
@@ -129,6 +129,15 @@ impl VhdImage {
             }
             files.push(file);
 
+            if files
+                .iter()
+                .any(|file| file.identifier == parent_file.identifier)
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Parent file: {} is already a layer of the image",
+                    parent_file_name
+                )));
+            }
             file = parent_file;
         }
         files.push(file);
-- 
2.43.0


From c43bed3826ef668594cc13fb498cbf68a2b34441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:29 +0000
Subject: [PATCH 048/169] fix: out of bounds values in VHD metadata

---
 keramics-formats/src/vhd/block_allocation_table.rs | 10 +++++++++-
 keramics-formats/src/vhd/dynamic_disk_header.rs    |  2 +-
 keramics-formats/src/vhd/file.rs                   |  6 +-----
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/vhd/block_allocation_table.rs b/keramics-formats/src/vhd/block_allocation_table.rs
index f364c24..d1b18ee 100644
--- a/keramics-formats/src/vhd/block_allocation_table.rs
+++ b/keramics-formats/src/vhd/block_allocation_table.rs
@@ -82,7 +82,15 @@ impl VhdBlockAllocationTable {
                 entry_index
             )));
         }
-        let entry_offset: u64 = self.offset + (entry_index as u64 * 4);
+        let entry_offset: u64 = match self.offset.checked_add(entry_index as u64 * 4) {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid block allocation table offset: 0x{:08x} value out of bounds",
+                    self.offset
+                )));
+            }
+        };
         let mut data: [u8; 4] = [0; 4];
 
         keramics_core::data_stream_read_exact_at_position!(
diff --git a/keramics-formats/src/vhd/dynamic_disk_header.rs b/keramics-formats/src/vhd/dynamic_disk_header.rs
index 26a7def..019af31 100644
--- a/keramics-formats/src/vhd/dynamic_disk_header.rs
+++ b/keramics-formats/src/vhd/dynamic_disk_header.rs
@@ -104,7 +104,7 @@ impl VhdDynamicDiskHeader {
 
         // TODO: calculate and compare checksum.
 
-        if self.block_size == 0 {
+        if self.block_size == 0 || self.block_size % 512 != 0 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
                 self.block_size
diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 107e04f..58e0a97 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -196,11 +196,7 @@ impl VhdFile {
                 dynamic_disk_header.block_table_offset,
                 dynamic_disk_header.number_of_blocks,
             ));
-            self.block_tree = BlockTree::<VhdBlockRange>::new(
-                block_tree_data_size,
-                sectors_ber_block as u64,
-                512,
-            );
+            self.block_tree = BlockTree::<VhdBlockRange>::new(block_tree_data_size, 256, 512);
         }
         Ok(())
     }
-- 
2.43.0


From 77c0fcc3fd38f76d518b030d773c22d51f519def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:35 +0000
Subject: [PATCH 049/169] fix: short reads and memory use of sparse images

---
 keramics-formats/src/sparseimage/file.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/keramics-formats/src/sparseimage/file.rs b/keramics-formats/src/sparseimage/file.rs
index 5a23feb..ca58fc7 100644
--- a/keramics-formats/src/sparseimage/file.rs
+++ b/keramics-formats/src/sparseimage/file.rs
@@ -138,8 +138,8 @@ impl SparseImageFile {
 
         self.block_tree = BlockTree::<SparseImageBlockRange>::new(
             block_tree_size,
-            file_header.sectors_per_band as u64,
-            512,
+            256,
+            self.block_size as u64,
         );
         let mut data_offset: usize = 64;
 
@@ -198,15 +198,13 @@ impl SparseImageFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let block_number: u64 = media_offset / (self.block_size as u64);
-        let block_offset: u64 = block_number * (self.block_size as u64);
-        let mut range_relative_offset: u64 = media_offset - block_offset;
-        let mut range_remainder_size: u64 = (self.block_size as u64) - range_relative_offset;
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
                 break;
             }
+            let range_relative_offset: u64 = media_offset % (self.block_size as u64);
+            let range_remainder_size: u64 = (self.block_size as u64) - range_relative_offset;
             let mut range_read_size: usize = read_size - data_offset;
 
             if (range_read_size as u64) > range_remainder_size {
@@ -243,9 +241,6 @@ impl SparseImageFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            range_relative_offset = 0;
-            range_remainder_size = self.block_size as u64;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From 6336799cb6a71a0a2734cb610e598480ca402d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:35 +0000
Subject: [PATCH 050/169] fix: reading sparse bundles with sparse bands

---
 keramics-formats/src/os_file_resolver.rs   | 10 +++++
 keramics-formats/src/sparsebundle/image.rs | 48 +++++++++++-----------
 2 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/keramics-formats/src/os_file_resolver.rs b/keramics-formats/src/os_file_resolver.rs
index 3c0efa2..696c6e9 100644
--- a/keramics-formats/src/os_file_resolver.rs
+++ b/keramics-formats/src/os_file_resolver.rs
@@ -52,6 +52,16 @@ impl FileResolver for OsFileResolver {
                 }
             }
         }
+        match path_buf.try_exists() {
+            Ok(true) => {}
+            Ok(false) => return Ok(None),
+            Err(error) => {
+                return Err(keramics_core::error_trace_new_with_error!(
+                    "Unable to determine if file exists with error",
+                    error
+                ));
+            }
+        }
         let data_stream: DataStreamReference = match open_os_data_stream(&path_buf) {
             Ok(data_stream) => data_stream,
             Err(error) => {
diff --git a/keramics-formats/src/sparsebundle/image.rs b/keramics-formats/src/sparsebundle/image.rs
index 107ab14..e8f34e2 100644
--- a/keramics-formats/src/sparsebundle/image.rs
+++ b/keramics-formats/src/sparsebundle/image.rs
@@ -203,15 +203,15 @@ impl SparseBundleImage {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
-        let block_offset: u64 = block_number * (self.block_size as u64);
-        let mut range_relative_offset: u64 = media_offset - block_offset;
-        let mut range_remainder_size: u64 = (self.block_size as u64) - range_relative_offset;
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
                 break;
             }
+            let block_number: u64 = media_offset / (self.block_size as u64);
+            let range_relative_offset: u64 = media_offset % (self.block_size as u64);
+            let range_remainder_size: u64 = (self.block_size as u64) - range_relative_offset;
+
             let band_file_name: String = format!("{:x}", block_number);
 
             // TODO: cache band files like EWF
@@ -230,15 +230,6 @@ impl SparseBundleImage {
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such bands file: {}",
-                        band_file_name
-                    )));
-                }
-            };
             let mut range_read_size: usize = read_size - data_offset;
 
             if (range_read_size as u64) > range_remainder_size {
@@ -246,20 +237,27 @@ impl SparseBundleImage {
             }
             let data_end_offset: usize = data_offset + range_read_size;
 
-            let read_count: usize = keramics_core::data_stream_read_at_position!(
-                data_stream,
-                &mut data[data_offset..data_end_offset],
-                SeekFrom::Start(range_relative_offset)
-            );
+            let read_count: usize = match result {
+                Some(data_stream) => {
+                    let read_count: usize = keramics_core::data_stream_read_at_position!(
+                        data_stream,
+                        &mut data[data_offset..data_end_offset],
+                        SeekFrom::Start(range_relative_offset)
+                    );
+                    read_count
+                }
+                None => 0,
+            };
+            // Note that a sparse band has no file and that a band file can be smaller than
+            // the band size.
             if read_count == 0 {
-                break;
+                data[data_offset..data_end_offset].fill(0);
+                data_offset += range_read_size;
+                media_offset += range_read_size as u64;
+            } else {
+                data_offset += read_count;
+                media_offset += read_count as u64;
             }
-            data_offset += read_count;
-            media_offset += read_count as u64;
-
-            block_number += 1;
-            range_relative_offset = 0;
-            range_remainder_size = self.block_size as u64;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From 973ff745aaf75d9dfa8e4641089ca772a525ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 051/169] fix: comments, references and CDATA sections in a XML
 plist

---
 keramics-formats/src/plist/xmlplist.pest |  2 +-
 keramics-formats/src/plist/xmlplist.rs   | 52 ++++++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/plist/xmlplist.pest b/keramics-formats/src/plist/xmlplist.pest
index 153739d..9cc2e24 100644
--- a/keramics-formats/src/plist/xmlplist.pest
+++ b/keramics-formats/src/plist/xmlplist.pest
@@ -430,7 +430,7 @@ plist_object_element = {
 }
 
 plist_key_and_object_element_pair = {
-	plist_key_element ~ character_data? ~ plist_object_element
+	plist_key_element ~ character_data? ~ ((comment | processing_instructions) ~ character_data?)* ~ plist_object_element
 }
 
 plist_boolean_false_element = {
diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index b8e1d44..1bd4220 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -101,7 +101,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_object_element => {
                     let object: PlistObject =
                         match self.parse_plist_object_element(token_pair.into_inner()) {
@@ -170,7 +170,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_key_and_object_element_pair => {
                     let (key, object): (String, PlistObject) = match self
                         .parse_plist_key_and_object_element_pair(token_pair.into_inner())
@@ -241,7 +241,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_object_element => {
                     object = match self.parse_plist_object_element(token_pair.into_inner()) {
                         Ok(element) => element,
@@ -436,7 +436,7 @@ impl XmlPlist {
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
-                Rule::character_data => {}
+                Rule::character_data | Rule::comment | Rule::processing_instructions => {}
                 Rule::plist_object_element => {
                     object = match self.parse_plist_object_element(token_pair.into_inner()) {
                         Ok(element) => element,
@@ -581,18 +581,56 @@ impl XmlPlist {
         Ok(object)
     }
 
+    /// Parses a XML reference.
+    fn parse_reference(string: &str) -> Option<char> {
+        match string {
+            "&amp;" => Some('&'),
+            "&apos;" => Some('\''),
+            "&gt;" => Some('>'),
+            "&lt;" => Some('<'),
+            "&quot;" => Some('"'),
+            _ => {
+                let digits: &str = string.strip_prefix("&#")?.strip_suffix(';')?;
+
+                let code_point: u32 = match digits.strip_prefix('x') {
+                    Some(digits) => u32::from_str_radix(digits, 16).ok()?,
+                    None => u32::from_str_radix(digits, 10).ok()?,
+                };
+                char::from_u32(code_point)
+            }
+        }
+    }
+
     /// Parses a XML plist string content.
     fn parse_plist_string_content(
         &self,
         mut inner_pairs: Pairs<Rule>,
     ) -> Result<String, ErrorTrace> {
-        let mut string_parts: Vec<&str> = Vec::new();
+        let mut string: String = String::new();
 
         while let Some(token_pair) = inner_pairs.next() {
             let rule: Rule = token_pair.as_rule();
             match rule {
                 Rule::character_data => {
-                    string_parts.push(token_pair.as_str());
+                    string.push_str(token_pair.as_str());
+                }
+                Rule::cdata_section => {
+                    for token_pair in token_pair.into_inner() {
+                        string.push_str(token_pair.as_str());
+                    }
+                }
+                Rule::comment | Rule::processing_instructions => {}
+                Rule::reference => {
+                    let character: char = match Self::parse_reference(token_pair.as_str()) {
+                        Some(character) => character,
+                        None => {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Unsupported reference: {}",
+                                token_pair.as_str()
+                            )));
+                        }
+                    };
+                    string.push(character);
                 }
                 _ => {
                     return Err(keramics_core::error_trace_new!(format!(
@@ -602,7 +640,7 @@ impl XmlPlist {
                 }
             };
         }
-        Ok(string_parts.join(""))
+        Ok(string)
     }
 
     /// Parses a XML plist string element.
-- 
2.43.0


From 9ab9e3a6e9b469308070865a12fcfc7e0534e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:29 +0000
Subject: [PATCH 052/169] fix: empty-element tags in a XML plist

---
 keramics-formats/src/plist/xmlplist.pest | 20 ++++++++++++++++++++
 keramics-formats/src/plist/xmlplist.rs   |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/keramics-formats/src/plist/xmlplist.pest b/keramics-formats/src/plist/xmlplist.pest
index 9cc2e24..d333288 100644
--- a/keramics-formats/src/plist/xmlplist.pest
+++ b/keramics-formats/src/plist/xmlplist.pest
@@ -418,14 +418,18 @@ plist_content = {
 }
 
 plist_object_element = {
+    plist_array_empty_element |
     plist_array_element |
     plist_boolean_false_element |
     plist_boolean_true_element |
+    plist_data_empty_element |
     plist_data_element |
     plist_date_element |
+    plist_dict_empty_element |
     plist_dict_element |
     plist_floating_point_element |
     plist_integer_element |
+    plist_string_empty_element |
     plist_string_element
 }
 
@@ -445,6 +449,10 @@ plist_array_element = {
     plist_array_element_start_tag ~ plist_content ~ plist_array_element_end_tag
 }
 
+plist_array_empty_element = {
+    "<array" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
+}
+
 plist_array_element_start_tag = {
     "<array" ~ (white_space ~ attribute)* ~ white_space? ~ ">"
 }
@@ -457,6 +465,10 @@ plist_data_element = {
     plist_data_element_start_tag ~ plist_content ~ plist_data_element_end_tag
 }
 
+plist_data_empty_element = {
+    "<data" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
+}
+
 plist_data_element_start_tag = {
     "<data" ~ (white_space ~ attribute)* ~ white_space? ~ ">"
 }
@@ -481,6 +493,10 @@ plist_dict_element = {
     plist_dict_element_start_tag ~ plist_dict_content ~ plist_dict_element_end_tag
 }
 
+plist_dict_empty_element = {
+    "<dict" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
+}
+
 plist_dict_element_start_tag = {
     "<dict" ~ (white_space ~ attribute)* ~ white_space? ~ ">"
 }
@@ -533,6 +549,10 @@ plist_string_element = {
     plist_string_element_start_tag ~ plist_content ~ plist_string_element_end_tag
 }
 
+plist_string_empty_element = {
+    "<string" ~ (white_space ~ attribute)* ~ white_space? ~ "/>"
+}
+
 plist_string_element_start_tag = {
     "<string" ~ (white_space ~ attribute)* ~ white_space? ~ ">"
 }
diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index 1bd4220..930297b 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -501,6 +501,10 @@ impl XmlPlist {
                     }
                 }
             }
+            Rule::plist_array_empty_element => PlistObject::Array(Vec::new()),
+            Rule::plist_data_empty_element => PlistObject::Data(Vec::new()),
+            Rule::plist_dict_empty_element => PlistObject::Dictionary(HashMap::new()),
+            Rule::plist_string_empty_element => PlistObject::String(String::new()),
             Rule::plist_boolean_false_element => PlistObject::Boolean(false),
             Rule::plist_boolean_true_element => PlistObject::Boolean(true),
             Rule::plist_data_element => {
-- 
2.43.0


From 3b702d9d4b8dd5e0cb312076c4315207b4a763ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:29 +0000
Subject: [PATCH 053/169] fix: date elements in a XML plist

---
 keramics-formats/src/plist/xmlplist.rs | 71 +++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index 930297b..662388a 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -312,6 +312,68 @@ impl XmlPlist {
         Ok(PlistObject::Data(data))
     }
 
+    /// Parses a XML plist date element.
+    fn parse_plist_date_element(
+        &self,
+        inner_pairs: Pairs<Rule>,
+    ) -> Result<PlistObject, ErrorTrace> {
+        let string: String = match self.parse_plist_string_element(inner_pairs) {
+            Ok(string) => string,
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(error, "Unable to parse plist date element");
+                return Err(error);
+            }
+        };
+        match Self::parse_date_time(string.trim()) {
+            Some(timestamp) => Ok(PlistObject::DateTime(timestamp)),
+            None => Err(keramics_core::error_trace_new!(format!(
+                "Unsupported date: {}",
+                string
+            ))),
+        }
+    }
+
+    /// Parses a date in the form "YYYY-MM-DDTHH:MM:SSZ".
+    ///
+    /// Returns the number of seconds since Jan 1, 2001 00:00:00 UTC.
+    fn parse_date_time(string: &str) -> Option<f64> {
+        let (date, time): (&str, &str) = string.strip_suffix('Z')?.split_once('T')?;
+
+        let mut values: Vec<i64> = Vec::new();
+
+        for part in date.splitn(3, '-').chain(time.splitn(3, ':')) {
+            if part.is_empty() || part.len() > 4 || !part.bytes().all(|byte| byte.is_ascii_digit())
+            {
+                return None;
+            }
+            values.push(part.parse::<i64>().ok()?);
+        }
+        if values.len() != 6
+            || values[1] < 1
+            || values[1] > 12
+            || values[2] < 1
+            || values[2] > 31
+            || values[3] > 23
+            || values[4] > 59
+            || values[5] > 60
+        {
+            return None;
+        }
+        // Determine the number of days since Jan 1, 2001 using years that start in March.
+        let year: i64 = if values[1] > 2 {
+            values[0]
+        } else {
+            values[0] - 1
+        };
+        let days_in_year: i64 = (153 * ((values[1] + 9) % 12) + 2) / 5 + values[2] - 1;
+        let number_of_days: i64 = year * 365 + year.div_euclid(4) - year.div_euclid(100)
+            + year.div_euclid(400)
+            + days_in_year
+            - 730791;
+
+        Some((((number_of_days * 24 + values[3]) * 60 + values[4]) * 60 + values[5]) as f64)
+    }
+
     /// Parses a XML plist element.
     fn parse_plist_element(&self, mut inner_pairs: Pairs<Rule>) -> Result<PlistObject, ErrorTrace> {
         // TODO: parser plist version.
@@ -517,8 +579,13 @@ impl XmlPlist {
                 }
             }
             Rule::plist_date_element => {
-                // TODO: YYYY '-' MM '-' DD 'T' HH ':' MM ':' SS 'Z'
-                todo!();
+                match self.parse_plist_date_element(token_pair.into_inner()) {
+                    Ok(element) => element,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(error, "Unable to parse date object");
+                        return Err(error);
+                    }
+                }
             }
             Rule::plist_dict_element => {
                 match self.parse_plist_dict_element(token_pair.into_inner()) {
-- 
2.43.0


From 0cc4a4f1769dfb4a13629430ae9e0298c5b13d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 054/169] fix: out of bounds values in QCOW metadata

---
 keramics-formats/src/qcow/cluster_table.rs | 10 +++-
 keramics-formats/src/qcow/file.rs          | 58 ++++++++++++++++------
 2 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/keramics-formats/src/qcow/cluster_table.rs b/keramics-formats/src/qcow/cluster_table.rs
index 6d1cca0..27d81dc 100644
--- a/keramics-formats/src/qcow/cluster_table.rs
+++ b/keramics-formats/src/qcow/cluster_table.rs
@@ -83,7 +83,15 @@ impl QcowClusterTable {
                 entry_index
             )));
         }
-        let entry_offset: u64 = self.offset + (entry_index as u64 * 8);
+        let entry_offset: u64 = match self.offset.checked_add(entry_index as u64 * 8) {
+            Some(entry_offset) => entry_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid table offset: 0x{:08x} value out of bounds",
+                    self.offset
+                )));
+            }
+        };
         let mut data: [u8; 8] = [0; 8];
 
         keramics_core::data_stream_read_exact_at_position!(
diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 46bf951..5edcbd3 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -84,6 +85,9 @@ pub struct QcowFile {
     /// Block tree.
     block_tree: BlockTree<QcowBlockRange>,
 
+    /// Block tree data size.
+    block_tree_data_size: u64,
+
     /// Backing file name.
     backing_file_name: Option<ByteString>,
 
@@ -120,6 +124,7 @@ impl QcowFile {
             compression_method: QcowCompressionMethod::Zlib,
             encryption_method: QcowEncryptionMethod::None,
             block_tree: BlockTree::<QcowBlockRange>::new(0, 0, 0),
+            block_tree_data_size: 0,
             backing_file_name: None,
             backing_file: None,
             media_size: 0,
@@ -177,15 +182,6 @@ impl QcowFile {
                 _ => QcowCompressionMethod::Unknown,
             };
         }
-        if self.format_version == 1 {
-            self.offset_bit_mask = 0x7fffffffffffffff;
-            self.compression_flag_bit_mask = 1 << 63;
-            self.compression_bit_shift = 63 - self.number_of_cluster_block_bits;
-        } else {
-            self.offset_bit_mask = 0x3fffffffffffffff;
-            self.compression_flag_bit_mask = 1 << 62;
-            self.compression_bit_shift = 62 - self.number_of_cluster_block_bits;
-        }
         self.level1_index_bit_shift =
             self.number_of_cluster_block_bits + file_header.number_of_level2_table_bits;
 
@@ -195,6 +191,15 @@ impl QcowFile {
                 self.level1_index_bit_shift
             )));
         }
+        if self.format_version == 1 {
+            self.offset_bit_mask = 0x7fffffffffffffff;
+            self.compression_flag_bit_mask = 1 << 63;
+            self.compression_bit_shift = 63 - self.number_of_cluster_block_bits;
+        } else {
+            self.offset_bit_mask = 0x3fffffffffffffff;
+            self.compression_flag_bit_mask = 1 << 62;
+            self.compression_bit_shift = 62 - self.number_of_cluster_block_bits;
+        }
         self.level2_index_bit_mask =
             !(u64::MAX << (file_header.number_of_level2_table_bits as u64));
         self.cluster_block_bit_mask = !(u64::MAX << self.number_of_cluster_block_bits);
@@ -246,11 +251,22 @@ impl QcowFile {
             level1_table_number_of_references as u32,
         );
 
-        let block_tree_data_size: u64 =
-            self.media_size.div_ceil(self.cluster_block_size) * self.cluster_block_size;
+        self.block_tree_data_size = match self
+            .media_size
+            .div_ceil(self.cluster_block_size)
+            .checked_mul(self.cluster_block_size)
+        {
+            Some(block_tree_data_size) => block_tree_data_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid media size: {} value out of bounds",
+                    self.media_size
+                )));
+            }
+        };
         self.block_tree = BlockTree::<QcowBlockRange>::new(
-            block_tree_data_size,
-            self.level2_table_number_of_references,
+            self.block_tree_data_size,
+            256,
             self.cluster_block_size,
         );
         if file_header.backing_file_name_offset > 0 && file_header.backing_file_name_size > 0 {
@@ -328,6 +344,13 @@ impl QcowFile {
         };
         let level1_table_index: u64 = media_offset >> self.level1_index_bit_shift;
 
+        if level1_table_index > u32::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid level 1 table index: {} value out of bounds",
+                level1_table_index
+            )));
+        }
+
         let level1_entry: QcowClusterTableEntry = match self
             .level1_cluster_table
             .read_entry(data_stream, level1_table_index as u32)
@@ -368,11 +391,18 @@ impl QcowFile {
         } else {
             self.level2_cluster_table.set_range(
                 level2_table_offset,
-                self.level2_table_number_of_references as u32,
+                min(self.level2_table_number_of_references, u32::MAX as u64) as u32,
             );
             let level2_table_index: u64 =
                 (media_offset >> self.number_of_cluster_block_bits) & self.level2_index_bit_mask;
 
+            if level2_table_index > u32::MAX as u64 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid level 2 table index: {} value out of bounds",
+                    level2_table_index
+                )));
+            }
+
             let level2_entry: QcowClusterTableEntry = match self
                 .level2_cluster_table
                 .read_entry(data_stream, level2_table_index as u32)
-- 
2.43.0


From 9d50b4a4c8e785e61c496eac61c1014ea943f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 055/169] fix: QCOW clusters without a level 2 table

---
 keramics-formats/src/qcow/file.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 5edcbd3..6994a7f 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -368,14 +368,18 @@ impl QcowFile {
         let level2_table_offset: u64 = level1_entry.reference & self.offset_bit_mask;
 
         if level2_table_offset == 0 {
-            let range_media_size: u64 = 1 << self.level1_index_bit_shift;
-
-            let block_range: QcowBlockRange = QcowBlockRange::new(
-                level1_media_offset,
-                0,
-                range_media_size,
-                QcowBlockRangeType::Sparse,
+            let range_media_size: u64 = min(
+                1 << self.level1_index_bit_shift,
+                self.block_tree_data_size - level1_media_offset,
             );
+            let range_type: QcowBlockRangeType = if self.backing_file_name.is_some() {
+                QcowBlockRangeType::InBackingFile
+            } else {
+                QcowBlockRangeType::Sparse
+            };
+            let block_range: QcowBlockRange =
+                QcowBlockRange::new(level1_media_offset, 0, range_media_size, range_type);
+
             match self
                 .block_tree
                 .insert_value(level1_media_offset, range_media_size, block_range)
-- 
2.43.0


From 31bd2abdf4d911f7ee4b73a4344d48ac5c1b1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 056/169] fix: QCOW version 3 clusters that read as zeros

---
 keramics-formats/src/qcow/file.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 6994a7f..40fd663 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -422,8 +422,18 @@ impl QcowFile {
             };
             let level2_media_offset: u64 =
                 level1_media_offset + (level2_table_index * self.cluster_block_size);
-            let block_data_offset: u64 = level2_entry.reference & self.offset_bit_mask;
-            let range_type: QcowBlockRangeType = if block_data_offset == 0 {
+            let mut block_data_offset: u64 = level2_entry.reference & self.offset_bit_mask;
+
+            // As of version 3 bit 0 of an uncompressed cluster marks that it reads as zeros.
+            let is_zero: bool = self.format_version >= 3
+                && (level2_entry.reference & self.compression_flag_bit_mask) == 0
+                && (block_data_offset & 1) != 0;
+
+            let range_type: QcowBlockRangeType = if is_zero {
+                block_data_offset = 0;
+
+                QcowBlockRangeType::Sparse
+            } else if block_data_offset == 0 {
                 if self.backing_file_name.is_some() {
                     QcowBlockRangeType::InBackingFile
                 } else {
-- 
2.43.0


From 1dcef8051622103f11bc0d4810ae090f5bf18ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 057/169] fix: panic on QCOW compressed clusters

---
 keramics-formats/src/qcow/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 40fd663..8d48cbd 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -521,7 +521,9 @@ impl QcowFile {
             let range_read_count: usize = match block_range.range_type {
                 QcowBlockRangeType::Compressed => {
                     // TODO: add compression support.
-                    todo!();
+                    return Err(keramics_core::error_trace_new!(
+                        "Unsupported compressed cluster"
+                    ));
                 }
                 QcowBlockRangeType::InBackingFile => {
                     let backing_file: &Arc<RwLock<QcowFile>> = match self.backing_file.as_ref() {
-- 
2.43.0


From 651763ccb63869f6219b3fd39d0deb48493ee3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 058/169] fix: reading a QCOW file that is larger than its
 backing file

---
 keramics-formats/src/qcow/file.rs | 35 +++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 8d48cbd..d3bce4c 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -94,6 +94,9 @@ pub struct QcowFile {
     /// Backing file.
     backing_file: Option<Arc<RwLock<QcowFile>>>,
 
+    /// Media size of the backing file.
+    backing_media_size: u64,
+
     /// Media size.
     pub media_size: u64,
 
@@ -127,6 +130,7 @@ impl QcowFile {
             block_tree_data_size: 0,
             backing_file_name: None,
             backing_file: None,
+            backing_media_size: 0,
             media_size: 0,
             media_offset: 0,
         }
@@ -532,12 +536,22 @@ impl QcowFile {
                             return Err(keramics_core::error_trace_new!("Missing backing file"));
                         }
                     };
-                    let read_count: usize = keramics_core::data_stream_read_at_position!(
-                        backing_file,
-                        &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(media_offset)
-                    );
-                    read_count
+                    // Data beyond the end of the backing file reads as zeros.
+                    let backing_remainder_size: u64 =
+                        self.backing_media_size.saturating_sub(media_offset);
+
+                    if backing_remainder_size == 0 {
+                        data[data_offset..data_end_offset].fill(0);
+
+                        range_read_size
+                    } else {
+                        let read_count: usize = keramics_core::data_stream_read_at_position!(
+                            backing_file,
+                            &mut data[data_offset..data_end_offset],
+                            SeekFrom::Start(media_offset)
+                        );
+                        read_count
+                    }
                 }
                 QcowBlockRangeType::InFile => {
                     let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
@@ -573,6 +587,15 @@ impl QcowFile {
         &mut self,
         backing_file: &Arc<RwLock<QcowFile>>,
     ) -> Result<(), ErrorTrace> {
+        self.backing_media_size = match backing_file.read() {
+            Ok(backing_file) => backing_file.media_size,
+            Err(error) => {
+                return Err(keramics_core::error_trace_new_with_error!(
+                    "Unable to obtain read lock on backing file",
+                    error
+                ));
+            }
+        };
         self.backing_file = Some(backing_file.clone());
 
         Ok(())
-- 
2.43.0


From f1a059cf1901727aafc2b294c11d051ed5c18568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 059/169] fix: endless loop when a QCOW file is its own backing
 file

---
 keramics-formats/src/qcow/image.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keramics-formats/src/qcow/image.rs b/keramics-formats/src/qcow/image.rs
index 33a712a..39e8294 100644
--- a/keramics-formats/src/qcow/image.rs
+++ b/keramics-formats/src/qcow/image.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::collections::HashSet;
 use std::sync::{Arc, RwLock};
 
 use keramics_core::{DataStreamReference, ErrorTrace};
@@ -88,9 +89,18 @@ impl QcowImage {
                 return Err(error);
             }
         }
+        let mut backing_file_names: HashSet<String> = HashSet::from([file_name.to_string()]);
+
         while let Some(file_name) = file.get_backing_file_name() {
             let backing_file_name: String = file_name.to_string();
 
+            if !backing_file_names.insert(backing_file_name.clone()) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Backing file: {} is already a layer of the image",
+                    backing_file_name
+                )));
+            }
+
             let path_components: [PathComponent; 1] = [PathComponent::from(&backing_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
-- 
2.43.0


From c337bf8be48a07cd26f0100b5526fbe2dda4a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 060/169] fix: compression method of a QCOW version 3 file
 header of 104 bytes

---
 keramics-formats/src/qcow/file_header_v3.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file_header_v3.rs b/keramics-formats/src/qcow/file_header_v3.rs
index 6b2a84e..a1fdd84 100644
--- a/keramics-formats/src/qcow/file_header_v3.rs
+++ b/keramics-formats/src/qcow/file_header_v3.rs
@@ -94,7 +94,6 @@ impl QcowFileHeaderV3 {
         file_header.number_of_snapshots = bytes_to_u32_be!(data, 60);
         file_header.snapshots_offset = bytes_to_u64_be!(data, 64);
         file_header.header_size = bytes_to_u32_be!(data, 100);
-        file_header.compression_method = data[104];
 
         if file_header.number_of_cluster_block_bits <= 8
             || file_header.number_of_cluster_block_bits > 63
@@ -110,6 +109,14 @@ impl QcowFileHeaderV3 {
                 file_header.header_size
             )));
         }
+        if file_header.header_size > 104 {
+            if data.len() < 112 {
+                return Err(keramics_core::error_trace_new!(
+                    "Unsupported QCOW file header version 3 data size"
+                ));
+            }
+            file_header.compression_method = data[104];
+        }
         Ok(())
     }
 }
-- 
2.43.0


From b95cdb173ad21b70305c3a48882afc06e12e3104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 061/169] fix: out of bounds values in VHDX metadata

---
 .../src/vhdx/block_allocation_table.rs        | 10 ++++++++-
 keramics-formats/src/vhdx/file.rs             | 22 +++++++++++--------
 .../src/vhdx/metadata_table_entry.rs          | 11 ++++++++++
 .../src/vhdx/metadata_table_header.rs         |  7 ++++++
 4 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/keramics-formats/src/vhdx/block_allocation_table.rs b/keramics-formats/src/vhdx/block_allocation_table.rs
index 3cf7484..bc0c4c9 100644
--- a/keramics-formats/src/vhdx/block_allocation_table.rs
+++ b/keramics-formats/src/vhdx/block_allocation_table.rs
@@ -96,7 +96,15 @@ impl VhdxBlockAllocationTable {
                 entry_index
             )));
         }
-        let entry_offset: u64 = self.offset + (entry_index as u64 * 8);
+        let entry_offset: u64 = match self.offset.checked_add(entry_index as u64 * 8) {
+            Some(entry_offset) => entry_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid block allocation table offset: 0x{:08x} value out of bounds",
+                    self.offset
+                )));
+            }
+        };
         let mut data: [u8; 8] = [0; 8];
 
         keramics_core::data_stream_read_exact_at_position!(
diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 022ce89..a725046 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -241,6 +241,12 @@ impl VhdxFile {
                 ));
             }
         };
+        if !self.block_size.is_power_of_two() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported block size: {} not a power of 2",
+                self.block_size
+            )));
+        }
         self.entries_per_chunk =
             ((1 << 23) * (self.bytes_per_sector as u64)) / (self.block_size as u64);
         self.sector_bitmap_size = 1048576 / (self.entries_per_chunk as u32);
@@ -252,8 +258,6 @@ impl VhdxFile {
             number_of_entries,
         ));
         let block_tree_data_size: u64 = (number_of_entries as u64) * (self.block_size as u64);
-        let sectors_per_block: u32 = self.block_size / (self.bytes_per_sector as u32);
-
         if self.media_size > block_tree_data_size {
             let calculated_number_of_blocks: u64 = self.media_size.div_ceil(self.block_size as u64);
             return Err(keramics_core::error_trace_new!(format!(
@@ -263,7 +267,7 @@ impl VhdxFile {
         }
         self.block_tree = BlockTree::<VhdxBlockRange>::new(
             block_tree_data_size,
-            sectors_per_block as u64,
+            256,
             self.bytes_per_sector as u64,
         );
         Ok(())
@@ -303,7 +307,7 @@ impl VhdxFile {
                 }
                 let mut data: [u8; 8] = [0; 8];
                 let metadata_item_offset: u64 =
-                    metadata_region.data_offset + metadata_table_entry.item_offset as u64;
+                    metadata_table_entry.get_offset_in_region(metadata_region.data_offset)?;
 
                 keramics_core::data_stream_read_at_position!(
                     data_stream,
@@ -355,7 +359,7 @@ impl VhdxFile {
                 }
                 let mut data: [u8; 8] = [0; 8];
                 let metadata_item_offset: u64 =
-                    metadata_region.data_offset + metadata_table_entry.item_offset as u64;
+                    metadata_table_entry.get_offset_in_region(metadata_region.data_offset)?;
 
                 keramics_core::data_stream_read_at_position!(
                     data_stream,
@@ -388,7 +392,7 @@ impl VhdxFile {
                 }
                 let mut data: [u8; 4] = [0; 4];
                 let metadata_item_offset: u64 =
-                    metadata_region.data_offset + metadata_table_entry.item_offset as u64;
+                    metadata_table_entry.get_offset_in_region(metadata_region.data_offset)?;
 
                 keramics_core::data_stream_read_at_position!(
                     data_stream,
@@ -430,7 +434,7 @@ impl VhdxFile {
                 }
                 let mut data: [u8; 4] = [0; 4];
                 let metadata_item_offset: u64 =
-                    metadata_region.data_offset + metadata_table_entry.item_offset as u64;
+                    metadata_table_entry.get_offset_in_region(metadata_region.data_offset)?;
 
                 keramics_core::data_stream_read_at_position!(
                     data_stream,
@@ -467,7 +471,7 @@ impl VhdxFile {
                 }
                 let mut data: [u8; 16] = [0; 16];
                 let metadata_item_offset: u64 =
-                    metadata_region.data_offset + metadata_table_entry.item_offset as u64;
+                    metadata_table_entry.get_offset_in_region(metadata_region.data_offset)?;
 
                 keramics_core::data_stream_read_at_position!(
                     data_stream,
@@ -499,7 +503,7 @@ impl VhdxFile {
             Some(metadata_table_entry) => {
                 let mut parent_locator: VhdxParentLocator = VhdxParentLocator::new();
                 let metadata_item_offset: u64 =
-                    metadata_region.data_offset + metadata_table_entry.item_offset as u64;
+                    metadata_table_entry.get_offset_in_region(metadata_region.data_offset)?;
 
                 match parent_locator.read_at_position(
                     data_stream,
diff --git a/keramics-formats/src/vhdx/metadata_table_entry.rs b/keramics-formats/src/vhdx/metadata_table_entry.rs
index b566a6a..e1abb1c 100644
--- a/keramics-formats/src/vhdx/metadata_table_entry.rs
+++ b/keramics-formats/src/vhdx/metadata_table_entry.rs
@@ -48,6 +48,17 @@ impl VhdxMetadataTableEntry {
         }
     }
 
+    /// Determines the offset of the item based on the offset of the metadata region.
+    pub fn get_offset_in_region(&self, region_offset: u64) -> Result<u64, ErrorTrace> {
+        match region_offset.checked_add(self.item_offset as u64) {
+            Some(offset) => Ok(offset),
+            None => Err(keramics_core::error_trace_new!(format!(
+                "Invalid metadata region offset: 0x{:08x} value out of bounds",
+                region_offset
+            ))),
+        }
+    }
+
     /// Reads the metadata table entry from a buffer.
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         if data.len() != 32 {
diff --git a/keramics-formats/src/vhdx/metadata_table_header.rs b/keramics-formats/src/vhdx/metadata_table_header.rs
index 43cacb8..25d8c3c 100644
--- a/keramics-formats/src/vhdx/metadata_table_header.rs
+++ b/keramics-formats/src/vhdx/metadata_table_header.rs
@@ -56,6 +56,13 @@ impl VhdxMetadataTableHeader {
         }
         self.number_of_entries = bytes_to_u16_le!(data, 10);
 
+        if self.number_of_entries > 2047 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                self.number_of_entries,
+            )));
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 0c4939c23f47dbb99079dfd942a5bf43925656a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 062/169] fix: disk type of VHDX files and blocks of dynamic
 disks beyond the first chunk

---
 keramics-formats/src/vhdx/file.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index a725046..87b1ca4 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -318,10 +318,9 @@ impl VhdxFile {
 
                 self.block_size = bytes_to_u32_le!(data, 0);
                 self.disk_type = match file_parameters_flags & 0x00000003 {
-                    0 => VhdxDiskType::Fixed,
-                    1 => VhdxDiskType::Dynamic,
-                    2 => VhdxDiskType::Differential,
-                    _ => VhdxDiskType::Unknown,
+                    0 => VhdxDiskType::Dynamic,
+                    1 => VhdxDiskType::Fixed,
+                    _ => VhdxDiskType::Differential,
                 };
                 if self.mediator.debug_output {
                     self.mediator.debug_print(format!(
@@ -574,12 +573,10 @@ impl VhdxFile {
                 return Err(keramics_core::error_trace_new!("Missing data stream"));
             }
         };
-        let table_entry: u64 = if self.disk_type == VhdxDiskType::Fixed {
-            block_number
-        } else {
-            ((block_number / self.entries_per_chunk) * (self.entries_per_chunk + 1))
-                + (block_number % self.entries_per_chunk)
-        };
+        // Note that every chunk is followed by a sector bitmap entry, used or not.
+        let table_entry: u64 = ((block_number / self.entries_per_chunk)
+            * (self.entries_per_chunk + 1))
+            + (block_number % self.entries_per_chunk);
         let block_allocation_table: &VhdxBlockAllocationTable =
             self.block_allocation_table.as_ref().unwrap();
 
-- 
2.43.0


From df9f417b79d0677200792ba2b741f6e6904fa42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 063/169] fix: blocks of differential VHDX disks that are not
 partially present

---
 keramics-formats/src/vhdx/file.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 87b1ca4..b659c10 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -591,7 +591,7 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
-        if self.disk_type == VhdxDiskType::Differential && entry.block_state != 6 {
+        if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -602,7 +602,16 @@ impl VhdxFile {
         } else {
             let block_media_offset: u64 = block_number * (self.block_size as u64);
 
-            let block_range: VhdxBlockRange = if entry.block_state < 6 {
+            let block_range: VhdxBlockRange = if entry.block_state == 0
+                && self.disk_type == VhdxDiskType::Differential
+            {
+                VhdxBlockRange::new(
+                    block_media_offset,
+                    0,
+                    self.block_size as u64,
+                    VhdxBlockRangeType::InParent,
+                )
+            } else if entry.block_state < 6 {
                 VhdxBlockRange::new(
                     block_media_offset,
                     0,
@@ -663,6 +672,12 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
+        if entry.block_state != 6 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Missing sector bitmap of block: {}",
+                block_number
+            )));
+        }
         let sector_bitmap_offset: u64 = entry.block_offset
             + ((block_number % self.entries_per_chunk) * self.sector_bitmap_size as u64);
 
-- 
2.43.0


From a4d469f61f9c7cda543c74a0cb7ff6080c75ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 064/169] fix: reading across partially present VHDX blocks

---
 keramics-formats/src/vhdx/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index b659c10..9a6c58b 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -733,7 +733,6 @@ impl VhdxFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -743,6 +742,8 @@ impl VhdxFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -813,8 +814,6 @@ impl VhdxFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From e761be958c8083e3037f30a76f2188183ee263fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 065/169] fix: reading a differential VHDX disk that is larger
 than its parent

---
 keramics-formats/src/vhdx/file.rs | 32 +++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 9a6c58b..3a5a206 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -64,6 +64,9 @@ pub struct VhdxFile {
     /// Parent file.
     parent_file: Option<Arc<RwLock<VhdxFile>>>,
 
+    /// Media size of the parent file.
+    parent_media_size: u64,
+
     /// Bytes per sector.
     pub bytes_per_sector: u16,
 
@@ -97,6 +100,7 @@ impl VhdxFile {
             parent_identifier: None,
             parent_name: None,
             parent_file: None,
+            parent_media_size: 0,
             bytes_per_sector: 0,
             block_size: 0,
             entries_per_chunk: 0,
@@ -796,12 +800,22 @@ impl VhdxFile {
                             return Err(keramics_core::error_trace_new!("Missing parent file"));
                         }
                     };
-                    let read_count: usize = keramics_core::data_stream_read_at_position!(
-                        parent_file,
-                        &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(media_offset)
-                    );
-                    read_count
+                    // Data beyond the end of the parent reads as zeros.
+                    let parent_remainder_size: u64 =
+                        self.parent_media_size.saturating_sub(media_offset);
+
+                    if parent_remainder_size == 0 {
+                        data[data_offset..data_end_offset].fill(0);
+
+                        range_read_size
+                    } else {
+                        let read_count: usize = keramics_core::data_stream_read_at_position!(
+                            parent_file,
+                            &mut data[data_offset..data_end_offset],
+                            SeekFrom::Start(media_offset)
+                        );
+                        read_count
+                    }
                 }
                 VhdxBlockRangeType::Sparse => {
                     data[data_offset..data_end_offset].fill(0);
@@ -826,7 +840,7 @@ impl VhdxFile {
                 return Err(keramics_core::error_trace_new!("Missing parent identifier"));
             }
         };
-        match parent_file.read() {
+        let parent_media_size: u64 = match parent_file.read() {
             Ok(file) => {
                 if *parent_identifier != file.identifier {
                     return Err(keramics_core::error_trace_new!(format!(
@@ -835,6 +849,7 @@ impl VhdxFile {
                         file.identifier.to_string(),
                     )));
                 }
+                file.media_size
             }
             Err(error) => {
                 return Err(keramics_core::error_trace_new_with_error!(
@@ -842,7 +857,8 @@ impl VhdxFile {
                     error
                 ));
             }
-        }
+        };
+        self.parent_media_size = parent_media_size;
         self.parent_file = Some(parent_file.clone());
 
         Ok(())
-- 
2.43.0


From dff1cfa4f2f54561c744a7ac52de4cef8087f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 066/169] fix: endless loop when a VHDX file is its own
 ancestor

---
 keramics-formats/src/vhdx/image.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/keramics-formats/src/vhdx/image.rs b/keramics-formats/src/vhdx/image.rs
index f0a9fd3..f4d33b5 100644
--- a/keramics-formats/src/vhdx/image.rs
+++ b/keramics-formats/src/vhdx/image.rs
@@ -129,6 +129,15 @@ impl VhdxImage {
             }
             files.push(file);
 
+            if files
+                .iter()
+                .any(|file| file.identifier == parent_file.identifier)
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Parent file: {} is already a layer of the image",
+                    parent_file_name
+                )));
+            }
             file = parent_file;
         }
         files.push(file);
-- 
2.43.0


From 2217f08feb0e58dcef23e0fca378b8b9bcb4a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 067/169] fix: out of bounds block offsets in VHDX block
 allocation tables

---
 keramics-formats/src/vhdx/block_allocation_table.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keramics-formats/src/vhdx/block_allocation_table.rs b/keramics-formats/src/vhdx/block_allocation_table.rs
index bc0c4c9..a06224b 100644
--- a/keramics-formats/src/vhdx/block_allocation_table.rs
+++ b/keramics-formats/src/vhdx/block_allocation_table.rs
@@ -58,6 +58,14 @@ impl VhdxBlockAllocationTableEntry {
         self.block_state = (entry & 0x0000000000000007) as u8;
         self.block_offset = entry & 0xfffffffffff00000;
 
+        // Note that a block is at most 256 MiB.
+        if self.block_offset > (i64::MAX as u64) - (256 * 1024 * 1024) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block offset: 0x{:08x} value out of bounds",
+                self.block_offset
+            )));
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 9273792c5f90b81caab848e3de33372fdd42ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 068/169] fix: UDIF sparse block ranges are not part of the
 data fork

---
 keramics-formats/src/udif/file.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index b37fef4..a0fc2f6 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -236,16 +236,21 @@ impl UdifFile {
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_offset < file_footer.data_fork_offset
-                        || block_table_entry.data_offset >= data_fork_end_offset
+                    // Note that sparse data is not stored in the data fork.
+                    let has_data: bool = !matches!(block_table_entry.entry_type, 0 | 2);
+
+                    if has_data
+                        && (block_table_entry.data_offset < file_footer.data_fork_offset
+                            || block_table_entry.data_offset >= data_fork_end_offset)
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data offset value out of bounds",
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_size
-                        > data_fork_end_offset - block_table_entry.data_offset
+                    if has_data
+                        && block_table_entry.data_size
+                            > data_fork_end_offset - block_table_entry.data_offset
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data size value out of bounds",
-- 
2.43.0


From 908b6f986f72e81159a882acda34445e09e4c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 069/169] fix: UDIF cached blocks were mixed up when block
 ranges share a data offset

---
 keramics-formats/src/udif/file.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index a0fc2f6..0a2fb06 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -383,7 +383,7 @@ impl UdifFile {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut data: Vec<u8> = vec![0; block_range.size as usize];
 
                         match self.read_compressed_block(block_range, &mut data) {
@@ -396,9 +396,9 @@ impl UdifFile {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, data);
+                        self.block_cache.insert(block_range.media_offset, data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
-- 
2.43.0


From d4893ca2414e258deb050c9861d5b01112d5d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 070/169] fix: Check bounds of UDIF data fork and block ranges

---
 keramics-formats/src/udif/file.rs | 45 ++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 0a2fb06..f64629c 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -26,7 +26,11 @@ use super::block_table::UdifBlockTable;
 use super::enums::UdifCompressionMethod;
 use super::file_footer::UdifFileFooter;
 
-const MAXIMUM_NUMBER_OF_SECTORS: u64 = u64::MAX / 512;
+/// Maximum number of sectors, where the media size is limited to a 64-bit signed integer.
+const MAXIMUM_NUMBER_OF_SECTORS: u64 = (i64::MAX as u64) / 512;
+
+/// Maximum compressed data size.
+const MAXIMUM_COMPRESSED_DATA_SIZE: u64 = 8 * 1024 * 1024;
 
 /// Universal Disk Image Format (UDIF) file.
 pub struct UdifFile {
@@ -108,6 +112,14 @@ impl UdifFile {
         }
         self.bytes_per_sector = 512;
 
+        // Note that offsets in the media and the data stream are limited to a 64-bit signed integer.
+        if file_footer.data_fork_offset > i64::MAX as u64
+            || file_footer.data_fork_size > i64::MAX as u64 - file_footer.data_fork_offset
+        {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported data fork value out of bounds"
+            ));
+        }
         let data_fork_end_offset: u64 = file_footer.data_fork_offset + file_footer.data_fork_size;
 
         if file_footer.plist_size == 0 {
@@ -229,7 +241,8 @@ impl UdifFile {
                         )));
                     }
                     if block_table_entry.number_of_sectors == 0
-                        || block_table_entry.number_of_sectors > MAXIMUM_NUMBER_OF_SECTORS
+                        || block_table_entry.number_of_sectors
+                            > MAXIMUM_NUMBER_OF_SECTORS - media_sector
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} number of sectors value out of bounds",
@@ -268,13 +281,21 @@ impl UdifFile {
                             0,
                             UdifBlockRangeType::Sparse,
                         ),
-                        0x00000001 => UdifBlockRange::new(
-                            media_offset,
-                            block_table_entry.data_offset,
-                            media_size,
-                            0,
-                            UdifBlockRangeType::InFile,
-                        ),
+                        0x00000001 => {
+                            if media_size > data_fork_end_offset - block_table_entry.data_offset {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Unsupported block table: {} entry: {} number of sectors value out of bounds",
+                                    table_index, entry_index,
+                                )));
+                            }
+                            UdifBlockRange::new(
+                                media_offset,
+                                block_table_entry.data_offset,
+                                media_size,
+                                0,
+                                UdifBlockRangeType::InFile,
+                            )
+                        }
                         0x80000004..0x80000008 => {
                             if block_table_entry.number_of_sectors > 2048 {
                                 return Err(keramics_core::error_trace_new!(format!(
@@ -282,6 +303,12 @@ impl UdifFile {
                                     table_index, entry_index,
                                 )));
                             }
+                            if block_table_entry.data_size > MAXIMUM_COMPRESSED_DATA_SIZE {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Unsupported compressed block table: {} entry: {} data size value out of bounds",
+                                    table_index, entry_index,
+                                )));
+                            }
                             if compressed_entry_type == 0 {
                                 compressed_entry_type = block_table_entry.entry_type;
                             } else if block_table_entry.entry_type != compressed_entry_type {
-- 
2.43.0


From 7f46a4e91092ae0b888b1445192241d49683a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 071/169] fix: Memory usage of UDIF block ranges grew with the
 media size

---
 keramics-formats/src/udif/file.rs | 41 +++++++++----------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index f64629c..764d8ae 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -17,7 +17,6 @@ use keramics_compression::{AdcContext, Bzip2Context, LzfseContext, ZlibContext};
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
 
-use crate::block_tree::BlockTree;
 use crate::lru_cache::LruCache;
 use crate::plist::{PlistObject, XmlPlist};
 
@@ -46,8 +45,8 @@ pub struct UdifFile {
     /// Value to indicate the file has block ranges.
     has_block_ranges: bool,
 
-    /// Block tree.
-    block_tree: BlockTree<UdifBlockRange>,
+    /// Block ranges.
+    block_ranges: Vec<UdifBlockRange>,
 
     /// Decompressed block cache.
     block_cache: LruCache<u64, Vec<u8>>,
@@ -73,7 +72,7 @@ impl UdifFile {
             data_stream: None,
             data_fork_offset: 0,
             has_block_ranges: false,
-            block_tree: BlockTree::<UdifBlockRange>::new(0, 0, 0),
+            block_ranges: Vec::new(),
             block_cache: LruCache::new(64),
             bytes_per_sector: 0,
             compression_method: UdifCompressionMethod::None,
@@ -348,29 +347,8 @@ impl UdifFile {
             self.has_block_ranges = true;
             self.media_size = media_offset;
 
-            let block_tree_data_size: u64 =
-                media_sector.div_ceil(16384) * 16384 * self.bytes_per_sector as u64;
-
-            self.block_tree = BlockTree::<UdifBlockRange>::new(
-                block_tree_data_size,
-                16384,
-                self.bytes_per_sector as u64,
-            );
-            while let Some(block_range) = block_ranges.pop() {
-                match self.block_tree.insert_value(
-                    block_range.media_offset,
-                    block_range.size,
-                    block_range,
-                ) {
-                    Ok(_) => {}
-                    Err(error) => {
-                        return Err(keramics_core::error_trace_new_with_error!(
-                            "Unable to insert block range into block tree",
-                            error
-                        ));
-                    }
-                };
-            }
+            // Note that the block ranges are contiguous and sorted by media offset.
+            self.block_ranges = block_ranges;
         }
         Ok(())
     }
@@ -385,9 +363,14 @@ impl UdifFile {
             if media_offset >= self.media_size {
                 break;
             }
-            let block_tree_value: Option<&UdifBlockRange> = self.block_tree.get_value(media_offset);
+            let block_range_index: usize = self
+                .block_ranges
+                .partition_point(|block_range| block_range.media_offset <= media_offset);
 
-            let block_range: &UdifBlockRange = match block_tree_value {
+            let block_range: &UdifBlockRange = match block_range_index
+                .checked_sub(1)
+                .and_then(|index| self.block_ranges.get(index))
+            {
                 Some(value) => value,
                 None => {
                     return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 9e7e90783dc0169d5438a82827b5a161b4bcb72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 072/169] fix: Limit the nesting depth of a XML plist

---
 keramics-formats/src/plist/xmlplist.rs | 56 ++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/keramics-formats/src/plist/xmlplist.rs b/keramics-formats/src/plist/xmlplist.rs
index 662388a..fb54c47 100644
--- a/keramics-formats/src/plist/xmlplist.rs
+++ b/keramics-formats/src/plist/xmlplist.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::max;
 use std::collections::HashMap;
 use std::str::FromStr;
 
@@ -23,6 +24,9 @@ use keramics_encodings::Base64Stream;
 
 use super::object::PlistObject;
 
+/// Maximum number of nested elements.
+const MAXIMUM_NESTING_DEPTH: usize = 256;
+
 #[derive(Parser)]
 #[grammar = "src/plist/xmlplist.pest"]
 struct XmlPlistParser {}
@@ -41,8 +45,60 @@ impl XmlPlist {
         }
     }
 
+    /// Determines the number of nested elements.
+    fn get_nesting_depth(string: &str) -> usize {
+        let mut nesting_depth: usize = 0;
+        let mut maximum_nesting_depth: usize = 0;
+        let mut remainder: &str = string;
+
+        while let Some(index) = remainder.find('<') {
+            remainder = &remainder[index + 1..];
+
+            if remainder.starts_with("!--") {
+                remainder = remainder.split_once("-->").map_or("", |parts| parts.1);
+            } else if remainder.starts_with("![CDATA[") {
+                remainder = remainder.split_once("]]>").map_or("", |parts| parts.1);
+            } else if remainder.starts_with('?') {
+                remainder = remainder.split_once("?>").map_or("", |parts| parts.1);
+            } else if remainder.starts_with('/') {
+                nesting_depth = nesting_depth.saturating_sub(1);
+            } else if !remainder.starts_with('!') {
+                // Look for the end of the tag outside of attribute values.
+                let mut quote: Option<u8> = None;
+                let mut last_byte: u8 = 0;
+
+                for byte_value in remainder.bytes() {
+                    match quote {
+                        Some(quote_byte) => {
+                            if byte_value == quote_byte {
+                                quote = None;
+                            }
+                        }
+                        None if byte_value == b'"' || byte_value == b'\'' => {
+                            quote = Some(byte_value);
+                        }
+                        None if byte_value == b'>' => break,
+                        None => {}
+                    }
+                    last_byte = byte_value;
+                }
+                if last_byte != b'/' {
+                    nesting_depth += 1;
+                    maximum_nesting_depth = max(maximum_nesting_depth, nesting_depth);
+                }
+            }
+        }
+        maximum_nesting_depth
+    }
+
     /// Parses a XML plist.
     pub fn parse(&mut self, string: &str) -> Result<(), ErrorTrace> {
+        // Note that the parser is recursive.
+        if Self::get_nesting_depth(string) > MAXIMUM_NESTING_DEPTH {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported XML plist nesting depth value out of bounds"
+            ));
+        }
         let mut iterator: Pairs<Rule> = match XmlPlistParser::parse(Rule::plist_document, string) {
             Ok(iterator) => iterator,
             Err(error) => {
-- 
2.43.0


From 4e3f3fd5f67975011e9cc55c94b0220ee931e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 073/169] fix: UDIF images larger than about 1 GiB were refused
 due to their plist size

---
 keramics-formats/src/udif/file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 764d8ae..719e487 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -28,6 +28,9 @@ use super::file_footer::UdifFileFooter;
 /// Maximum number of sectors, where the media size is limited to a 64-bit signed integer.
 const MAXIMUM_NUMBER_OF_SECTORS: u64 = (i64::MAX as u64) / 512;
 
+/// Maximum XML plist size.
+const MAXIMUM_PLIST_SIZE: u64 = 64 * 1024 * 1024;
+
 /// Maximum compressed data size.
 const MAXIMUM_COMPRESSED_DATA_SIZE: u64 = 8 * 1024 * 1024;
 
@@ -126,7 +129,7 @@ impl UdifFile {
             self.has_block_ranges = false;
             self.media_size = file_footer.data_fork_size;
         } else {
-            if file_footer.plist_size == 0 || file_footer.plist_size > 65536 {
+            if file_footer.plist_size > MAXIMUM_PLIST_SIZE {
                 return Err(keramics_core::error_trace_new!(
                     "Unsupported plist data size"
                 ));
-- 
2.43.0


From 43303057ba5111c66bb7260ea0c155bb6a291483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 074/169] fix: VHDX block allocation table entries can contain
 any block offset

---
 .../src/vhdx/block_allocation_table.rs           |  8 --------
 keramics-formats/src/vhdx/file.rs                | 16 ++++++++++++++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/vhdx/block_allocation_table.rs b/keramics-formats/src/vhdx/block_allocation_table.rs
index a06224b..bc0c4c9 100644
--- a/keramics-formats/src/vhdx/block_allocation_table.rs
+++ b/keramics-formats/src/vhdx/block_allocation_table.rs
@@ -58,14 +58,6 @@ impl VhdxBlockAllocationTableEntry {
         self.block_state = (entry & 0x0000000000000007) as u8;
         self.block_offset = entry & 0xfffffffffff00000;
 
-        // Note that a block is at most 256 MiB.
-        if self.block_offset > (i64::MAX as u64) - (256 * 1024 * 1024) {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Invalid block offset: 0x{:08x} value out of bounds",
-                self.block_offset
-            )));
-        }
-
         Ok(())
     }
 }
diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 3a5a206..a9ff100 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -595,6 +595,15 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
+        // Note that a block is at most 256 MiB.
+        if entry.block_state >= 6
+            && entry.block_offset > (i64::MAX as u64) - (256 * 1024 * 1024)
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block offset: 0x{:08x} value out of bounds",
+                entry.block_offset
+            )));
+        }
         if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
@@ -682,6 +691,13 @@ impl VhdxFile {
                 block_number
             )));
         }
+        // Note that a sector bitmap block is at most 1 MiB.
+        if entry.block_offset > (i64::MAX as u64) - (1024 * 1024) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block offset: 0x{:08x} value out of bounds",
+                entry.block_offset
+            )));
+        }
         let sector_bitmap_offset: u64 = entry.block_offset
             + ((block_number % self.entries_per_chunk) * self.sector_bitmap_size as u64);
 
-- 
2.43.0


From 8f9bcc4319c4daf6b90c77c30a9ed66fe89f6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 075/169] fix: EWF cached chunks of different segment files
 were mixed up

---
 keramics-formats/src/ewf/image.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 0ee6d0c..9c4bc3f 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -254,7 +254,8 @@ impl EwfImage {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    // Note that chunks of different segment files can have the same data offset.
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut compressed_data: Vec<u8> = vec![0; block_range.data_size as usize];
 
                         match segment_file.read_exact_at_position(
@@ -298,9 +299,10 @@ impl EwfImage {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, block_data);
+                        self.block_cache
+                            .insert(block_range.media_offset, block_data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
-- 
2.43.0


From 115011fbb5f458826a9d43a4367f73d3d56b85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 076/169] fix: EWF images of more than 16 segment files could
 not be read

---
 keramics-formats/src/ewf/image.rs | 138 ++++++++++++++++++++----------
 1 file changed, 91 insertions(+), 47 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 9c4bc3f..2d1b896 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -51,6 +51,12 @@ pub struct EwfImage {
     /// Segment file set identifier.
     pub set_identifier: Uuid,
 
+    /// Segment file name without extension.
+    segment_file_stem: String,
+
+    /// Segment file naming schema.
+    naming_schema: EwfNamingSchema,
+
     /// Segment file cache.
     segment_file_cache: LruCache<u16, EwfFile>,
 
@@ -104,6 +110,8 @@ impl EwfImage {
             mediator: Mediator::current(),
             file_resolver: FileResolverReference::new(Box::new(FakeFileResolver::new())),
             set_identifier: Uuid::new(),
+            segment_file_stem: String::new(),
+            naming_schema: EwfNamingSchema::E01UpperCase,
             segment_file_cache: LruCache::new(16),
             number_of_chunks: 0,
             sectors_per_chunk: 0,
@@ -200,6 +208,67 @@ impl EwfImage {
         Ok(())
     }
 
+    /// Opens a segment file.
+    fn open_segment_file(
+        &self,
+        file_resolver: &FileResolverReference,
+        segment_number: u16,
+    ) -> Result<(EwfFile, String, DataStreamReference), ErrorTrace> {
+        let segment_extension: String =
+            match self.get_segment_file_extension(segment_number, &self.naming_schema) {
+                Ok(extension) => extension,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to determine segment file extension"
+                    );
+                    return Err(error);
+                }
+            };
+        let segment_file_name: String = format!("{}.{}", self.segment_file_stem, segment_extension);
+
+        let path_components: [PathComponent; 1] = [PathComponent::from(&segment_file_name)];
+        let result: Option<DataStreamReference> =
+            match file_resolver.get_data_stream(&path_components) {
+                Ok(result) => result,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        format!("Unable to open segment file: {}", segment_file_name)
+                    );
+                    return Err(error);
+                }
+            };
+        let data_stream: DataStreamReference = match result {
+            Some(data_stream) => data_stream,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "No such segment file: {}",
+                    segment_file_name
+                )));
+            }
+        };
+        let mut segment_file: EwfFile = EwfFile::new();
+
+        match segment_file.read_data_stream(&data_stream) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(
+                    error,
+                    format!("Unable to open segment file: {}", segment_file_name)
+                );
+                return Err(error);
+            }
+        }
+        if segment_file.segment_number != segment_number {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported segment number: {} in segment file: {}",
+                segment_file.segment_number, segment_file_name
+            )));
+        }
+        Ok((segment_file, segment_file_name, data_stream))
+    }
+
     /// Reads media data based on the chunk tables.
     fn read_data_from_blocks(&mut self, data: &mut [u8]) -> Result<usize, ErrorTrace> {
         let read_size: usize = data.len();
@@ -225,8 +294,22 @@ impl EwfImage {
                 .segment_file_cache
                 .contains(&block_range.segment_number)
             {
-                let file: EwfFile = EwfFile::new();
-
+                let (file, _, _) = match self.open_segment_file(
+                    &self.file_resolver,
+                    block_range.segment_number,
+                ) {
+                    Ok(result) => result,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            format!(
+                                "Unable to open segment file: {}",
+                                block_range.segment_number
+                            )
+                        );
+                        return Err(error);
+                    }
+                };
                 self.segment_file_cache
                     .insert(block_range.segment_number, file);
             }
@@ -588,7 +671,7 @@ impl EwfImage {
                 )));
             }
         };
-        let naming_schema: EwfNamingSchema = match extension.as_str() {
+        self.naming_schema = match extension.as_str() {
             "E01" => EwfNamingSchema::E01UpperCase,
             "S01" => EwfNamingSchema::S01UpperCase,
             "e01" => EwfNamingSchema::E01LowerCase,
@@ -600,63 +683,24 @@ impl EwfImage {
                 )));
             }
         };
+        self.segment_file_stem = name;
+
         let mut block_media_offset: u64 = 0;
         let mut last_segment_file: bool = false;
         let mut segment_number: u16 = 1;
 
         while !last_segment_file {
-            let segment_extension: String =
-                match self.get_segment_file_extension(segment_number, &naming_schema) {
-                    Ok(extension) => extension,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to determine segment file extension"
-                        );
-                        return Err(error);
-                    }
-                };
-            let segment_file_name: String = format!("{}.{}", name, segment_extension);
-
-            let path_components: [PathComponent; 1] = [PathComponent::from(&segment_file_name)];
-            let result: Option<DataStreamReference> =
-                match file_resolver.get_data_stream(&path_components) {
+            let (segment_file, segment_file_name, data_stream) =
+                match self.open_segment_file(file_resolver, segment_number) {
                     Ok(result) => result,
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(
                             error,
-                            format!("Unable to open segment file: {}", segment_file_name)
+                            format!("Unable to open segment file: {}", segment_number)
                         );
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such segment file: {}",
-                        segment_file_name
-                    )));
-                }
-            };
-            let mut segment_file: EwfFile = EwfFile::new();
-
-            match segment_file.read_data_stream(&data_stream) {
-                Ok(_) => {}
-                Err(mut error) => {
-                    keramics_core::error_trace_add_frame!(
-                        error,
-                        format!("Unable to open segment file: {}", segment_file_name)
-                    );
-                    return Err(error);
-                }
-            }
-            if segment_file.segment_number != segment_number {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Unsupported segment number: {} in segment file: {}",
-                    segment_file.segment_number, segment_file_name
-                )));
-            }
             match self.read_sections(
                 &segment_file,
                 &segment_file_name,
-- 
2.43.0


From 11c44b33847232dc34de7cc136c8e836e4297d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 077/169] fix: EWF media of 2 TiB or larger was read as a
 smaller media

---
 keramics-formats/src/ewf/image.rs  | 17 ++++++++++++++---
 keramics-formats/src/ewf/volume.rs |  6 +++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 2d1b896..cd1fd3f 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -70,7 +70,7 @@ pub struct EwfImage {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Block (or chunk) size.
     block_size: u32,
@@ -929,7 +929,7 @@ impl EwfImage {
                 self.number_of_chunks = volume.number_of_chunks;
                 self.sectors_per_chunk = volume.sectors_per_chunk;
                 self.bytes_per_sector = volume.bytes_per_sector;
-                self.number_of_sectors = volume.number_of_sectors;
+                self.number_of_sectors = volume.number_of_sectors as u64;
             }
             1128 => {
                 let mut volume: EwfE01Volume = EwfE01Volume::new();
@@ -965,7 +965,18 @@ impl EwfImage {
             }
         }
         self.block_size = self.sectors_per_chunk * self.bytes_per_sector;
-        self.media_size = (self.number_of_sectors as u64) * (self.bytes_per_sector as u64);
+        self.media_size = match self
+            .number_of_sectors
+            .checked_mul(self.bytes_per_sector as u64)
+        {
+            Some(media_size) if media_size <= i64::MAX as u64 => media_size,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of sectors: {} value out of bounds",
+                    self.number_of_sectors
+                )));
+            }
+        };
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
 
diff --git a/keramics-formats/src/ewf/volume.rs b/keramics-formats/src/ewf/volume.rs
index c56d4c7..e9cf842 100644
--- a/keramics-formats/src/ewf/volume.rs
+++ b/keramics-formats/src/ewf/volume.rs
@@ -14,7 +14,7 @@
 use keramics_checksums::Adler32Context;
 use keramics_core::ErrorTrace;
 use keramics_layout_map::LayoutMap;
-use keramics_types::{Uuid, bytes_to_u32_le};
+use keramics_types::{Uuid, bytes_to_u32_le, bytes_to_u64_le};
 
 #[derive(LayoutMap)]
 #[layout_map(
@@ -61,7 +61,7 @@ pub struct EwfE01Volume {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Media flags.
     pub media_flags: u8,
@@ -115,7 +115,7 @@ impl EwfE01Volume {
         self.number_of_chunks = bytes_to_u32_le!(data, 4);
         self.sectors_per_chunk = bytes_to_u32_le!(data, 8);
         self.bytes_per_sector = bytes_to_u32_le!(data, 12);
-        self.number_of_sectors = bytes_to_u32_le!(data, 16);
+        self.number_of_sectors = bytes_to_u64_le!(data, 16);
         self.media_flags = data[36];
         self.compression_level = data[52];
         self.error_granularity = bytes_to_u32_le!(data, 56);
-- 
2.43.0


From 4829d180feffa8d75f527b0f01d1925a250d1667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 078/169] fix: EWF notes stored in the header2 section were
 ignored

---
 keramics-formats/src/ewf/header2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ewf/header2.rs b/keramics-formats/src/ewf/header2.rs
index a8530d2..6de8eef 100644
--- a/keramics-formats/src/ewf/header2.rs
+++ b/keramics-formats/src/ewf/header2.rs
@@ -180,7 +180,7 @@ impl EwfHeader2 {
                 // "sn" => serial number of source media device
                 [0x0073, 0x006e] => EwfHeaderValueType::SerialNumber,
                 // "t" => notes
-                [0x0077] => EwfHeaderValueType::Notes,
+                [0x0074] => EwfHeaderValueType::Notes,
                 // "u" => system date and time
                 [0x0075] => EwfHeaderValueType::SystemDate,
                 _ => EwfHeaderValueType::NotSet,
-- 
2.43.0


From 5cf93470bd611acef149ad770cd8b44112f2d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 079/169] fix: EWF images with well compressible headers were
 refused

---
 keramics-formats/src/ewf/header.rs  |  9 ++++++---
 keramics-formats/src/ewf/header2.rs | 17 ++++++++++-------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/keramics-formats/src/ewf/header.rs b/keramics-formats/src/ewf/header.rs
index ca8ccfc..c6381d1 100644
--- a/keramics-formats/src/ewf/header.rs
+++ b/keramics-formats/src/ewf/header.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
@@ -44,9 +45,9 @@ impl EwfHeader {
     ) -> Result<(), ErrorTrace> {
         let data_size: usize = data.len();
 
-        // On average the uncompressed header will be more than twice as large
-        // as the compressed header.
-        let mut header_data: Vec<u8> = vec![0; data_size * 4];
+        // Note that DEFLATE compresses up to 1032 times and that 16777216 is an arbitrary
+        // chosen limit.
+        let mut header_data: Vec<u8> = vec![0; min(data_size * 1032, 16777216)];
 
         let mut zlib_context: ZlibContext = ZlibContext::new();
 
@@ -57,6 +58,8 @@ impl EwfHeader {
                 return Err(error);
             }
         }
+        header_data.truncate(zlib_context.uncompressed_data_size);
+
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "Uncompressed header data of size: {}\n",
diff --git a/keramics-formats/src/ewf/header2.rs b/keramics-formats/src/ewf/header2.rs
index 6de8eef..decfdf3 100644
--- a/keramics-formats/src/ewf/header2.rs
+++ b/keramics-formats/src/ewf/header2.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
@@ -45,10 +46,9 @@ impl EwfHeader2 {
     ) -> Result<(), ErrorTrace> {
         let data_size: usize = data.len();
 
-        // On average the uncompressed header will be more than twice as large
-        // as the compressed header. Note that the uncompressed header size
-        // should be a multitude of 2 bytes.
-        let mut header2_data: Vec<u8> = vec![0; data_size * 4];
+        // Note that DEFLATE compresses up to 1032 times and that 16777216 is an arbitrary
+        // chosen limit.
+        let mut header2_data: Vec<u8> = vec![0; min(data_size * 1032, 16777216)];
 
         let mut zlib_context: ZlibContext = ZlibContext::new();
 
@@ -59,6 +59,9 @@ impl EwfHeader2 {
                 return Err(error);
             }
         }
+        // Note that the uncompressed header size should be a multitude of 2 bytes.
+        header2_data.truncate(zlib_context.uncompressed_data_size & !1);
+
         if self.mediator.debug_output {
             self.mediator.debug_print(format!(
                 "Uncompressed header2 data of size: {}\n",
@@ -68,13 +71,13 @@ impl EwfHeader2 {
         }
         let mut header2_data_offset: usize = 0;
 
-        let byte_order: ByteOrder = match &header2_data[0..2] {
-            [0xfe, 0xff] => {
+        let byte_order: ByteOrder = match header2_data.as_slice() {
+            [0xfe, 0xff, ..] => {
                 header2_data_offset += 2;
 
                 ByteOrder::BigEndian
             }
-            [0xff, 0xfe] => {
+            [0xff, 0xfe, ..] => {
                 header2_data_offset += 2;
 
                 ByteOrder::LittleEndian
-- 
2.43.0


From 29d9150fb5e718aa63e93ba277286d0d9bccf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 080/169] fix: overflow of date values in the EWF header2
 section

---
 keramics-formats/src/ewf/object_storage.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ewf/object_storage.rs b/keramics-formats/src/ewf/object_storage.rs
index a1c227a..aa26e0c 100644
--- a/keramics-formats/src/ewf/object_storage.rs
+++ b/keramics-formats/src/ewf/object_storage.rs
@@ -125,16 +125,19 @@ impl<'a> EwfUtf16ObjectStorage<'a> {
 
     /// Parses an object storage date value.
     pub fn parse_date_value(value: &[u16]) -> Option<i32> {
+        if value.is_empty() {
+            return None;
+        }
         // Note that the EnCase documentation indicates that the Date type is unsigned.
         let mut timestamp: i32 = 0;
 
         for value_16bit in value.iter() {
-            timestamp *= 10;
-
             if *value_16bit < 0x0030 || *value_16bit > 0x0039 {
                 return None;
             }
-            timestamp += *value_16bit as i32 - 0x0030;
+            timestamp = timestamp
+                .checked_mul(10)?
+                .checked_add(*value_16bit as i32 - 0x0030)?;
         }
         Some(timestamp)
     }
-- 
2.43.0


From c5ae70841619d9fecbae8f280b77209aac29c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 081/169] fix: EWF-S01 images and EWF images with chunks in the
 table section were refused

---
 keramics-formats/src/ewf/image.rs |  9 ++++
 keramics-formats/src/ewf/table.rs | 69 +++++++++++++++++++------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index cd1fd3f..06f26a8 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -72,6 +72,9 @@ pub struct EwfImage {
     /// Number of sectors.
     pub number_of_sectors: u64,
 
+    /// Value to indicate the table entries are followed by a footer.
+    has_table_footer: bool,
+
     /// Block (or chunk) size.
     block_size: u32,
 
@@ -117,6 +120,7 @@ impl EwfImage {
             sectors_per_chunk: 0,
             bytes_per_sector: 0,
             number_of_sectors: 0,
+            has_table_footer: true,
             block_size: 0,
             block_tree: BlockTree::<EwfBlockRange>::new(0, 0, 0),
             block_cache: LruCache::new(64),
@@ -620,6 +624,7 @@ impl EwfImage {
                 }
                 &EWF_SECTION_TYPE_TABLE2 => {
                     let mut table2: EwfTable = EwfTable::new();
+                    table2.has_footer = self.has_table_footer;
 
                     match table2.read_at_position(
                         &data_stream,
@@ -739,6 +744,7 @@ impl EwfImage {
         let mut safe_block_media_offset: u64 = *block_media_offset;
 
         let mut table: EwfTable = EwfTable::new();
+        table.has_footer = self.has_table_footer;
 
         match table.read_at_position(
             &data_stream,
@@ -930,6 +936,9 @@ impl EwfImage {
                 self.sectors_per_chunk = volume.sectors_per_chunk;
                 self.bytes_per_sector = volume.bytes_per_sector;
                 self.number_of_sectors = volume.number_of_sectors as u64;
+
+                // Note that the EWF specification does not define a table footer.
+                self.has_table_footer = false;
             }
             1128 => {
                 let mut volume: EwfE01Volume = EwfE01Volume::new();
diff --git a/keramics-formats/src/ewf/table.rs b/keramics-formats/src/ewf/table.rs
index 4eedf34..6908bd3 100644
--- a/keramics-formats/src/ewf/table.rs
+++ b/keramics-formats/src/ewf/table.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 
 use keramics_checksums::Adler32Context;
@@ -26,6 +27,9 @@ pub struct EwfTable {
     /// Mediator.
     mediator: MediatorReference,
 
+    /// Value to indicate the table entries are followed by a footer.
+    pub has_footer: bool,
+
     /// Base offset.
     pub base_offset: u64,
 
@@ -38,6 +42,7 @@ impl EwfTable {
     pub fn new() -> Self {
         Self {
             mediator: Mediator::current(),
+            has_footer: true,
             base_offset: 0,
             entries: Vec::new(),
         }
@@ -65,32 +70,43 @@ impl EwfTable {
 
         let mut data_offset: usize = 24;
         let footer_offset: usize = 24 + (table_header.number_of_entries as usize * 4);
-        let footer_end_offset: usize = footer_offset + 4;
-
-        let mut table_footer: EwfTableFooter = EwfTableFooter::new();
-
-        if self.mediator.debug_output {
-            self.mediator.debug_print(EwfTableFooter::debug_read_data(
-                &data[footer_offset..footer_end_offset],
-            ));
-        }
-        match table_footer.read_data(&data[footer_offset..footer_end_offset]) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
-                return Err(error);
-            }
-        }
-        let mut adler32_context: Adler32Context = Adler32Context::new(1);
-        adler32_context.update(&data[data_offset..footer_offset]);
-        let calculated_checksum: u32 = adler32_context.finalize();
-
-        if table_footer.checksum != calculated_checksum {
+        let footer_end_offset: usize = if self.has_footer {
+            footer_offset + 4
+        } else {
+            footer_offset
+        };
+        if footer_end_offset > data.len() {
             return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
-                table_footer.checksum, calculated_checksum
+                "Invalid number of entries: {} value out of bounds",
+                table_header.number_of_entries
             )));
         }
+        if self.has_footer {
+            let mut table_footer: EwfTableFooter = EwfTableFooter::new();
+
+            if self.mediator.debug_output {
+                self.mediator.debug_print(EwfTableFooter::debug_read_data(
+                    &data[footer_offset..footer_end_offset],
+                ));
+            }
+            match table_footer.read_data(&data[footer_offset..footer_end_offset]) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to read table footer");
+                    return Err(error);
+                }
+            }
+            let mut adler32_context: Adler32Context = Adler32Context::new(1);
+            adler32_context.update(&data[data_offset..footer_offset]);
+            let calculated_checksum: u32 = adler32_context.finalize();
+
+            if table_footer.checksum != calculated_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} checksums",
+                    table_footer.checksum, calculated_checksum
+                )));
+            }
+        }
         for entry_index in 0..table_header.number_of_entries {
             let data_end_offset: usize = data_offset + 4;
 
@@ -125,14 +141,15 @@ impl EwfTable {
         data_size: u64,
         position: SeekFrom,
     ) -> Result<(), ErrorTrace> {
-        // Note that 16777216 is an arbitrary chosen limit.
-        if data_size < 28 || data_size > 16777216 {
+        if data_size < 28 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported table data size: {} value out of bounds",
                 data_size
             )));
         }
-        let mut data: Vec<u8> = vec![0; data_size as usize];
+        // Note that the chunks can be stored in the table section and that 16777216 is
+        // an arbitrary chosen limit.
+        let mut data: Vec<u8> = vec![0; min(data_size, 16777216) as usize];
 
         let offset: u64 =
             keramics_core::data_stream_read_exact_at_position!(data_stream, &mut data, position);
-- 
2.43.0


From 58bfd6c7fba5834b68017914a3e99106827b0fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 082/169] fix: out of bounds values in EWF sections

---
 keramics-formats/src/ewf/error2.rs |  8 ++++-
 keramics-formats/src/ewf/image.rs  | 54 +++++++++++++++++++++++-------
 2 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/keramics-formats/src/ewf/error2.rs b/keramics-formats/src/ewf/error2.rs
index cc4e9eb..aaf49c8 100644
--- a/keramics-formats/src/ewf/error2.rs
+++ b/keramics-formats/src/ewf/error2.rs
@@ -61,6 +61,12 @@ impl EwfError2 {
         let footer_offset: usize = 520 + (error2_header.number_of_entries as usize * 8);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                error2_header.number_of_entries
+            )));
+        }
         let mut error2_footer: EwfError2Footer = EwfError2Footer::new();
 
         if self.mediator.debug_output {
@@ -120,7 +126,7 @@ impl EwfError2 {
         position: SeekFrom,
     ) -> Result<(), ErrorTrace> {
         // Note that 16777216 is an arbitrary chosen limit.
-        if data_size < 28 || data_size > 16777216 {
+        if data_size < 524 || data_size > 16777216 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported error2 data size: {} value out of bounds",
                 data_size
diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 06f26a8..b0e5f5f 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 
@@ -343,7 +344,12 @@ impl EwfImage {
 
                     // Note that chunks of different segment files can have the same data offset.
                     if !self.block_cache.contains(&block_range.media_offset) {
-                        let mut compressed_data: Vec<u8> = vec![0; block_range.data_size as usize];
+                        // Note that the size of the last chunk of a table can be too large.
+                        let compressed_data_size: u64 = min(
+                            block_range.data_size as u64,
+                            ((self.block_size as u64) * 2) + 65536,
+                        );
+                        let mut compressed_data: Vec<u8> = vec![0; compressed_data_size as usize];
 
                         match segment_file.read_exact_at_position(
                             &mut compressed_data,
@@ -762,6 +768,12 @@ impl EwfImage {
         if number_of_entries == 0 {
             return Err(keramics_core::error_trace_new!("Missing table entries"));
         }
+        if table.base_offset > i64::MAX as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid table base offset: 0x{:08x} value out of bounds",
+                table.base_offset
+            )));
+        }
         let mut table_entry: &EwfTableEntry = &table.entries[0];
         let mut chunk_data_offset_overflow: bool = false;
 
@@ -794,14 +806,11 @@ impl EwfImage {
                 }
                 next_table_entry.chunk_data_offset - chunk_data_offset
             } else {
-                if self.mediator.debug_output {
-                    self.mediator.debug_print(format!(
-                        "EwfImage table entry: {} current offset: {} larger than next offset: {}",
-                        table_entry_index, chunk_data_offset, next_chunk_data_offset
-                    ));
-                }
                 // TODO: handle corrupted table entry
-                todo!();
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid table entry: {} current offset: {} larger than next offset: {}",
+                    table_entry_index, chunk_data_offset, next_chunk_data_offset
+                )));
             };
             let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
                 EwfBlockRangeType::Compressed
@@ -868,7 +877,15 @@ impl EwfImage {
             None => section_header.next_offset,
         };
         let last_chunk_data_size: u32 =
-            (last_chunk_data_end_offset - last_chunk_data_offset) as u32;
+            match last_chunk_data_end_offset.checked_sub(last_chunk_data_offset) {
+                Some(size) => min(size, u32::MAX as u64) as u32,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid last table entry offset: {} value out of bounds",
+                        last_chunk_data_offset
+                    )));
+                }
+            };
 
         let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
             EwfBlockRangeType::Compressed
@@ -973,7 +990,16 @@ impl EwfImage {
                 )));
             }
         }
-        self.block_size = self.sectors_per_chunk * self.bytes_per_sector;
+        // Note that 134217728 is an arbitrary chosen limit, for 32768 sectors of 4096 bytes.
+        self.block_size = match self.sectors_per_chunk.checked_mul(self.bytes_per_sector) {
+            Some(block_size) if block_size > 0 && block_size <= 134217728 => block_size,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid sectors per chunk: {} or bytes per sector: {} value out of bounds",
+                    self.sectors_per_chunk, self.bytes_per_sector
+                )));
+            }
+        };
         self.media_size = match self
             .number_of_sectors
             .checked_mul(self.bytes_per_sector as u64)
@@ -987,12 +1013,16 @@ impl EwfImage {
             }
         };
 
+        // Note that the memory usage of the cache is limited to 64 MiB or 1 block.
+        let number_of_cached_blocks: usize = (67108864 / self.block_size).clamp(1, 64) as usize;
+        self.block_cache = LruCache::new(number_of_cached_blocks);
+
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
 
         self.block_tree = BlockTree::<EwfBlockRange>::new(
             block_tree_data_size,
-            self.sectors_per_chunk as u64,
-            self.bytes_per_sector as u64,
+            256,
+            self.block_size as u64,
         );
         Ok(())
     }
-- 
2.43.0


From 09c03f3d3e634bc1d2036a67be65fedd1601304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 083/169] Revert "fix: EWF notes stored in the header2 section
 were ignored"

This reverts commit 4829d180feffa8d75f527b0f01d1925a250d1667.
---
 keramics-formats/src/ewf/header2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ewf/header2.rs b/keramics-formats/src/ewf/header2.rs
index decfdf3..be3080c 100644
--- a/keramics-formats/src/ewf/header2.rs
+++ b/keramics-formats/src/ewf/header2.rs
@@ -183,7 +183,7 @@ impl EwfHeader2 {
                 // "sn" => serial number of source media device
                 [0x0073, 0x006e] => EwfHeaderValueType::SerialNumber,
                 // "t" => notes
-                [0x0074] => EwfHeaderValueType::Notes,
+                [0x0077] => EwfHeaderValueType::Notes,
                 // "u" => system date and time
                 [0x0075] => EwfHeaderValueType::SystemDate,
                 _ => EwfHeaderValueType::NotSet,
-- 
2.43.0


From 744d7a272fb6e6daa4227d6bb2d88fe3c0bbbdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 084/169] fix: upper 16 bits of FAT-32 data start cluster were
 ignored

---
 keramics-formats/src/ewf/image.rs             | 37 ++++++++-----------
 keramics-formats/src/fat/file_entry.rs        | 22 +++++++++--
 .../src/fat/short_name_directory_entry.rs     |  7 +++-
 3 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index b0e5f5f..81f5e1c 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -299,22 +299,20 @@ impl EwfImage {
                 .segment_file_cache
                 .contains(&block_range.segment_number)
             {
-                let (file, _, _) = match self.open_segment_file(
-                    &self.file_resolver,
-                    block_range.segment_number,
-                ) {
-                    Ok(result) => result,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            format!(
-                                "Unable to open segment file: {}",
-                                block_range.segment_number
-                            )
-                        );
-                        return Err(error);
-                    }
-                };
+                let (file, _, _) =
+                    match self.open_segment_file(&self.file_resolver, block_range.segment_number) {
+                        Ok(result) => result,
+                        Err(mut error) => {
+                            keramics_core::error_trace_add_frame!(
+                                error,
+                                format!(
+                                    "Unable to open segment file: {}",
+                                    block_range.segment_number
+                                )
+                            );
+                            return Err(error);
+                        }
+                    };
                 self.segment_file_cache
                     .insert(block_range.segment_number, file);
             }
@@ -1019,11 +1017,8 @@ impl EwfImage {
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
 
-        self.block_tree = BlockTree::<EwfBlockRange>::new(
-            block_tree_data_size,
-            256,
-            self.block_size as u64,
-        );
+        self.block_tree =
+            BlockTree::<EwfBlockRange>::new(block_tree_data_size, 256, self.block_size as u64);
         Ok(())
     }
 }
diff --git a/keramics-formats/src/fat/file_entry.rs b/keramics-formats/src/fat/file_entry.rs
index 09668ba..0e02cb2 100644
--- a/keramics-formats/src/fat/file_entry.rs
+++ b/keramics-formats/src/fat/file_entry.rs
@@ -21,6 +21,7 @@ use super::block_stream::FatBlockStream;
 use super::constants::*;
 use super::directory_entries::FatDirectoryEntries;
 use super::directory_entry::FatDirectoryEntry;
+use super::enums::FatFormat;
 use super::string::FatString;
 
 /// File Allocation Table (FAT) file entry.
@@ -75,6 +76,19 @@ impl FatFileEntry {
         }
     }
 
+    /// Retrieves the data start cluster.
+    fn get_data_start_cluster(&self, directory_entry: &FatDirectoryEntry) -> u32 {
+        let data_start_cluster: u32 = directory_entry.short_name.data_start_cluster as u32;
+
+        match &self.block_allocation_table.format {
+            FatFormat::Fat32 => {
+                ((directory_entry.short_name.data_start_cluster_upper as u32) << 16)
+                    | data_start_cluster
+            }
+            _ => data_start_cluster,
+        }
+    }
+
     /// Retrieves the file attribute flags.
     pub fn get_file_attribute_flags(&self) -> u8 {
         match self.directory_entry.as_ref() {
@@ -117,9 +131,9 @@ impl FatFileEntry {
         if self.is_directory() {
             return Ok(None);
         }
-        let (data_start_cluster, data_size): (u16, u32) = match self.directory_entry.as_ref() {
+        let (data_start_cluster, data_size): (u32, u32) = match self.directory_entry.as_ref() {
             Some(directory_entry) => (
-                directory_entry.short_name.data_start_cluster,
+                self.get_data_start_cluster(directory_entry),
                 directory_entry.short_name.data_size,
             ),
             None => (0, 0),
@@ -130,7 +144,7 @@ impl FatFileEntry {
         match block_stream.open(
             &self.data_stream,
             &self.block_allocation_table,
-            data_start_cluster as u32,
+            data_start_cluster,
         ) {
             Ok(_) => {}
             Err(mut error) => {
@@ -253,7 +267,7 @@ impl FatFileEntry {
     /// Reads the sub directory entries.
     fn read_sub_directory_entries(&mut self) -> Result<(), ErrorTrace> {
         let cluster_block_number: u32 = match &self.directory_entry {
-            Some(directory_entry) => directory_entry.short_name.data_start_cluster as u32,
+            Some(directory_entry) => self.get_data_start_cluster(directory_entry),
             None => {
                 return Err(keramics_core::error_trace_new!("Missing directory entry"));
             }
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index ee587c3..9f664ce 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -29,7 +29,7 @@ use super::constants::*;
         field(name = "flags", data_type = "u8", format = "hex"),
         field(name = "creation_time", data_type = "FatTimeDate10Ms"),
         field(name = "access_date", data_type = "FatDate"),
-        field(name = "unknown2", data_type = "[u8; 2]", format = "hex"),
+        field(name = "data_start_cluster_upper", data_type = "u16"),
         field(name = "modification_time", data_type = "FatTimeDate"),
         field(name = "data_start_cluster", data_type = "u16"),
         field(name = "data_size", data_type = "u32"),
@@ -60,6 +60,9 @@ pub struct FatShortNameDirectoryEntry {
     /// Data start cluster.
     pub data_start_cluster: u16,
 
+    /// Upper 16-bit of the data start cluster, which is only used by FAT-32.
+    pub data_start_cluster_upper: u16,
+
     /// Data size.
     pub data_size: u32,
 }
@@ -75,6 +78,7 @@ impl FatShortNameDirectoryEntry {
             access_time: DateTime::NotSet,
             modification_time: DateTime::NotSet,
             data_start_cluster: 0,
+            data_start_cluster_upper: 0,
             data_size: 0,
         }
     }
@@ -121,6 +125,7 @@ impl FatShortNameDirectoryEntry {
         self.access_time = DateTime::FatDate(FatDate::from_bytes(&data[18..20]));
         self.modification_time = DateTime::FatTimeDate(FatTimeDate::from_bytes(&data[22..26]));
 
+        self.data_start_cluster_upper = bytes_to_u16_le!(data, 20);
         self.data_start_cluster = bytes_to_u16_le!(data, 26);
         self.data_size = bytes_to_u32_le!(data, 28);
 
-- 
2.43.0


From 9737785c28c8d68e7870e122983191e2be65b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 085/169] fix: reserved bits of FAT-32 allocation table entries
 were used

---
 keramics-formats/src/fat/block_allocation_table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index 30da809..1423e68 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -106,9 +106,8 @@ impl FatBlockAllocationTable {
                 }
             }
             FatFormat::Fat16 => bytes_to_u16_le!(data, 0) as u32,
-            FatFormat::Fat32 => {
-                bytes_to_u32_le!(data, 0)
-            }
+            // Note that the upper 4 bits of a FAT-32 entry are reserved.
+            FatFormat::Fat32 => bytes_to_u32_le!(data, 0) & 0x0fffffff,
         };
         if self.mediator.debug_output {
             self.mediator
-- 
2.43.0


From e439a07a2804bac2e17a08bde3e20c49894cad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 086/169] fix: last clusters of a FAT volume could not be read

---
 .../src/fat/block_allocation_table.rs         |  6 ++---
 keramics-formats/src/fat/file_system.rs       | 23 ++++++++++++++-----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index 1423e68..e8abf16 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -62,9 +62,9 @@ impl FatBlockAllocationTable {
     /// Retrieves the largest cluster block number.
     pub fn get_largest_cluster_block_number(&self) -> u32 {
         match &self.format {
-            FatFormat::Fat12 => 0x00000ff0,
-            FatFormat::Fat16 => 0x0000fff0,
-            FatFormat::Fat32 => 0x0ffffff0,
+            FatFormat::Fat12 => 0x00000ff7,
+            FatFormat::Fat16 => 0x0000fff7,
+            FatFormat::Fat32 => 0x0ffffff7,
         }
     }
 
diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index b0f846a..dee4772 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -368,11 +368,21 @@ impl FatFileSystem {
         if !boot_record.volume_label.is_empty() {
             self.volume_label = Some(boot_record.volume_label)
         }
-        let mut number_of_clusters: u64 = (boot_record.number_of_sectors as u64)
-            - (boot_record.number_of_reserved_sectors as u64);
-        number_of_clusters -= (boot_record.number_of_allocation_tables as u64)
-            * (boot_record.allocation_table_size as u64);
-        number_of_clusters /= boot_record.sectors_per_cluster_block as u64;
+        let number_of_metadata_sectors: u64 = (boot_record.number_of_reserved_sectors as u64)
+            + (boot_record.number_of_allocation_tables as u64)
+                * (boot_record.allocation_table_size as u64)
+            + ((boot_record.number_of_root_directory_entries as u64) * 32)
+                .div_ceil(boot_record.bytes_per_sector as u64);
+
+        if number_of_metadata_sectors > boot_record.number_of_sectors as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of sectors: {} value out of bounds",
+                boot_record.number_of_sectors
+            )));
+        }
+        let number_of_clusters: u64 = ((boot_record.number_of_sectors as u64)
+            - number_of_metadata_sectors)
+            / (boot_record.sectors_per_cluster_block as u64);
 
         self.format =
             if self.root_directory_cluster_block_number != 0 || number_of_clusters >= 65525 {
@@ -401,7 +411,8 @@ impl FatFileSystem {
         self.block_allocation_table = Some(Arc::new(FatBlockAllocationTable::new(
             &self.format,
             allocation_table_offset,
-            number_of_clusters as u32,
+            // Note that the first 2 entries do not represent a cluster.
+            (number_of_clusters + 2).min(u32::MAX as u64) as u32,
             self.first_cluster_offset,
             self.cluster_block_size,
         )));
-- 
2.43.0


From b3ce41ddc5d41cf55fc5edd3505740f9b11ae69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 087/169] fix: unused FAT directory entries after the
 terminator were listed

---
 keramics-formats/src/fat/directory_entries.rs    | 12 +++++++-----
 keramics-formats/src/fat/directory_entry_type.rs |  6 +++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index 524f5ac..b74e1be 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -93,14 +93,14 @@ impl FatDirectoryEntries {
         return self.is_read;
     }
 
-    /// Reads the directory entries from a buffer.
+    /// Reads the directory entries from a buffer, returns whether the terminator was read.
     fn read_data(
         &mut self,
         data: &[u8],
         mut directory_entry_offset: u64,
         last_vfat_sequence_number: &mut u8,
         long_name_entries: &mut Vec<FatLongNameDirectoryEntry>,
-    ) -> Result<(), ErrorTrace> {
+    ) -> Result<bool, ErrorTrace> {
         let mut safe_last_vfat_sequence_number: u8 = *last_vfat_sequence_number;
 
         let mut data_offset: usize = 0;
@@ -195,7 +195,7 @@ impl FatDirectoryEntries {
                     }
                 }
                 FatDirectoryEntryType::Terminator => {
-                    break;
+                    return Ok(true);
                 }
                 FatDirectoryEntryType::Unallocated => {
                     // TODO: add support for recovering unallocated entries
@@ -206,7 +206,7 @@ impl FatDirectoryEntries {
         }
         *last_vfat_sequence_number = safe_last_vfat_sequence_number;
 
-        Ok(())
+        Ok(false)
     }
 
     /// Reads the directories entries starting at a specific cluster block in a data stream.
@@ -254,7 +254,9 @@ impl FatDirectoryEntries {
                 &mut last_vfat_sequence_number,
                 &mut long_name_entries,
             ) {
-                Ok(_) => {}
+                // Directory entries that follow the terminator are not used.
+                Ok(true) => break,
+                Ok(false) => {}
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
                         error,
diff --git a/keramics-formats/src/fat/directory_entry_type.rs b/keramics-formats/src/fat/directory_entry_type.rs
index 3a07398..53731ea 100644
--- a/keramics-formats/src/fat/directory_entry_type.rs
+++ b/keramics-formats/src/fat/directory_entry_type.rs
@@ -29,15 +29,15 @@ pub enum FatDirectoryEntryType {
 impl FatDirectoryEntryType {
     /// Reads the directory entry type from a buffer.
     pub fn read_data(data: &[u8]) -> FatDirectoryEntryType {
-        if data[0] == 0xe5 {
+        if data[0] == 0x00 {
+            FatDirectoryEntryType::Terminator
+        } else if data[0] == 0xe5 {
             FatDirectoryEntryType::Unallocated
         } else if data[11..13] == [0x0f, 0x00]
             && data[26..28] == [0x00, 0x00]
             && ((data[0] >= 0x01 && data[0] <= 0x13) || (data[0] >= 0x41 && data[0] <= 0x54))
         {
             FatDirectoryEntryType::LongName
-        } else if data[0..32] == [0; 32] {
-            FatDirectoryEntryType::Terminator
         } else {
             FatDirectoryEntryType::ShortName
         }
-- 
2.43.0


From 6f3425fd7e67c72473bc76f1c2345efafcc62f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 088/169] fix: orphaned VFAT long names were used for another
 FAT directory entry

---
 keramics-formats/src/fat/directory_entries.rs          | 4 ++++
 keramics-formats/src/fat/directory_entry.rs            | 6 ++++++
 keramics-formats/src/fat/long_name_directory_entry.rs  | 5 +++++
 keramics-formats/src/fat/short_name_directory_entry.rs | 7 +++++++
 4 files changed, 22 insertions(+)

diff --git a/keramics-formats/src/fat/directory_entries.rs b/keramics-formats/src/fat/directory_entries.rs
index b74e1be..b5eef46 100644
--- a/keramics-formats/src/fat/directory_entries.rs
+++ b/keramics-formats/src/fat/directory_entries.rs
@@ -178,6 +178,8 @@ impl FatDirectoryEntries {
                         }
                     }
                     if entry.file_attribute_flags & 0x58 == FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
+                        long_name_entries.clear();
+
                         self.volume_label = Some(entry.name);
                     } else {
                         // Ignore "." and ".."
@@ -198,6 +200,8 @@ impl FatDirectoryEntries {
                     return Ok(true);
                 }
                 FatDirectoryEntryType::Unallocated => {
+                    long_name_entries.clear();
+
                     // TODO: add support for recovering unallocated entries
                 }
             }
diff --git a/keramics-formats/src/fat/directory_entry.rs b/keramics-formats/src/fat/directory_entry.rs
index 7388a97..a93b3a4 100644
--- a/keramics-formats/src/fat/directory_entry.rs
+++ b/keramics-formats/src/fat/directory_entry.rs
@@ -66,6 +66,12 @@ impl FatDirectoryEntry {
 
     /// Fills the directory entry based on a long name directory entries.
     pub fn set_long_name(&mut self, long_name_entries: &mut Vec<FatLongNameDirectoryEntry>) {
+        // Long name entries that do not belong to the short name are orphans.
+        if long_name_entries.iter().any(|long_name_entry| {
+            long_name_entry.name_checksum != self.short_name.name_checksum
+        }) {
+            long_name_entries.clear();
+        }
         if !long_name_entries.is_empty() {
             let mut long_name: Ucs2String = Ucs2String::new();
 
diff --git a/keramics-formats/src/fat/long_name_directory_entry.rs b/keramics-formats/src/fat/long_name_directory_entry.rs
index ed6aaa4..56a2d38 100644
--- a/keramics-formats/src/fat/long_name_directory_entry.rs
+++ b/keramics-formats/src/fat/long_name_directory_entry.rs
@@ -34,6 +34,9 @@ pub struct FatLongNameDirectoryEntry {
     /// Sequence number
     pub sequence_number: u8,
 
+    /// Checksum of the short name.
+    pub name_checksum: u8,
+
     /// Name
     pub name: Ucs2String,
 }
@@ -43,6 +46,7 @@ impl FatLongNameDirectoryEntry {
     pub fn new() -> Self {
         Self {
             sequence_number: 0,
+            name_checksum: 0,
             name: Ucs2String::new(),
         }
     }
@@ -55,6 +59,7 @@ impl FatLongNameDirectoryEntry {
             ));
         }
         self.sequence_number = data[0];
+        self.name_checksum = data[13];
 
         self.name.read_data_le(&data[1..11]);
 
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index 9f664ce..2205217 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -42,6 +42,9 @@ pub struct FatShortNameDirectoryEntry {
     /// Name
     pub name: ByteString,
 
+    /// Checksum of the name as stored.
+    pub name_checksum: u8,
+
     /// File attribute flags.
     pub file_attribute_flags: u8,
 
@@ -72,6 +75,7 @@ impl FatShortNameDirectoryEntry {
     pub fn new() -> Self {
         Self {
             name: ByteString::new_with_encoding(&CharacterEncoding::Ascii),
+            name_checksum: 0,
             file_attribute_flags: 0,
             flags: 0,
             creation_time: DateTime::NotSet,
@@ -90,6 +94,9 @@ impl FatShortNameDirectoryEntry {
                 "Unsupported directory entry data size"
             ));
         }
+        self.name_checksum = data[0..11].iter().fold(0, |checksum: u8, byte_value| {
+            checksum.rotate_right(1).wrapping_add(*byte_value)
+        });
         self.file_attribute_flags = data[11];
         self.flags = data[12];
 
-- 
2.43.0


From 7849b4adf3860bf6b1a2b25ac1e5f90dc5a796c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 089/169] fix: spaces inside a FAT volume label were dropped

---
 .../src/fat/short_name_directory_entry.rs     | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index 2205217..daa3f02 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -100,6 +100,29 @@ impl FatShortNameDirectoryEntry {
         self.file_attribute_flags = data[11];
         self.flags = data[12];
 
+        // A volume label is a single string of 11 characters.
+        if self.file_attribute_flags & 0x58 == FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
+            let label_size: usize = match data[0..11].iter().rposition(|value| *value != b' ') {
+                Some(data_index) => data_index + 1,
+                None => 0,
+            };
+            self.name.elements.extend_from_slice(&data[0..label_size]);
+        } else {
+            self.read_name(data);
+        }
+        self.creation_time = DateTime::FatTimeDate10Ms(FatTimeDate10Ms::from_bytes(&data[13..18]));
+        self.access_time = DateTime::FatDate(FatDate::from_bytes(&data[18..20]));
+        self.modification_time = DateTime::FatTimeDate(FatTimeDate::from_bytes(&data[22..26]));
+
+        self.data_start_cluster_upper = bytes_to_u16_le!(data, 20);
+        self.data_start_cluster = bytes_to_u16_le!(data, 26);
+        self.data_size = bytes_to_u32_le!(data, 28);
+
+        Ok(())
+    }
+
+    /// Reads the name and extension from a buffer.
+    fn read_name(&mut self, data: &[u8]) {
         let slice: &[u8] = match data[0..8].iter().rev().position(|value| *value != b' ') {
             Some(data_index) => &data[0..8 - data_index],
             None => &data[0..8],
@@ -112,10 +135,8 @@ impl FatShortNameDirectoryEntry {
             }
         }
         if data[8] != 0 && data[8] != b' ' {
-            // Do not add an extension separator for a volume label.
-            if self.file_attribute_flags & 0x58 != FAT_FILE_ATTRIBUTE_FLAG_VOLUME_LABEL {
-                self.name.elements.push(b'.');
-            }
+            self.name.elements.push(b'.');
+
             let slice: &[u8] = match data[8..11].iter().rev().position(|value| *value != b' ') {
                 Some(data_index) => &data[8..11 - data_index],
                 None => &data[8..11],
@@ -128,15 +149,6 @@ impl FatShortNameDirectoryEntry {
                 }
             }
         }
-        self.creation_time = DateTime::FatTimeDate10Ms(FatTimeDate10Ms::from_bytes(&data[13..18]));
-        self.access_time = DateTime::FatDate(FatDate::from_bytes(&data[18..20]));
-        self.modification_time = DateTime::FatTimeDate(FatTimeDate::from_bytes(&data[22..26]));
-
-        self.data_start_cluster_upper = bytes_to_u16_le!(data, 20);
-        self.data_start_cluster = bytes_to_u16_le!(data, 26);
-        self.data_size = bytes_to_u32_le!(data, 28);
-
-        Ok(())
     }
 }
 
-- 
2.43.0


From df40bfea6393a1b156e2d31c058c8202c87a6eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 090/169] fix: FAT file entry was not found by its own lower
 case short name

---
 keramics-formats/src/fat/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/string.rs b/keramics-formats/src/fat/string.rs
index b9b152d..ed3fab4 100644
--- a/keramics-formats/src/fat/string.rs
+++ b/keramics-formats/src/fat/string.rs
@@ -64,7 +64,7 @@ impl FatString {
                         }
                     }
                 }
-                lookup_name
+                Ucs2String::new_with_case_folding(&lookup_name, case_folding_mappings)
             }
             FatString::Ucs2String(ucs2_string) => {
                 Ucs2String::new_with_case_folding(ucs2_string, case_folding_mappings)
-- 
2.43.0


From 583782eaea2fd41f549bd75640b78bed71a4ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 091/169] fix: FAT file with more allocated clusters than its
 size needs was refused

---
 keramics-formats/src/fat/block_stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/block_stream.rs b/keramics-formats/src/fat/block_stream.rs
index cc6cc2b..02f6dea 100644
--- a/keramics-formats/src/fat/block_stream.rs
+++ b/keramics-formats/src/fat/block_stream.rs
@@ -70,7 +70,11 @@ impl FatBlockStream {
         let mut read_cluster_block_numbers: HashSet<u32> = HashSet::new();
         let mut logical_offset: u64 = 0;
 
-        while cluster_block_number >= 2 && cluster_block_number < largest_cluster_block_number {
+        // Note that more cluster blocks can be allocated than are needed for the size.
+        while logical_offset < self.size as u64
+            && cluster_block_number >= 2
+            && cluster_block_number < largest_cluster_block_number
+        {
             if read_cluster_block_numbers.contains(&cluster_block_number) {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Cluster block: {} already read",
-- 
2.43.0


From f4155d376997c8fcf1d12795e511d29cdb756425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 092/169] fix: out of bounds FAT file entry identifier

---
 keramics-formats/src/fat/file_system.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index dee4772..f176231 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -244,6 +244,19 @@ impl FatFileSystem {
         data_stream: &DataStreamReference,
         file_entry_identifier: u32,
     ) -> Result<FatDirectoryEntry, ErrorTrace> {
+        let first_directory_entry_offset: u64 = if self.root_directory_size > 0 {
+            self.root_directory_offset
+        } else {
+            self.first_cluster_offset
+        };
+        if file_entry_identifier < 32
+            || (file_entry_identifier as u64) < first_directory_entry_offset
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported file entry identifier: {} value out of bounds",
+                file_entry_identifier
+            )));
+        }
         // TODO: move code into DirectoryEntryScanner
         let mut short_name_entry: FatShortNameDirectoryEntry = FatShortNameDirectoryEntry::new();
 
@@ -264,14 +277,16 @@ impl FatFileSystem {
         }
         let mut directory_entry_offset: u64 = (file_entry_identifier as u64) - 32;
 
-        let cluster_block_number: u32 = if directory_entry_offset < self.first_cluster_offset {
+        let cluster_block_number: u32 = if (file_entry_identifier as u64)
+            < self.first_cluster_offset
+        {
             0
         } else {
             (2 + ((file_entry_identifier as u64) - self.first_cluster_offset)
                 / (self.cluster_block_size as u64)) as u32
         };
         let first_directory_entry_offset: u64 =
-            if directory_entry_offset < self.first_cluster_offset {
+            if (file_entry_identifier as u64) < self.first_cluster_offset {
                 self.root_directory_offset
             } else {
                 self.first_cluster_offset
@@ -331,7 +346,7 @@ impl FatFileSystem {
                 }
                 _ => last_entry = true,
             }
-            if last_entry {
+            if last_entry || directory_entry_offset < 32 {
                 break;
             }
             directory_entry_offset -= 32;
-- 
2.43.0


From 08522a10667c36c4c82250833b49f89f35fef2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 093/169] fix: FAT root directory of a size that is not a
 multiple of the sector size shifted the clusters

---
 keramics-formats/src/fat/file_system.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index f176231..ae3c98a 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -421,7 +421,10 @@ impl FatFileSystem {
         if self.root_directory_cluster_block_number == 0 {
             self.root_directory_offset = self.first_cluster_offset;
             self.root_directory_size = (boot_record.number_of_root_directory_entries as u32) * 32;
-            self.first_cluster_offset += self.root_directory_size as u64;
+            // The root directory occupies whole sectors.
+            self.first_cluster_offset += (self.root_directory_size as u64)
+                .div_ceil(boot_record.bytes_per_sector as u64)
+                * (boot_record.bytes_per_sector as u64);
         }
         self.block_allocation_table = Some(Arc::new(FatBlockAllocationTable::new(
             &self.format,
-- 
2.43.0


From 6d89e662541c22c310b352d1d936f233e46d0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 094/169] fix: memory usage of an ext file grew with its size

---
 keramics-formats/src/ext/block_stream.rs | 56 +++++++++++++-----------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/keramics-formats/src/ext/block_stream.rs b/keramics-formats/src/ext/block_stream.rs
index 1063cbc..61b1f94 100644
--- a/keramics-formats/src/ext/block_stream.rs
+++ b/keramics-formats/src/ext/block_stream.rs
@@ -15,8 +15,6 @@ use std::io::SeekFrom;
 
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
 
-use crate::block_tree::BlockTree;
-
 use super::block_range::{ExtBlockRange, ExtBlockRangeType};
 
 /// Extended File System (ext) block stream.
@@ -27,8 +25,8 @@ pub struct ExtBlockStream {
     /// Block size.
     block_size: u32,
 
-    /// Block tree.
-    block_tree: BlockTree<ExtBlockRange>,
+    /// Block ranges, in order of logical block number.
+    block_ranges: Vec<ExtBlockRange>,
 
     /// The current offset.
     current_offset: u64,
@@ -43,7 +41,7 @@ impl ExtBlockStream {
         Self {
             data_stream: None,
             block_size: block_size,
-            block_tree: BlockTree::<ExtBlockRange>::new(0, 0, 0),
+            block_ranges: Vec::new(),
             current_offset: 0,
             size: size,
         }
@@ -56,25 +54,24 @@ impl ExtBlockStream {
         number_of_blocks: u64,
         block_ranges: &Vec<ExtBlockRange>,
     ) -> Result<(), ErrorTrace> {
-        let block_tree_data_size: u64 = number_of_blocks * (self.block_size as u64);
-        self.block_tree =
-            BlockTree::<ExtBlockRange>::new(block_tree_data_size, 0, self.block_size as u64);
+        let mut logical_block_number: u64 = 0;
+
         for block_range in block_ranges.iter() {
-            let logical_offset: u64 = block_range.logical_block_number * (self.block_size as u64);
-            let range_size: u64 = block_range.number_of_blocks * (self.block_size as u64);
-            match self
-                .block_tree
-                .insert_value(logical_offset, range_size, block_range.clone())
-            {
-                Ok(_) => {}
-                Err(error) => {
-                    return Err(keramics_core::error_trace_new_with_error!(
-                        "Unable to insert block range into block tree",
-                        error
-                    ));
-                }
-            };
+            if block_range.logical_block_number != logical_block_number {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid block range logical block number: {} value out of bounds",
+                    block_range.logical_block_number
+                )));
+            }
+            logical_block_number += block_range.number_of_blocks;
+        }
+        if logical_block_number < number_of_blocks {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Missing block range for logical block number: {}",
+                logical_block_number
+            )));
         }
+        self.block_ranges = block_ranges.clone();
         self.data_stream = Some(data_stream.clone());
 
         Ok(())
@@ -90,7 +87,12 @@ impl ExtBlockStream {
             if current_offset >= self.size {
                 break;
             }
-            let block_range: &ExtBlockRange = match self.block_tree.get_value(current_offset) {
+            let logical_block_number: u64 = current_offset / (self.block_size as u64);
+            let range_index: usize = self.block_ranges.partition_point(|block_range| {
+                block_range.logical_block_number + block_range.number_of_blocks
+                    <= logical_block_number
+            });
+            let block_range: &ExtBlockRange = match self.block_ranges.get(range_index) {
                 Some(value) => value,
                 None => {
                     return Err(keramics_core::error_trace_new!(format!(
@@ -101,10 +103,12 @@ impl ExtBlockStream {
             };
             let range_logical_offset: u64 =
                 block_range.logical_block_number * (self.block_size as u64);
-            let range_size: u64 = block_range.number_of_blocks * (self.block_size as u64);
 
             let range_relative_offset: u64 = current_offset - range_logical_offset;
-            let range_remainder_size: u64 = range_size - range_relative_offset;
+            let range_remainder_size: u64 = block_range
+                .number_of_blocks
+                .saturating_mul(self.block_size as u64)
+                - range_relative_offset;
 
             let mut range_read_size: usize = read_size - data_offset;
 
@@ -126,7 +130,7 @@ impl ExtBlockStream {
                     let read_count: usize = keramics_core::data_stream_read_at_position!(
                         data_stream,
                         &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(range_physical_offset + range_relative_offset)
+                        SeekFrom::Start(range_physical_offset.saturating_add(range_relative_offset))
                     );
                     read_count
                 }
-- 
2.43.0


From 9eda411ac1e49f19e064707b99ff465db2565214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 095/169] fix: out of bounds values in an ext superblock and
 inode size of format revision 0

---
 keramics-formats/src/ext/superblock.rs | 29 +++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 9ed7ebe..2c70e92 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -259,7 +259,7 @@ impl ExtSuperblock {
         }
         self.block_size = bytes_to_u32_le!(data, 24);
 
-        if self.block_size > 32 - 10 {
+        if self.block_size > 16 - 10 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
                 self.block_size
@@ -287,7 +287,30 @@ impl ExtSuperblock {
         }
         self.last_mount_time = PosixTime32::from_le_bytes(&data[44..48]);
         self.last_written_time = PosixTime32::from_le_bytes(&data[48..52]);
-        self.inode_size = bytes_to_u16_le!(data, 88);
+        // The first format revision has a fixed inode size.
+        self.inode_size = if self.format_revision == 0 {
+            128
+        } else {
+            bytes_to_u16_le!(data, 88)
+        };
+        if self.incompatible_feature_flags & EXT_INCOMPATIBLE_FEATURE_FLAG_JOURNAL_DEVICE == 0 {
+            // An inode bitmap fits in a single block.
+            if self.number_of_inodes_per_block_group > self.block_size * 8 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of inodes per block group: {} value out of bounds",
+                    self.number_of_inodes_per_block_group
+                )));
+            }
+            if self.inode_size < 128
+                || !self.inode_size.is_power_of_two()
+                || (self.inode_size as u32) > self.block_size
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid inode size: {} value out of bounds",
+                    self.inode_size
+                )));
+            }
+        }
         self.group_descriptor_size = bytes_to_u16_le!(data, 254);
         self.first_meta_block_group = bytes_to_u32_le!(data, 260);
         self.file_system_identifier.copy_from_slice(&data[104..120]);
@@ -295,7 +318,7 @@ impl ExtSuperblock {
         self.last_mount_path = ByteString::from(&data[136..200]);
 
         let number_of_block_groups_per_flex_group: u8 = data[372];
-        if number_of_block_groups_per_flex_group >= 16 {
+        if number_of_block_groups_per_flex_group >= 32 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid number of blocks per flex group: {} value out of bounds",
                 number_of_block_groups_per_flex_group,
-- 
2.43.0


From ee4e9b7e5a5be473c458453b982befe38c5d9b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 096/169] fix: huge allocation for an ext file system with a
 large number of block groups

---
 keramics-formats/src/ext/file_system.rs | 42 +++++++++++++++++++------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index ffd764c..9bfa264 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -241,9 +241,9 @@ impl ExtFileSystem {
         let mut block_group_number: u32 = 0;
         let mut block_group_offset: u64 = 0;
         let mut block_group_size: u64 = 0;
-        let mut exponent3: u32 = 3;
-        let mut exponent5: u32 = 5;
-        let mut exponent7: u32 = 7;
+        let mut exponent3: u64 = 3;
+        let mut exponent5: u64 = 5;
+        let mut exponent7: u64 = 7;
         let mut meta_group_number: u32 = 0;
         let mut meta_group_start_block_number: u32 = 0;
         let mut number_of_block_groups: u64 = 0;
@@ -252,13 +252,13 @@ impl ExtFileSystem {
         let mut group_descriptors: Vec<ExtGroupDescriptor> = Vec::new();
 
         loop {
-            if exponent3 < block_group_number {
+            if exponent3 < block_group_number as u64 {
                 exponent3 *= 3;
             }
-            if exponent5 < block_group_number {
+            if exponent5 < block_group_number as u64 {
                 exponent5 *= 5;
             }
-            if exponent7 < block_group_number {
+            if exponent7 < block_group_number as u64 {
                 exponent7 *= 7;
             }
             // The first block group will always contain a superblock.
@@ -272,9 +272,9 @@ impl ExtFileSystem {
                 false
             // Only block group numbers that are a power of 3, 5 or 7 contain a superblock.
             } else if block_group_number == 1
-                || block_group_number == exponent3
-                || block_group_number == exponent5
-                || block_group_number == exponent7
+                || block_group_number as u64 == exponent3
+                || block_group_number as u64 == exponent5
+                || block_group_number as u64 == exponent7
             {
                 true
             } else {
@@ -308,6 +308,30 @@ impl ExtFileSystem {
                     self.features.initialize(&superblock);
 
                     number_of_block_groups = superblock.get_number_of_block_groups();
+
+                    // The group descriptors must be in the data stream.
+                    let maximum_number_of_block_groups: u64 =
+                        keramics_core::data_stream_get_size!(data_stream)
+                            / (self.features.get_group_descriptor_size() as u64);
+
+                    if number_of_block_groups > maximum_number_of_block_groups.min(u32::MAX as u64)
+                    {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Invalid number of block groups: {} value out of bounds",
+                            number_of_block_groups
+                        )));
+                    }
+                    // Without meta block groups a block group contains all group descriptors.
+                    if !self.features.has_meta_block_groups()
+                        && number_of_block_groups
+                            * (self.features.get_group_descriptor_size() as u64)
+                            > superblock.get_block_group_size()
+                    {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Invalid number of blocks per block group: {} value out of bounds",
+                            superblock.number_of_blocks_per_block_group
+                        )));
+                    }
                     block_group_size = superblock.get_block_group_size();
 
                     self.number_of_inodes = superblock.number_of_inodes;
-- 
2.43.0


From ab0c4b0ced841c05b71711d4e755819d4007951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 097/169] fix: ext file data was read as group descriptors with
 sparse superblock version 2

---
 keramics-formats/src/ext/file_system.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index 9bfa264..490642b 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -264,12 +264,12 @@ impl ExtFileSystem {
             // The first block group will always contain a superblock.
             let block_group_has_superblock: bool = if block_group_number == 0 {
                 true
-            // If sparse superblock feature is disabled all block groups contain a superblock.
-            } else if !self.features.has_sparse_superblock() {
-                true
             // TODO: add support for sparse superblock version 2
             } else if self.features.has_sparse_superblock2() {
                 false
+            // If sparse superblock feature is disabled all block groups contain a superblock.
+            } else if !self.features.has_sparse_superblock() {
+                true
             // Only block group numbers that are a power of 3, 5 or 7 contain a superblock.
             } else if block_group_number == 1
                 || block_group_number as u64 == exponent3
-- 
2.43.0


From 3a67a3a6c9be076be33daebb1465ce6a0d367466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 098/169] fix: stored metadata checksum seed of an ext file
 system was not used

---
 keramics-formats/src/ext/features.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/ext/features.rs b/keramics-formats/src/ext/features.rs
index af97388..c36d993 100644
--- a/keramics-formats/src/ext/features.rs
+++ b/keramics-formats/src/ext/features.rs
@@ -52,11 +52,15 @@ impl ExtFeatures {
             & EXT_READ_ONLY_COMPATIBLE_FEATURE_FLAG_METADATA_CHECKSUM
             != 0
         {
-            let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0x82f63b78, 0);
-            crc32_context.update(&superblock.file_system_identifier);
-            let checksum: u32 = crc32_context.finalize();
-
-            self.metadata_checksum_seed = Some(checksum);
+            self.metadata_checksum_seed = match superblock.metadata_checksum_seed {
+                Some(metadata_checksum_seed) => Some(metadata_checksum_seed),
+                None => {
+                    let mut crc32_context: ReversedCrc32Context =
+                        ReversedCrc32Context::new(0x82f63b78, 0);
+                    crc32_context.update(&superblock.file_system_identifier);
+                    Some(crc32_context.finalize())
+                }
+            };
         }
     }
 
-- 
2.43.0


From 7d364a3ec5b2b7f94a6aa5a99311371d0d787858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 099/169] fix: ext2 and ext3 files of 4 GiB and larger were
 read as smaller

---
 keramics-formats/src/ext/inode_ext2.rs | 6 ++++++
 keramics-formats/src/ext/inode_ext3.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/keramics-formats/src/ext/inode_ext2.rs b/keramics-formats/src/ext/inode_ext2.rs
index 78a1eb4..d64dcb1 100644
--- a/keramics-formats/src/ext/inode_ext2.rs
+++ b/keramics-formats/src/ext/inode_ext2.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -71,6 +72,11 @@ impl Ext2Inode {
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
+        // The directory ACL contains the upper part of the data size of a regular file.
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            inode.data_size |= (bytes_to_u32_le!(data, 108) as u64) << 32;
+        }
+
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
         if inode.access_timestamp > 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
diff --git a/keramics-formats/src/ext/inode_ext3.rs b/keramics-formats/src/ext/inode_ext3.rs
index 1a34cab..39ac8da 100644
--- a/keramics-formats/src/ext/inode_ext3.rs
+++ b/keramics-formats/src/ext/inode_ext3.rs
@@ -16,6 +16,7 @@ use keramics_datetime::{DateTime, PosixTime32};
 use keramics_layout_map::LayoutMap;
 use keramics_types::{bytes_to_i32_le, bytes_to_u16_le, bytes_to_u32_le};
 
+use crate::ext::constants::*;
 use crate::ext::inode::ExtInode;
 
 #[derive(LayoutMap)]
@@ -71,6 +72,11 @@ impl Ext3Inode {
 
         inode.data_size = bytes_to_u32_le!(data, 4) as u64;
 
+        // The directory ACL contains the upper part of the data size of a regular file.
+        if inode.file_mode & 0xf000 == EXT_FILE_MODE_TYPE_REGULAR_FILE {
+            inode.data_size |= (bytes_to_u32_le!(data, 108) as u64) << 32;
+        }
+
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
         if inode.access_timestamp > 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
-- 
2.43.0


From 028333657330a30eef5026f0aa3facd0d0dab070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 100/169] fix: ext creation time after 2038 was ignored

---
 keramics-formats/src/ext/inode_extension_ext4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 1f8e848..fe519ee 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -102,7 +102,7 @@ impl Ext4InodeExtension {
             let (extra_precision_timestamp, fraction): (i64, u32) =
                 Self::get_extra_precision_timestamp(timestamp, extra_precision);
 
-            if timestamp > 0 {
+            if extra_precision_timestamp > 0 {
                 inode.creation_time = Some(DateTime::PosixTime64Ns(PosixTime64Ns::new(
                     extra_precision_timestamp,
                     fraction,
-- 
2.43.0


From d998dba823589a53d11d114eb7db7d1713a081e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 101/169] fix: data stored inside an ext inode was read as
 block numbers

---
 keramics-formats/src/ext/inode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index 720728d..263782e 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -161,8 +161,10 @@ impl ExtInode {
         if format_version == 4 && self.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             // The data is stored inline in self.data_reference
             // Note that self.data_size can be larger than 60
+            return Ok(());
         } else if file_mode_type == EXT_FILE_MODE_TYPE_SYMBOLIC_LINK && self.data_size < 60 {
             // The symbolic link target path is stored in self.data_reference
+            return Ok(());
         }
         match file_mode_type {
             EXT_FILE_MODE_TYPE_CHARACTER_DEVICE | EXT_FILE_MODE_TYPE_BLOCK_DEVICE => {
-- 
2.43.0


From f015ef61bcb959340755583775f74021e8623599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 102/169] fix: checksum of an ext inode without an upper
 checksum value was reported as a mismatch

---
 keramics-formats/src/ext/inode_table.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/inode_table.rs b/keramics-formats/src/ext/inode_table.rs
index d656bbc..c7bc1d8 100644
--- a/keramics-formats/src/ext/inode_table.rs
+++ b/keramics-formats/src/ext/inode_table.rs
@@ -16,6 +16,7 @@ use std::io::SeekFrom;
 use keramics_checksums::ReversedCrc32Context;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStreamReference, ErrorTrace};
+use keramics_types::bytes_to_u16_le;
 
 use crate::block_tree::BlockTree;
 
@@ -165,15 +166,21 @@ impl ExtInodeTable {
                 crc32_context.update(&[0; 2]);
                 crc32_context.update(&data[126..128]);
 
-                if inode_size > 128 {
+                // The upper part of the checksum is only present if it is part of the extra size.
+                let has_checksum_upper: bool =
+                    inode_size >= 132 && bytes_to_u16_le!(data, 128) >= 4;
+
+                if has_checksum_upper {
                     crc32_context.update(&data[128..130]);
                     crc32_context.update(&[0; 2]);
                     crc32_context.update(&data[132..inode_size]);
+                } else if inode_size > 128 {
+                    crc32_context.update(&data[128..inode_size]);
                 }
                 let mut calculated_checksum: u32 = crc32_context.finalize();
                 calculated_checksum = 0xffffffff - calculated_checksum;
 
-                if inode_size <= 128 {
+                if !has_checksum_upper {
                     calculated_checksum &= 0x0000ffff;
                 }
                 if inode.checksum != 0 && (inode.checksum as u32) != calculated_checksum {
-- 
2.43.0


From 370f5224f9628755f2e6c6a9b1a834f6fa25c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 103/169] fix: ext inode with an encryption attribute was
 refused

---
 keramics-formats/src/ext/attributes_entry.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keramics-formats/src/ext/attributes_entry.rs b/keramics-formats/src/ext/attributes_entry.rs
index 250dd7c..d389fd7 100644
--- a/keramics-formats/src/ext/attributes_entry.rs
+++ b/keramics-formats/src/ext/attributes_entry.rs
@@ -89,9 +89,12 @@ impl ExtAttributesEntry {
             2 => "system.posix_acl_access",
             3 => "system.posix_acl_default",
             4 => "trusted.",
+            5 => "lustre.",
             6 => "security.",
             7 => "system.",
             8 => "system.richacl",
+            9 => "encryption.",
+            10 => "gnu.",
             _ => {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported attribute name index: {}",
-- 
2.43.0


From 7f16397dad9884e27d4194c7e7b61062582d4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 104/169] fix: panic in debug output of ext extended attributes

---
 keramics-formats/src/ext/attributes_block.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/attributes_block.rs b/keramics-formats/src/ext/attributes_block.rs
index a13236a..c9c51ff 100644
--- a/keramics-formats/src/ext/attributes_block.rs
+++ b/keramics-formats/src/ext/attributes_block.rs
@@ -11,6 +11,8 @@
  * under the License.
  */
 
+use std::cmp::min;
+
 use keramics_core::ErrorTrace;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_types::ByteString;
@@ -105,7 +107,11 @@ impl ExtAttributesBlock {
                 entry_data_offset
             ));
                 self.mediator.debug_print_data(
-                    &data[entry_data_offset..entry_data_offset + alignment_padding_size],
+                    &data[entry_data_offset
+                        ..min(
+                            entry_data_offset + alignment_padding_size,
+                            data.len(),
+                        )],
                     true,
                 );
             }
-- 
2.43.0


From d6d3bf09afb119598957bcfce4c89f64859c02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 105/169] fix: panic or endless reading of an ext extents tree
 with overlapping nodes

---
 keramics-formats/src/ext/extents_tree.rs | 31 ++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/keramics-formats/src/ext/extents_tree.rs b/keramics-formats/src/ext/extents_tree.rs
index 563bfb2..caa4efd 100644
--- a/keramics-formats/src/ext/extents_tree.rs
+++ b/keramics-formats/src/ext/extents_tree.rs
@@ -101,6 +101,12 @@ impl ExtExtentsTree {
                 return Err(error);
             }
         }
+        if (extents_header.number_of_entries as usize) > (data_size - 12) / 12 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                extents_header.number_of_entries,
+            )));
+        }
         if extents_header.depth >= parent_depth {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid depth: {} value out of bounds",
@@ -132,6 +138,15 @@ impl ExtExtentsTree {
                 }
                 data_offset = data_end_offset;
 
+                // Every index entry must describe blocks after those of the previous entries.
+                if (entry.logical_block_number as u64) < *logical_block_number {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid logical block number: {} value out of bounds",
+                        entry.logical_block_number,
+                    )));
+                }
+                let last_logical_block_number: u64 = *logical_block_number;
+                let number_of_block_ranges: usize = block_ranges.len();
                 let sub_node_offset: u64 = entry.physical_block_number * (self.block_size as u64);
 
                 match self.read_node_at_position(
@@ -153,6 +168,14 @@ impl ExtExtentsTree {
                         return Err(error);
                     }
                 }
+                if *logical_block_number == last_logical_block_number
+                    || block_ranges.len() == number_of_block_ranges
+                {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid sub node at offset {} (0x{:08x}) - missing extents",
+                        sub_node_offset, sub_node_offset
+                    )));
+                }
             }
         } else {
             for _ in 0..extents_header.number_of_entries {
@@ -178,6 +201,14 @@ impl ExtExtentsTree {
                 }
                 data_offset = data_end_offset;
 
+                if (entry.logical_block_number as u64) < *logical_block_number
+                    || entry.number_of_blocks == 0
+                {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid extent logical block number: {} value out of bounds",
+                        entry.logical_block_number,
+                    )));
+                }
                 if entry.logical_block_number as u64 > *logical_block_number {
                     let number_of_blocks: u64 =
                         (entry.logical_block_number as u64) - *logical_block_number;
-- 
2.43.0


From f40a3104757a623cb90589958862667769812b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 106/169] fix: endless reading of ext indirect blocks that
 refer to each other

---
 keramics-formats/src/ext/block_numbers_tree.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/keramics-formats/src/ext/block_numbers_tree.rs b/keramics-formats/src/ext/block_numbers_tree.rs
index 2e10f2a..ad7c467 100644
--- a/keramics-formats/src/ext/block_numbers_tree.rs
+++ b/keramics-formats/src/ext/block_numbers_tree.rs
@@ -12,6 +12,7 @@
  */
 
 use std::cmp::min;
+use std::collections::HashSet;
 use std::io::SeekFrom;
 
 use keramics_core::mediator::{Mediator, MediatorReference};
@@ -33,6 +34,9 @@ pub struct ExtBlockNumbersTree {
 
     /// Number of blocks.
     number_of_blocks: u64,
+
+    /// Block numbers of the sub nodes that were read.
+    sub_node_block_numbers: HashSet<u32>,
 }
 
 impl ExtBlockNumbersTree {
@@ -43,6 +47,7 @@ impl ExtBlockNumbersTree {
             block_size: block_size,
             number_of_blocks_per_block: block_size / 4,
             number_of_blocks: number_of_blocks,
+            sub_node_block_numbers: HashSet::new(),
         }
     }
 
@@ -156,6 +161,12 @@ impl ExtBlockNumbersTree {
             let block_number: u32 = bytes_to_u32_le!(data, data_offset);
 
             if block_number != 0 && depth > 0 {
+                if !self.sub_node_block_numbers.insert(block_number) {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid sub node block number: {} already in use",
+                        block_number
+                    )));
+                }
                 let sub_node_offset: u64 = (block_number as u64) * (self.block_size as u64);
 
                 match self.read_node_at_position(
-- 
2.43.0


From 4f4b8752246d6063dafa8fd8befc29701c6f316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 107/169] fix: entries of an ext directory were read again for
 every sub file entry

---
 keramics-formats/src/ext/directory_entries.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-formats/src/ext/directory_entries.rs b/keramics-formats/src/ext/directory_entries.rs
index e5ddb68..07cd6ba 100644
--- a/keramics-formats/src/ext/directory_entries.rs
+++ b/keramics-formats/src/ext/directory_entries.rs
@@ -89,6 +89,8 @@ impl ExtDirectoryEntries {
                 return Err(error);
             }
         }
+        self.is_read = true;
+
         Ok(())
     }
 
-- 
2.43.0


From b3e46b36dafa2b6290734b9f0e74ac2dd983c9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 108/169] fix: ext directory with a block of 64 KiB was refused

---
 keramics-formats/src/ext/directory_tree.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index 0b180f4..74d244f 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -132,10 +132,19 @@ impl ExtDirectoryTree {
                     return Err(error);
                 }
             }
-            if entry.size == 0 {
+            // An entry that fills a block of 64 KiB has a size that does not fit in 16 bits.
+            let entry_size: usize = if self.block_size >= 65536
+                && data_offset == 0
+                && (entry.size == 0 || entry.size == 65535)
+            {
+                65536
+            } else {
+                entry.size as usize
+            };
+            if entry_size == 0 {
                 break;
             }
-            if entry.size < 8 || (entry.size as usize) > data_size - data_offset {
+            if entry_size < 8 || entry_size > data_size - data_offset {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid directory entry size: {} value out of bounds",
                     entry.size
@@ -153,7 +162,7 @@ impl ExtDirectoryTree {
                     return Err(error);
                 }
             };
-            data_offset += (entry.size as usize) - 8;
+            data_offset += entry_size - 8;
 
             // TODO: print trailing data
 
-- 
2.43.0


From 857c664926e5b348010db65f170852532ec9b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 109/169] fix: entries of an ext directory after a sparse block
 were missing

---
 keramics-formats/src/ext/directory_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index 74d244f..ce10a22 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -52,8 +52,9 @@ impl ExtDirectoryTree {
         entries: &mut BTreeMap<ByteString, ExtDirectoryEntry>,
     ) -> Result<(), ErrorTrace> {
         for block_range in block_ranges.iter() {
+            // A sparse range does not contain entries.
             if block_range.range_type != ExtBlockRangeType::InFile {
-                break;
+                continue;
             }
             let mut block_offset: u64 =
                 block_range.physical_block_number * (self.block_size as u64);
-- 
2.43.0


From c4bee9a016ddbd50faedc07400acc92fffaa7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 110/169] fix: ext file system whose last block group consists
 of a single block was refused

---
 keramics-formats/src/ext/superblock.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 2c70e92..0625e8a 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -144,6 +144,9 @@ pub struct ExtSuperblock {
     /// Number of blocks.
     pub number_of_blocks: u64,
 
+    /// First data block number.
+    pub first_data_block_number: u32,
+
     /// Block size.
     pub block_size: u32,
 
@@ -202,6 +205,7 @@ impl ExtSuperblock {
         Self {
             number_of_inodes: 0,
             number_of_blocks: 0,
+            first_data_block_number: 0,
             block_size: 0,
             number_of_blocks_per_block_group: 0,
             number_of_inodes_per_block_group: 0,
@@ -257,6 +261,7 @@ impl ExtSuperblock {
                 self.number_of_blocks
             )));
         }
+        self.first_data_block_number = bytes_to_u32_le!(data, 20);
         self.block_size = bytes_to_u32_le!(data, 24);
 
         if self.block_size > 16 - 10 {
@@ -371,6 +376,7 @@ impl ExtSuperblock {
     /// Retrieves the number of block groups.
     pub fn get_number_of_block_groups(&self) -> u64 {
         self.number_of_blocks
+            .saturating_sub(self.first_data_block_number as u64)
             .div_ceil(self.number_of_blocks_per_block_group as u64)
     }
 }
-- 
2.43.0


From 07d12b0c5f618f7f7e7a7f7de1de30d1a7515d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 111/169] fix: inline data of an ext file larger than 60 bytes
 was read as zero bytes

---
 keramics-formats/src/ext/attributes_block.rs  | 40 +++++++++++++++++++
 keramics-formats/src/ext/directory_entries.rs |  9 ++++-
 keramics-formats/src/ext/directory_tree.rs    |  6 ++-
 keramics-formats/src/ext/file_entry.rs        | 13 +++++-
 keramics-formats/src/ext/inode.rs             | 11 +++++
 .../src/ext/inode_extension_ext4.rs           | 17 ++++++++
 6 files changed, 91 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/ext/attributes_block.rs b/keramics-formats/src/ext/attributes_block.rs
index c9c51ff..b360f11 100644
--- a/keramics-formats/src/ext/attributes_block.rs
+++ b/keramics-formats/src/ext/attributes_block.rs
@@ -34,6 +34,46 @@ impl ExtAttributesBlock {
         }
     }
 
+    /// Retrieves the value data of a specific attribute.
+    pub(super) fn get_value_data<'a>(
+        &self,
+        data: &'a [u8],
+        data_offset: usize,
+        name_index: u8,
+        name: &[u8],
+    ) -> Result<Option<&'a [u8]>, ErrorTrace> {
+        let mut entry_data_offset: usize = data_offset;
+
+        while entry_data_offset + 16 <= data.len() {
+            if data[entry_data_offset..entry_data_offset + 4] == [0; 4] {
+                break;
+            }
+            let mut entry: ExtAttributesEntry = ExtAttributesEntry::new();
+            entry.read_data(&data[entry_data_offset..])?;
+
+            let name_offset: usize = entry_data_offset + 16;
+            let name_end_offset: usize = name_offset + (entry.name_size as usize);
+
+            if entry.name_index == name_index
+                && data.get(name_offset..name_end_offset) == Some(name)
+                && entry.value_data_inode_number == 0
+            {
+                // The value data offset is relative to the first entry.
+                let value_offset: usize = data_offset + (entry.value_data_offset as usize);
+                let value_end_offset: usize = value_offset + (entry.value_data_size as usize);
+
+                return match data.get(value_offset..value_end_offset) {
+                    Some(value_data) => Ok(Some(value_data)),
+                    None => Err(keramics_core::error_trace_new!(
+                        "Invalid attribute value data offset value out of bounds"
+                    )),
+                };
+            }
+            entry_data_offset = name_end_offset.next_multiple_of(4);
+        }
+        Ok(None)
+    }
+
     /// Reads the attributes block from a buffer.
     pub fn read_entries(
         &self,
diff --git a/keramics-formats/src/ext/directory_entries.rs b/keramics-formats/src/ext/directory_entries.rs
index 07cd6ba..bd17eaa 100644
--- a/keramics-formats/src/ext/directory_entries.rs
+++ b/keramics-formats/src/ext/directory_entries.rs
@@ -95,11 +95,16 @@ impl ExtDirectoryEntries {
     }
 
     /// Reads the directory entries from inline data.
-    pub fn read_inline_data(&mut self, data: &[u8], block_size: u32) -> Result<(), ErrorTrace> {
+    pub fn read_inline_data(
+        &mut self,
+        data: &[u8],
+        remainder_data: &[u8],
+        block_size: u32,
+    ) -> Result<(), ErrorTrace> {
         let mut directory_tree: ExtDirectoryTree =
             ExtDirectoryTree::new(&self.encoding, block_size);
 
-        match directory_tree.read_inline_data(data, &mut self.entries) {
+        match directory_tree.read_inline_data(data, remainder_data, &mut self.entries) {
             Ok(_) => {}
             Err(mut error) => {
                 keramics_core::error_trace_add_frame!(
diff --git a/keramics-formats/src/ext/directory_tree.rs b/keramics-formats/src/ext/directory_tree.rs
index ce10a22..6e7089e 100644
--- a/keramics-formats/src/ext/directory_tree.rs
+++ b/keramics-formats/src/ext/directory_tree.rs
@@ -87,6 +87,7 @@ impl ExtDirectoryTree {
     pub fn read_inline_data(
         &mut self,
         data: &[u8],
+        remainder_data: &[u8],
         entries: &mut BTreeMap<ByteString, ExtDirectoryEntry>,
     ) -> Result<(), ErrorTrace> {
         let data_size: usize = data.len();
@@ -108,7 +109,10 @@ impl ExtDirectoryTree {
             ));
             self.mediator.debug_print(format!("}}\n\n"));
         }
-        self.read_node_data(&data, 4, data_size, entries)
+        self.read_node_data(&data, 4, data_size, entries)?;
+
+        // The remainder of the data, that is stored in an attribute, has its own entries.
+        self.read_node_data(remainder_data, 0, remainder_data.len(), entries)
     }
 
     /// Reads the directory tree node from a buffer.
diff --git a/keramics-formats/src/ext/file_entry.rs b/keramics-formats/src/ext/file_entry.rs
index 0f81159..4f43ee3 100644
--- a/keramics-formats/src/ext/file_entry.rs
+++ b/keramics-formats/src/ext/file_entry.rs
@@ -159,6 +159,11 @@ impl ExtFileEntry {
             }
             let byte_string: ByteString = if self.inode.data_size < 60 {
                 ByteString::from(self.inode.data_reference.as_slice())
+            } else if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
+                let mut data: Vec<u8> = self.inode.get_inline_data();
+                data.truncate(self.inode.data_size as usize);
+
+                ByteString::from(&data)
             } else {
                 let number_of_blocks: u64 = max(
                     self.inode
@@ -213,7 +218,7 @@ impl ExtFileEntry {
         }
         if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             let data_stream: FakeDataStream =
-                FakeDataStream::new(&self.inode.data_reference, self.inode.data_size);
+                FakeDataStream::new(&self.inode.get_inline_data(), self.inode.data_size);
             Ok(Some(Arc::new(RwLock::new(data_stream))))
         } else {
             let number_of_blocks: u64 = max(
@@ -386,7 +391,11 @@ impl ExtFileEntry {
         if self.inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
             match self
                 .sub_directory_entries
-                .read_inline_data(&self.inode.data_reference, self.inode_table.block_size)
+                .read_inline_data(
+                    &self.inode.data_reference,
+                    &self.inode.inline_data_remainder,
+                    self.inode_table.block_size,
+                )
             {
                 Ok(_) => {}
                 Err(mut error) => {
diff --git a/keramics-formats/src/ext/inode.rs b/keramics-formats/src/ext/inode.rs
index 263782e..5c11092 100644
--- a/keramics-formats/src/ext/inode.rs
+++ b/keramics-formats/src/ext/inode.rs
@@ -73,6 +73,9 @@ pub struct ExtInode {
     /// Data reference.
     pub data_reference: [u8; 60],
 
+    /// Inline data that does not fit in the data reference.
+    pub inline_data_remainder: Vec<u8>,
+
     /// Checksum.
     pub checksum: u32,
 
@@ -105,6 +108,7 @@ impl ExtInode {
             number_of_blocks: 0,
             flags: 0,
             data_reference: [0; 60],
+            inline_data_remainder: Vec::new(),
             checksum: 0,
             creation_time: None,
             block_ranges: Vec::new(),
@@ -112,6 +116,13 @@ impl ExtInode {
         }
     }
 
+    /// Retrieves the inline data.
+    pub(super) fn get_inline_data(&self) -> Vec<u8> {
+        let mut data: Vec<u8> = self.data_reference.to_vec();
+        data.extend_from_slice(&self.inline_data_remainder);
+        data
+    }
+
     /// Reads the inode for debugging.
     pub fn debug_read_data(&self, format_version: u8, data: &[u8]) -> String {
         let mut string_parts: Vec<String> = Vec::new();
diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index fe519ee..73a39ff 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -134,6 +134,23 @@ impl Ext4InodeExtension {
                         return Err(error);
                     }
                 }
+                // Inline data that does not fit in the data reference is stored in the
+                // "system.data" attribute.
+                if inode.flags & EXT_INODE_FLAG_INLINE_DATA != 0 {
+                    match attributes_block.get_value_data(data, data_offset, 7, b"data") {
+                        Ok(Some(value_data)) => {
+                            inode.inline_data_remainder = value_data.to_vec();
+                        }
+                        Ok(None) => {}
+                        Err(mut error) => {
+                            keramics_core::error_trace_add_frame!(
+                                error,
+                                "Unable to read inline data"
+                            );
+                            return Err(error);
+                        }
+                    }
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 6252b96125437f2b67573d4abef9ea7ce348e8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 112/169] fix: ext dates before 1970 were ignored

---
 keramics-formats/src/ext/inode_ext2.rs           | 6 +++---
 keramics-formats/src/ext/inode_ext3.rs           | 6 +++---
 keramics-formats/src/ext/inode_ext4.rs           | 6 +++---
 keramics-formats/src/ext/inode_extension_ext4.rs | 8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/keramics-formats/src/ext/inode_ext2.rs b/keramics-formats/src/ext/inode_ext2.rs
index d64dcb1..030bcd3 100644
--- a/keramics-formats/src/ext/inode_ext2.rs
+++ b/keramics-formats/src/ext/inode_ext2.rs
@@ -78,15 +78,15 @@ impl Ext2Inode {
         }
 
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
-        if inode.access_timestamp > 0 {
+        if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
         }
         inode.change_timestamp = bytes_to_i32_le!(data, 12);
-        if inode.change_timestamp > 0 {
+        if inode.change_timestamp != 0 {
             inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
         }
         inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-        if inode.modification_timestamp > 0 {
+        if inode.modification_timestamp != 0 {
             inode.modification_time =
                 DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
         }
diff --git a/keramics-formats/src/ext/inode_ext3.rs b/keramics-formats/src/ext/inode_ext3.rs
index 39ac8da..565c32a 100644
--- a/keramics-formats/src/ext/inode_ext3.rs
+++ b/keramics-formats/src/ext/inode_ext3.rs
@@ -78,15 +78,15 @@ impl Ext3Inode {
         }
 
         inode.access_timestamp = bytes_to_i32_le!(data, 8);
-        if inode.access_timestamp > 0 {
+        if inode.access_timestamp != 0 {
             inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
         }
         inode.change_timestamp = bytes_to_i32_le!(data, 12);
-        if inode.change_timestamp > 0 {
+        if inode.change_timestamp != 0 {
             inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
         }
         inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-        if inode.modification_timestamp > 0 {
+        if inode.modification_timestamp != 0 {
             inode.modification_time =
                 DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
         }
diff --git a/keramics-formats/src/ext/inode_ext4.rs b/keramics-formats/src/ext/inode_ext4.rs
index 1ab6468..8f46062 100644
--- a/keramics-formats/src/ext/inode_ext4.rs
+++ b/keramics-formats/src/ext/inode_ext4.rs
@@ -77,15 +77,15 @@ impl Ext4Inode {
 
         if inode.flags & 0x00200000 == 0 {
             inode.access_timestamp = bytes_to_i32_le!(data, 8);
-            if inode.access_timestamp > 0 {
+            if inode.access_timestamp != 0 {
                 inode.access_time = DateTime::PosixTime32(PosixTime32::new(inode.access_timestamp));
             }
             inode.change_timestamp = bytes_to_i32_le!(data, 12);
-            if inode.change_timestamp > 0 {
+            if inode.change_timestamp != 0 {
                 inode.change_time = DateTime::PosixTime32(PosixTime32::new(inode.change_timestamp));
             }
             inode.modification_timestamp = bytes_to_i32_le!(data, 16);
-            if inode.modification_timestamp > 0 {
+            if inode.modification_timestamp != 0 {
                 inode.modification_time =
                     DateTime::PosixTime32(PosixTime32::new(inode.modification_timestamp));
             }
diff --git a/keramics-formats/src/ext/inode_extension_ext4.rs b/keramics-formats/src/ext/inode_extension_ext4.rs
index 73a39ff..ee25bda 100644
--- a/keramics-formats/src/ext/inode_extension_ext4.rs
+++ b/keramics-formats/src/ext/inode_extension_ext4.rs
@@ -68,7 +68,7 @@ impl Ext4InodeExtension {
                 let (timestamp, fraction): (i64, u32) =
                     Self::get_extra_precision_timestamp(inode.change_timestamp, extra_precision);
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.change_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -80,7 +80,7 @@ impl Ext4InodeExtension {
                     extra_precision,
                 );
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.modification_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -90,7 +90,7 @@ impl Ext4InodeExtension {
                 let (timestamp, fraction): (i64, u32) =
                     Self::get_extra_precision_timestamp(inode.access_timestamp, extra_precision);
 
-                if timestamp > 0 {
+                if timestamp != 0 {
                     inode.access_time =
                         DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction));
                 }
@@ -102,7 +102,7 @@ impl Ext4InodeExtension {
             let (extra_precision_timestamp, fraction): (i64, u32) =
                 Self::get_extra_precision_timestamp(timestamp, extra_precision);
 
-            if extra_precision_timestamp > 0 {
+            if extra_precision_timestamp != 0 {
                 inode.creation_time = Some(DateTime::PosixTime64Ns(PosixTime64Ns::new(
                     extra_precision_timestamp,
                     fraction,
-- 
2.43.0


From 9a04c43562694efac306d4990e94c9f5227b1d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 113/169] fix: huge allocation for ext group descriptors
 outside the data stream

---
 keramics-formats/src/ext/file_system.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index 490642b..24e3606 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -310,9 +310,9 @@ impl ExtFileSystem {
                     number_of_block_groups = superblock.get_number_of_block_groups();
 
                     // The group descriptors must be in the data stream.
+                    let data_stream_size: u64 = keramics_core::data_stream_get_size!(data_stream);
                     let maximum_number_of_block_groups: u64 =
-                        keramics_core::data_stream_get_size!(data_stream)
-                            / (self.features.get_group_descriptor_size() as u64);
+                        data_stream_size / (self.features.get_group_descriptor_size() as u64);
 
                     if number_of_block_groups > maximum_number_of_block_groups.min(u32::MAX as u64)
                     {
@@ -334,6 +334,13 @@ impl ExtFileSystem {
                     }
                     block_group_size = superblock.get_block_group_size();
 
+                    // Ignore the group descriptors of block groups outside the data stream, except
+                    // for those of a flex group, whose inode tables can be in another block group.
+                    number_of_block_groups = number_of_block_groups.min(
+                        data_stream_size.div_ceil(block_group_size)
+                            + superblock.number_of_block_groups_per_flex_group.min(4096) as u64,
+                    );
+
                     self.number_of_inodes = superblock.number_of_inodes;
                     self.block_size = superblock.block_size;
                     self.inode_size = superblock.inode_size;
-- 
2.43.0


From 77aa0c2036dc722047df8560c655d652e00f3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 114/169] fix: panic on an ext journal device with an unusual
 inode size

---
 keramics-formats/src/ext/superblock.rs | 32 ++++++++++++--------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 0625e8a..e9506f7 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -298,23 +298,21 @@ impl ExtSuperblock {
         } else {
             bytes_to_u16_le!(data, 88)
         };
-        if self.incompatible_feature_flags & EXT_INCOMPATIBLE_FEATURE_FLAG_JOURNAL_DEVICE == 0 {
-            // An inode bitmap fits in a single block.
-            if self.number_of_inodes_per_block_group > self.block_size * 8 {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Invalid number of inodes per block group: {} value out of bounds",
-                    self.number_of_inodes_per_block_group
-                )));
-            }
-            if self.inode_size < 128
-                || !self.inode_size.is_power_of_two()
-                || (self.inode_size as u32) > self.block_size
-            {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Invalid inode size: {} value out of bounds",
-                    self.inode_size
-                )));
-            }
+        // An inode bitmap fits in a single block.
+        if self.number_of_inodes_per_block_group > self.block_size * 8 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of inodes per block group: {} value out of bounds",
+                self.number_of_inodes_per_block_group
+            )));
+        }
+        if self.inode_size < 128
+            || !self.inode_size.is_power_of_two()
+            || (self.inode_size as u32) > self.block_size
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid inode size: {} value out of bounds",
+                self.inode_size
+            )));
         }
         self.group_descriptor_size = bytes_to_u16_le!(data, 254);
         self.first_meta_block_group = bytes_to_u32_le!(data, 260);
-- 
2.43.0


From 7246fc3819559f00c17e152e40438260331e94e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 115/169] fix: huge allocation for ext group descriptors before
 the first meta block group

---
 keramics-formats/src/ext/file_system.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ext/file_system.rs b/keramics-formats/src/ext/file_system.rs
index 24e3606..147d5a6 100644
--- a/keramics-formats/src/ext/file_system.rs
+++ b/keramics-formats/src/ext/file_system.rs
@@ -364,8 +364,9 @@ impl ExtFileSystem {
                         let group_descriptor_size: u32 = self.features.get_group_descriptor_size();
                         number_of_block_groups_per_meta_group =
                             superblock.block_size / group_descriptor_size;
-                        meta_group_start_block_number = superblock.first_meta_block_group
-                            * number_of_block_groups_per_meta_group;
+                        meta_group_start_block_number = superblock
+                            .first_meta_block_group
+                            .saturating_mul(number_of_block_groups_per_meta_group);
                     }
                     self.metadata_checksum_seed = match superblock.metadata_checksum_seed {
                         Some(metadata_checksum_seed) => metadata_checksum_seed,
@@ -433,7 +434,7 @@ impl ExtFileSystem {
                 let number_of_group_descriptors: u32 = if !self.features.has_meta_block_groups() {
                     number_of_block_groups as u32
                 } else if block_group_number < meta_group_start_block_number {
-                    meta_group_start_block_number
+                    (meta_group_start_block_number as u64).min(number_of_block_groups) as u32
                 } else {
                     number_of_block_groups_per_meta_group
                 };
-- 
2.43.0


From 47a0c86a9f7c51d040a1775c29c80f3571abaeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 116/169] fix: out of bounds ext inode table block number

---
 keramics-formats/src/ext/inode_table.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ext/inode_table.rs b/keramics-formats/src/ext/inode_table.rs
index c7bc1d8..e6be47f 100644
--- a/keramics-formats/src/ext/inode_table.rs
+++ b/keramics-formats/src/ext/inode_table.rs
@@ -123,8 +123,20 @@ impl ExtInodeTable {
             };
         let inode_group_index: u32 = (inode_number - 1) % self.number_of_inodes_per_block_group;
 
-        let mut inode_data_offset: u64 = (inode_group_index as u64) * (self.inode_size as u64);
-        inode_data_offset += group_descriptor.inode_table_block_number * (self.block_size as u64);
+        let inode_data_offset: u64 = match group_descriptor
+            .inode_table_block_number
+            .checked_mul(self.block_size as u64)
+            .and_then(|offset| {
+                offset.checked_add((inode_group_index as u64) * (self.inode_size as u64))
+            }) {
+            Some(inode_data_offset) => inode_data_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid inode table block number: {} value out of bounds",
+                    group_descriptor.inode_table_block_number
+                )));
+            }
+        };
 
         let inode_size: usize = self.inode_size as usize;
         let mut data: Vec<u8> = vec![0; inode_size];
-- 
2.43.0


From 28e789b27b1d45f0f07a7ebf4c5bbe3eab484116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 117/169] fix: table without preceding text was merged with
 what follows it in the documentation

---
 docs/mdbook-tables/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/docs/mdbook-tables/src/main.rs b/docs/mdbook-tables/src/main.rs
index 35d2db9..aebc565 100644
--- a/docs/mdbook-tables/src/main.rs
+++ b/docs/mdbook-tables/src/main.rs
@@ -48,13 +48,16 @@ impl TablesPreprocessor {
         while let Some(event) = chapter_iter.next() {
             match event {
                 Event::End(TagEnd::Table) => {
-                    events.push(Event::HardBreak);
-
                     table_html.push("</table>".to_string());
-                    table_html.push("</div>".to_string());
+                    table_html.push("</div>\n".to_string());
 
                     let html_string: String = table_html.join("");
+
+                    // The table needs to be a block of its own, otherwise what follows it can
+                    // become part of it.
+                    events.push(Event::Start(Tag::HtmlBlock));
                     events.push(Event::Html(CowStr::Boxed(html_string.into())));
+                    events.push(Event::End(TagEnd::HtmlBlock));
 
                     in_table = false;
 
-- 
2.43.0


From 070894ca14d8b81c6b5fb80777d4cdccace6efda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 118/169] fix: cell of a table that starts with inline HTML was
 missing in the documentation

---
 docs/mdbook-tables/src/main.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/docs/mdbook-tables/src/main.rs b/docs/mdbook-tables/src/main.rs
index aebc565..6d808c9 100644
--- a/docs/mdbook-tables/src/main.rs
+++ b/docs/mdbook-tables/src/main.rs
@@ -96,14 +96,12 @@ impl TablesPreprocessor {
                     match &chapter_iter.peek() {
                         Some(event) => {
                             match event {
-                                Event::InlineHtml(cow_str) => {
-                                    let inline_html_string: String = cow_str.clone().into_string();
-                                    if inline_html_string.contains("colspan=") {
-                                        chapter_iter.next();
+                                Event::InlineHtml(cow_str) if cow_str.contains("colspan=") => {
+                                    table_html.push(cow_str.clone().into_string());
 
-                                        in_colspan = true;
-                                    }
-                                    table_html.push(inline_html_string);
+                                    chapter_iter.next();
+
+                                    in_colspan = true;
                                 }
                                 _ => {
                                     if !in_colspan {
-- 
2.43.0


From c8425d7b9a3fe063c1b846c0158a0e6cc31d6283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 119/169] fix: alternative text of an image in a table was
 shown as text in the documentation

---
 docs/mdbook-tables/src/main.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/docs/mdbook-tables/src/main.rs b/docs/mdbook-tables/src/main.rs
index 6d808c9..460128a 100644
--- a/docs/mdbook-tables/src/main.rs
+++ b/docs/mdbook-tables/src/main.rs
@@ -39,8 +39,10 @@ impl TablesPreprocessor {
         let mut events: Vec<Event> = Vec::new();
         let mut in_colspan: bool = false;
         let mut in_table: bool = false;
+        let mut in_table_cell: bool = false;
         let mut in_table_head: bool = false;
         let mut table_html: Vec<String> = Vec::new();
+        let mut cell_events: Vec<Event> = Vec::new();
 
         // Note that html::push_html() as used below will convert table body cells to <th> instead of <td>.
         let mut chapter_iter = chapter_parser.into_iter().peekable();
@@ -64,6 +66,14 @@ impl TablesPreprocessor {
                     continue;
                 }
                 Event::End(TagEnd::TableCell) => {
+                    // The alternative text of an image consists of the events that follow it.
+                    let mut html_string: String = String::new();
+
+                    html::push_html(&mut html_string, cell_events.drain(0..));
+                    table_html.push(html_string);
+
+                    in_table_cell = false;
+
                     if !in_colspan {
                         if in_table_head {
                             table_html.push("</th>".to_string());
@@ -116,6 +126,8 @@ impl TablesPreprocessor {
                         }
                         None => return Err(Error::msg("Missing next event")),
                     }
+                    in_table_cell = true;
+
                     continue;
                 }
                 Event::Start(Tag::TableHead) => {
@@ -127,7 +139,9 @@ impl TablesPreprocessor {
                 }
                 _ => {}
             };
-            if in_table {
+            if in_table_cell {
+                cell_events.push(event);
+            } else if in_table {
                 let mut html_string: String = String::new();
 
                 html::push_html(&mut html_string, iter::once(event));
-- 
2.43.0


From 88513cd4bc695689cb46cdcafd18462fdad0baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 120/169] fix: cells of the first table row were merged after a
 header cell with a column span in the documentation

---
 docs/mdbook-tables/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/docs/mdbook-tables/src/main.rs b/docs/mdbook-tables/src/main.rs
index 460128a..e0ae4cd 100644
--- a/docs/mdbook-tables/src/main.rs
+++ b/docs/mdbook-tables/src/main.rs
@@ -86,6 +86,7 @@ impl TablesPreprocessor {
                 Event::End(TagEnd::TableHead) => {
                     table_html.push("</thead>".to_string());
 
+                    in_colspan = false;
                     in_table_head = false;
 
                     continue;
-- 
2.43.0


From ce08bcdd8e134ee408d3bbcd4ff94bea4d4915d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 121/169] fix: memory usage of NTFS data streams and indexes
 grew with their size

---
 keramics-formats/src/ntfs/block_ranges.rs | 108 ++++++++++++++++++++++
 keramics-formats/src/ntfs/block_stream.rs |  96 +++++--------------
 keramics-formats/src/ntfs/index.rs        |  95 ++++++-------------
 keramics-formats/src/ntfs/mod.rs          |   1 +
 4 files changed, 160 insertions(+), 140 deletions(-)
 create mode 100644 keramics-formats/src/ntfs/block_ranges.rs

diff --git a/keramics-formats/src/ntfs/block_ranges.rs b/keramics-formats/src/ntfs/block_ranges.rs
new file mode 100644
index 0000000..aa685ba
--- /dev/null
+++ b/keramics-formats/src/ntfs/block_ranges.rs
@@ -0,0 +1,108 @@
+/* Copyright 2024-2025 Joachim Metz <joachim.metz@gmail.com>
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License. You may
+ * obtain a copy of the License at https://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS, WITHOUT
+ * WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied. See the
+ * License for the specific language governing permissions and limitations
+ * under the License.
+ */
+
+use keramics_core::ErrorTrace;
+
+use super::block_range::{NtfsBlockRange, NtfsBlockRangeType};
+use super::cluster_group::NtfsClusterGroup;
+use super::data_run::NtfsDataRunType;
+
+/// New Technologies File System (NTFS) block ranges.
+pub(super) struct NtfsBlockRanges {
+    /// Cluster block size.
+    cluster_block_size: u64,
+
+    /// Block ranges, in order of virtual cluster offset and without gaps.
+    block_ranges: Vec<NtfsBlockRange>,
+
+    /// Virtual cluster number of the end of the last block range.
+    end_vcn: u64,
+}
+
+impl NtfsBlockRanges {
+    /// Creates new block ranges.
+    pub fn new(cluster_block_size: u32) -> Self {
+        Self {
+            cluster_block_size: cluster_block_size as u64,
+            block_ranges: Vec::new(),
+            end_vcn: 0,
+        }
+    }
+
+    /// Adds the block ranges of a cluster group.
+    pub fn add_cluster_group(
+        &mut self,
+        cluster_group: &NtfsClusterGroup,
+    ) -> Result<(), ErrorTrace> {
+        if cluster_group.first_vcn != self.end_vcn {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Cluster group first VCN: {} does not match expected value: {}",
+                cluster_group.first_vcn, self.end_vcn
+            )));
+        }
+        for data_run in cluster_group.data_runs.iter() {
+            let range_type: NtfsBlockRangeType = match &data_run.run_type {
+                NtfsDataRunType::InFile => NtfsBlockRangeType::InFile,
+                NtfsDataRunType::Sparse => NtfsBlockRangeType::Sparse,
+                _ => {
+                    return Err(keramics_core::error_trace_new!("Unsupported data run type"));
+                }
+            };
+            let virtual_cluster_offset: u64 = self.end_vcn * self.cluster_block_size;
+
+            // The virtual and physical offsets of the end of the data run must fit in 64-bit.
+            let maximum_number_of_blocks: u64 = (i64::MAX as u64) / self.cluster_block_size;
+
+            if data_run.number_of_blocks > maximum_number_of_blocks - self.end_vcn {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid data run number of blocks: {} value out of bounds",
+                    data_run.number_of_blocks
+                )));
+            }
+            if data_run.block_number > maximum_number_of_blocks - data_run.number_of_blocks {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid data run block number: {} value out of bounds",
+                    data_run.block_number
+                )));
+            }
+            self.end_vcn += data_run.number_of_blocks;
+
+            self.block_ranges.push(NtfsBlockRange::new(
+                virtual_cluster_offset,
+                data_run.block_number,
+                data_run.number_of_blocks,
+                range_type,
+            ));
+        }
+        // Note that the last VCN is -1 if there are no data runs.
+        if cluster_group.last_vcn != 0xffffffffffffffff
+            && cluster_group.last_vcn != self.end_vcn.wrapping_sub(1)
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Cluster group last VCN: {} does not match expected value",
+                cluster_group.last_vcn
+            )));
+        }
+        Ok(())
+    }
+
+    /// Retrieves the block range of a specific virtual cluster offset.
+    pub fn get_block_range(&self, virtual_cluster_offset: u64) -> Option<&NtfsBlockRange> {
+        let range_index: usize = self.block_ranges.partition_point(|block_range| {
+            block_range.virtual_cluster_offset
+                + block_range.number_of_blocks * self.cluster_block_size
+                <= virtual_cluster_offset
+        });
+        self.block_ranges.get(range_index)
+    }
+}
diff --git a/keramics-formats/src/ntfs/block_stream.rs b/keramics-formats/src/ntfs/block_stream.rs
index 1d2713a..576ecf2 100644
--- a/keramics-formats/src/ntfs/block_stream.rs
+++ b/keramics-formats/src/ntfs/block_stream.rs
@@ -16,10 +16,8 @@ use std::io::SeekFrom;
 
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
 
-use crate::block_tree::BlockTree;
-
 use super::block_range::{NtfsBlockRange, NtfsBlockRangeType};
-use super::data_run::NtfsDataRunType;
+use super::block_ranges::NtfsBlockRanges;
 use super::mft_attribute::NtfsMftAttribute;
 
 /// New Technologies File System (NTFS) (cluster) block stream.
@@ -30,8 +28,8 @@ pub struct NtfsBlockStream {
     /// Cluster block size.
     cluster_block_size: u32,
 
-    /// Block tree.
-    block_tree: BlockTree<NtfsBlockRange>,
+    /// Block ranges.
+    block_ranges: NtfsBlockRanges,
 
     /// The current offset.
     current_offset: u64,
@@ -49,7 +47,7 @@ impl NtfsBlockStream {
         Self {
             data_stream: None,
             cluster_block_size: cluster_block_size,
-            block_tree: BlockTree::<NtfsBlockRange>::new(0, 0, 0),
+            block_ranges: NtfsBlockRanges::new(cluster_block_size),
             current_offset: 0,
             size: 0,
             valid_data_size: 0,
@@ -67,66 +65,19 @@ impl NtfsBlockStream {
                 "Unsupported resident $DATA attribute"
             ));
         }
-        let block_tree_size: u64 = data_attribute
-            .allocated_data_size
-            .div_ceil(self.cluster_block_size as u64)
-            * (self.cluster_block_size as u64);
-        self.block_tree =
-            BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, self.cluster_block_size as u64);
+        self.block_ranges = NtfsBlockRanges::new(self.cluster_block_size);
 
         if data_attribute.allocated_data_size > 0 {
-            let mut virtual_cluster_number: u64 = 0;
-            let mut virtual_cluster_offset: u64 = 0;
-
             for cluster_group in data_attribute.data_cluster_groups.iter() {
-                if cluster_group.first_vcn != virtual_cluster_number {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "$DATA attribute cluster group first VNC: {} does not match expected value: {}",
-                        cluster_group.first_vcn, virtual_cluster_number
-                    )));
-                }
-                for data_run in cluster_group.data_runs.iter() {
-                    let range_size: u64 =
-                        data_run.number_of_blocks * (self.cluster_block_size as u64);
-
-                    let range_type: NtfsBlockRangeType = match &data_run.run_type {
-                        NtfsDataRunType::InFile => NtfsBlockRangeType::InFile,
-                        NtfsDataRunType::Sparse => NtfsBlockRangeType::Sparse,
-                        _ => {
-                            return Err(keramics_core::error_trace_new!(
-                                "Unsupported data run type"
-                            ));
-                        }
-                    };
-                    let block_range: NtfsBlockRange = NtfsBlockRange::new(
-                        virtual_cluster_offset,
-                        data_run.block_number,
-                        data_run.number_of_blocks,
-                        range_type,
-                    );
-                    match self.block_tree.insert_value(
-                        virtual_cluster_offset,
-                        range_size,
-                        block_range,
-                    ) {
-                        Ok(_) => {}
-                        Err(error) => {
-                            return Err(keramics_core::error_trace_new_with_error!(
-                                "Unable to insert block range into block tree",
-                                error
-                            ));
-                        }
-                    };
-                    virtual_cluster_number += data_run.number_of_blocks as u64;
-                    virtual_cluster_offset += range_size;
-                }
-                if cluster_group.last_vcn != 0xffffffffffffffff
-                    && cluster_group.last_vcn + 1 != virtual_cluster_number
-                {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "Cluster group last VNC: {} does not match expected value",
-                        cluster_group.last_vcn
-                    )));
+                match self.block_ranges.add_cluster_group(cluster_group) {
+                    Ok(_) => {}
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            "Unable to add cluster group to block ranges"
+                        );
+                        return Err(error);
+                    }
                 }
             }
         }
@@ -163,15 +114,16 @@ impl NtfsBlockStream {
 
                 range_read_size
             } else {
-                let block_range: &NtfsBlockRange = match self.block_tree.get_value(current_offset) {
-                    Some(value) => value,
-                    None => {
-                        return Err(keramics_core::error_trace_new!(format!(
-                            "Missing block range for offset: {}",
-                            current_offset
-                        )));
-                    }
-                };
+                let block_range: &NtfsBlockRange =
+                    match self.block_ranges.get_block_range(current_offset) {
+                        Some(value) => value,
+                        None => {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Missing block range for offset: {}",
+                                current_offset
+                            )));
+                        }
+                    };
                 let range_logical_offset: u64 = block_range.virtual_cluster_offset;
                 let range_size: u64 =
                     block_range.number_of_blocks * (self.cluster_block_size as u64);
diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index 997c20a..7ddc9a7 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -15,10 +15,8 @@ use std::io::SeekFrom;
 
 use keramics_core::{DataStreamReference, ErrorTrace};
 
-use crate::block_tree::BlockTree;
-
 use super::block_range::{NtfsBlockRange, NtfsBlockRangeType};
-use super::data_run::NtfsDataRunType;
+use super::block_ranges::NtfsBlockRanges;
 use super::index_entry::NtfsIndexEntry;
 use super::mft_attribute::NtfsMftAttribute;
 
@@ -30,8 +28,8 @@ pub struct NtfsIndex {
     /// Index entry size.
     pub index_entry_size: u32,
 
-    /// Block tree.
-    block_tree: BlockTree<NtfsBlockRange>,
+    /// Block ranges.
+    block_ranges: NtfsBlockRanges,
 }
 
 impl NtfsIndex {
@@ -40,7 +38,7 @@ impl NtfsIndex {
         Self {
             cluster_block_size: cluster_block_size,
             index_entry_size: 0,
-            block_tree: BlockTree::<NtfsBlockRange>::new(0, 0, 0),
+            block_ranges: NtfsBlockRanges::new(cluster_block_size),
         }
     }
 
@@ -50,17 +48,19 @@ impl NtfsIndex {
         data_stream: &DataStreamReference,
         virtual_cluster_number: u64,
     ) -> Result<NtfsIndexEntry, ErrorTrace> {
-        let virtual_cluster_offset: u64 = virtual_cluster_number * (self.cluster_block_size as u64);
-
-        let block_range: &NtfsBlockRange = match self.block_tree.get_value(virtual_cluster_offset) {
-            Some(value) => value,
-            None => {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Missing block range for VCN: {}",
-                    virtual_cluster_number
-                )));
-            }
-        };
+        let virtual_cluster_offset: u64 =
+            virtual_cluster_number.saturating_mul(self.cluster_block_size as u64);
+
+        let block_range: &NtfsBlockRange =
+            match self.block_ranges.get_block_range(virtual_cluster_offset) {
+                Some(value) if value.range_type == NtfsBlockRangeType::InFile => value,
+                _ => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Missing block range for VCN: {}",
+                        virtual_cluster_number
+                    )));
+                }
+            };
         let range_relative_offset: u64 =
             virtual_cluster_offset - block_range.virtual_cluster_offset;
         let index_entry_offset: u64 = (block_range.cluster_block_number
@@ -114,59 +114,18 @@ impl NtfsIndex {
                 "Unsupported compressed $INDEX_ALLOCATION attribute"
             ));
         }
-        let block_tree_size: u64 = (index_allocation_attribute.allocated_data_size
-            / (self.cluster_block_size as u64))
-            * (self.cluster_block_size as u64);
-        self.block_tree =
-            BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, self.cluster_block_size as u64);
-
-        let mut virtual_cluster_number: u64 = 0;
-        let mut virtual_cluster_offset: u64 = 0;
+        self.block_ranges = NtfsBlockRanges::new(self.cluster_block_size);
 
         for cluster_group in index_allocation_attribute.data_cluster_groups.iter() {
-            if cluster_group.first_vcn != virtual_cluster_number {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "$INDEX_ALLOCATION attribute cluster group first VNC: {} does not match expected value: {}",
-                    cluster_group.first_vcn, virtual_cluster_number
-                )));
-            }
-            for data_run in cluster_group.data_runs.iter() {
-                let range_size: u64 = data_run.number_of_blocks * (self.cluster_block_size as u64);
-
-                let range_type: NtfsBlockRangeType = match &data_run.run_type {
-                    NtfsDataRunType::InFile => NtfsBlockRangeType::InFile,
-                    _ => {
-                        return Err(keramics_core::error_trace_new!("Unsupported data run type"));
-                    }
-                };
-                let block_range: NtfsBlockRange = NtfsBlockRange::new(
-                    virtual_cluster_offset,
-                    data_run.block_number,
-                    data_run.number_of_blocks,
-                    range_type,
-                );
-                match self
-                    .block_tree
-                    .insert_value(virtual_cluster_offset, range_size, block_range)
-                {
-                    Ok(_) => {}
-                    Err(error) => {
-                        return Err(keramics_core::error_trace_new_with_error!(
-                            "Unable to insert block range into block tree",
-                            error
-                        ));
-                    }
-                };
-                virtual_cluster_number += data_run.number_of_blocks as u64;
-                virtual_cluster_offset += range_size;
-            }
-            if cluster_group.last_vcn != 0xffffffffffffffff
-                && cluster_group.last_vcn + 1 != virtual_cluster_number
-            {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Cluster group last VNC: {} does not match expected value",
-                    cluster_group.last_vcn
-                )));
+            match self.block_ranges.add_cluster_group(cluster_group) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to add cluster group to block ranges"
+                    );
+                    return Err(error);
+                }
             }
         }
         self.index_entry_size = index_entry_size;
diff --git a/keramics-formats/src/ntfs/mod.rs b/keramics-formats/src/ntfs/mod.rs
index ed875e0..645f503 100644
--- a/keramics-formats/src/ntfs/mod.rs
+++ b/keramics-formats/src/ntfs/mod.rs
@@ -15,6 +15,7 @@ mod attribute;
 mod attribute_list;
 mod attribute_list_entry;
 mod block_range;
+mod block_ranges;
 mod block_stream;
 mod boot_record;
 mod cluster_group;
-- 
2.43.0


From 63caddd3f29547111cadbaaf99e1f24b34b54e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 122/169] fix: overflow of MFT and index entry sizes of 2^32 in
 the NTFS boot record

---
 keramics-formats/src/ntfs/boot_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/boot_record.rs b/keramics-formats/src/ntfs/boot_record.rs
index 79b7af5..104197e 100644
--- a/keramics-formats/src/ntfs/boot_record.rs
+++ b/keramics-formats/src/ntfs/boot_record.rs
@@ -148,7 +148,7 @@ impl NtfsBootRecord {
         } else {
             // The size is calculated as: 2 ^ ( 256 - value ).
             let exponent: u32 = 256 - mft_entry_size;
-            if exponent > 32 {
+            if exponent > 31 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported MFT entry size: {} value out of bounds",
                     mft_entry_size
@@ -181,7 +181,7 @@ impl NtfsBootRecord {
         } else {
             // The size is calculated as: 2 ^ ( 256 - value ).
             let exponent: u32 = 256 - index_entry_size;
-            if exponent > 32 {
+            if exponent > 31 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Unsupported index entry size: {} value out of bounds",
                     index_entry_size
-- 
2.43.0


From c45a515276598e68fe08003af93b5d0cf96e0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 123/169] fix: overflows of NTFS data runs

---
 keramics-formats/src/ntfs/data_run.rs         | 11 +++++---
 .../src/ntfs/master_file_table.rs             | 25 +++++++++++++++++--
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/ntfs/data_run.rs b/keramics-formats/src/ntfs/data_run.rs
index de0d109..cf5560c 100644
--- a/keramics-formats/src/ntfs/data_run.rs
+++ b/keramics-formats/src/ntfs/data_run.rs
@@ -109,9 +109,14 @@ impl NtfsDataRun {
                 block_number <<= 8;
                 block_number |= *byte_value as i64;
             }
-            block_number += last_block_number as i64;
-
-            self.block_number = block_number as u64;
+            self.block_number = match block_number.checked_add(last_block_number as i64) {
+                Some(block_number) => block_number as u64,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid block number value out of bounds"
+                    ));
+                }
+            };
         }
         data_offset += block_number_size;
 
diff --git a/keramics-formats/src/ntfs/master_file_table.rs b/keramics-formats/src/ntfs/master_file_table.rs
index faecbde..a3c17ee 100644
--- a/keramics-formats/src/ntfs/master_file_table.rs
+++ b/keramics-formats/src/ntfs/master_file_table.rs
@@ -55,11 +55,32 @@ impl NtfsMasterFileTable {
 
     /// Adds a cluster group to the master file table.
     fn add_cluster_group(&mut self, cluster_group: &NtfsClusterGroup) -> Result<(), ErrorTrace> {
+        // The virtual and physical offsets of the end of a data run must fit in 64-bit.
+        let maximum_number_of_blocks: u64 = (i64::MAX as u64) / (self.cluster_block_size as u64);
+
+        if cluster_group.first_vcn > maximum_number_of_blocks {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid cluster group first VCN: {} value out of bounds",
+                cluster_group.first_vcn
+            )));
+        }
         let mut virtual_cluster_number: u64 = cluster_group.first_vcn;
         let mut virtual_cluster_offset: u64 =
             cluster_group.first_vcn * (self.cluster_block_size as u64);
 
         for data_run in cluster_group.data_runs.iter() {
+            if data_run.number_of_blocks > maximum_number_of_blocks - virtual_cluster_number {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid data run number of blocks: {} value out of bounds",
+                    data_run.number_of_blocks
+                )));
+            }
+            if data_run.block_number > maximum_number_of_blocks - data_run.number_of_blocks {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid data run block number: {} value out of bounds",
+                    data_run.block_number
+                )));
+            }
             let range_size: u64 = data_run.number_of_blocks * (self.cluster_block_size as u64);
 
             if range_size % (self.mft_entry_size as u64) != 0 {
@@ -98,7 +119,7 @@ impl NtfsMasterFileTable {
             virtual_cluster_offset += range_size;
         }
         if cluster_group.last_vcn != 0xffffffffffffffff
-            && cluster_group.last_vcn + 1 != virtual_cluster_number
+            && cluster_group.last_vcn != virtual_cluster_number.wrapping_sub(1)
         {
             return Err(keramics_core::error_trace_new!(format!(
                 "Cluster group last VNC: {} does not match expected value",
@@ -114,7 +135,7 @@ impl NtfsMasterFileTable {
         data_stream: &DataStreamReference,
         entry_number: u64,
     ) -> Result<NtfsMftEntry, ErrorTrace> {
-        let virtual_cluster_offset: u64 = entry_number * (self.mft_entry_size as u64);
+        let virtual_cluster_offset: u64 = entry_number.saturating_mul(self.mft_entry_size as u64);
 
         let block_range: &NtfsBlockRange = match self.block_tree.get_value(virtual_cluster_offset) {
             Some(value) => value,
-- 
2.43.0


From 4c1bfbf8a799fffd55cd367875927049591ab000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 124/169] fix: memory usage of the NTFS master file table grew
 with its size

---
 keramics-formats/src/ntfs/master_file_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/master_file_table.rs b/keramics-formats/src/ntfs/master_file_table.rs
index a3c17ee..49541b1 100644
--- a/keramics-formats/src/ntfs/master_file_table.rs
+++ b/keramics-formats/src/ntfs/master_file_table.rs
@@ -235,7 +235,7 @@ impl NtfsMasterFileTable {
             )));
         }
         self.block_tree =
-            BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, mft_entry_size as u64);
+            BlockTree::<NtfsBlockRange>::new(block_tree_size, 256, mft_entry_size as u64);
 
         self.cluster_block_size = cluster_block_size;
         self.mft_entry_size = mft_entry_size;
-- 
2.43.0


From 1e387c78e218d9854592cf206ee0b2d217263432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 125/169] fix: only the first cluster group of the data of an
 NTFS MFT entry was used

---
 .../src/ntfs/master_file_table.rs             | 30 +++++++++++--------
 keramics-formats/src/ntfs/mft_attribute.rs    |  7 ++++-
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/keramics-formats/src/ntfs/master_file_table.rs b/keramics-formats/src/ntfs/master_file_table.rs
index 49541b1..44108d0 100644
--- a/keramics-formats/src/ntfs/master_file_table.rs
+++ b/keramics-formats/src/ntfs/master_file_table.rs
@@ -240,11 +240,13 @@ impl NtfsMasterFileTable {
         self.cluster_block_size = cluster_block_size;
         self.mft_entry_size = mft_entry_size;
 
-        match self.add_cluster_group(&data_attribute.data_cluster_groups[0]) {
-            Ok(_) => {}
-            Err(mut error) => {
-                keramics_core::error_trace_add_frame!(error, "Unable to add cluster group");
-                return Err(error);
+        for cluster_group in data_attribute.data_cluster_groups.iter() {
+            match self.add_cluster_group(cluster_group) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(error, "Unable to add cluster group");
+                    return Err(error);
+                }
             }
         }
         let mft_entries: Vec<u64> = match mft_attributes.attribute_list {
@@ -310,14 +312,16 @@ impl NtfsMasterFileTable {
 
             match mft_attributes.get_attribute(&None, NTFS_ATTRIBUTE_TYPE_DATA) {
                 Some(mft_attribute) => {
-                    match self.add_cluster_group(&mft_attribute.data_cluster_groups[0]) {
-                        Ok(_) => {}
-                        Err(mut error) => {
-                            keramics_core::error_trace_add_frame!(
-                                error,
-                                "Unable to add cluster group"
-                            );
-                            return Err(error);
+                    for cluster_group in mft_attribute.data_cluster_groups.iter() {
+                        match self.add_cluster_group(cluster_group) {
+                            Ok(_) => {}
+                            Err(mut error) => {
+                                keramics_core::error_trace_add_frame!(
+                                    error,
+                                    "Unable to add cluster group"
+                                );
+                                return Err(error);
+                            }
                         }
                     }
                 }
diff --git a/keramics-formats/src/ntfs/mft_attribute.rs b/keramics-formats/src/ntfs/mft_attribute.rs
index f2f2e33..862da6c 100644
--- a/keramics-formats/src/ntfs/mft_attribute.rs
+++ b/keramics-formats/src/ntfs/mft_attribute.rs
@@ -125,7 +125,12 @@ impl NtfsMftAttribute {
                 "Unsupported resident attribute"
             ));
         }
-        if other.data_cluster_groups[0].first_vcn == 0 {
+        let has_first_cluster_group: bool = other
+            .data_cluster_groups
+            .iter()
+            .any(|cluster_group| cluster_group.first_vcn == 0);
+
+        if has_first_cluster_group {
             self.allocated_data_size = other.allocated_data_size;
             self.data_size = other.data_size;
             self.valid_data_size = other.valid_data_size;
-- 
2.43.0


From 8e1898f4003d70319d82d4a62a301f5725f9adb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 126/169] fix: NTFS MFT entries not in use were considered
 allocated

---
 keramics-formats/src/ntfs/constants.rs        | 3 +++
 keramics-formats/src/ntfs/mft_entry.rs        | 2 +-
 keramics-formats/src/ntfs/mft_entry_header.rs | 5 +++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/constants.rs b/keramics-formats/src/ntfs/constants.rs
index ecdaa82..69053d1 100644
--- a/keramics-formats/src/ntfs/constants.rs
+++ b/keramics-formats/src/ntfs/constants.rs
@@ -87,6 +87,9 @@ pub(super) const NTFS_INDEX_VALUE_FLAG_IS_BRANCH: u32 = 0x00000001;
 /// NTFS index value flag to indicate the value is the last value in node.
 pub(super) const NTFS_INDEX_VALUE_FLAG_IS_LAST: u32 = 0x00000002;
 
+/// MFT entry is in use flag.
+pub(super) const NTFS_MFT_ENTRY_FLAG_IN_USE: u16 = 0x0001;
+
 /// NTFS WINDOWS name space.
 pub(super) const NTFS_NAME_SPACE_WINDOWS: u8 = 0x01;
 
diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index b3e04eb..f6d50dc 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -187,7 +187,7 @@ impl NtfsMftEntry {
         self.base_record_file_reference = mft_entry_header.base_record_file_reference;
         self.journal_sequence_number = mft_entry_header.journal_sequence_number;
         self.attributes_offset = mft_entry_header.attributes_offset;
-        self.is_allocated = true;
+        self.is_allocated = mft_entry_header.flags & NTFS_MFT_ENTRY_FLAG_IN_USE != 0;
 
         Ok(())
     }
diff --git a/keramics-formats/src/ntfs/mft_entry_header.rs b/keramics-formats/src/ntfs/mft_entry_header.rs
index cc0de11..3a263aa 100644
--- a/keramics-formats/src/ntfs/mft_entry_header.rs
+++ b/keramics-formats/src/ntfs/mft_entry_header.rs
@@ -55,6 +55,9 @@ pub struct NtfsMftEntryHeader {
     /// Attributes offset.
     pub attributes_offset: u16,
 
+    /// Flags.
+    pub flags: u16,
+
     /// MFT entry size.
     pub mft_entry_size: u32,
 
@@ -71,6 +74,7 @@ impl NtfsMftEntryHeader {
             journal_sequence_number: 0,
             sequence_number: 0,
             attributes_offset: 0,
+            flags: 0,
             mft_entry_size: 0,
             base_record_file_reference: 0,
         }
@@ -93,6 +97,7 @@ impl NtfsMftEntryHeader {
         self.journal_sequence_number = bytes_to_u64_le!(data, 8);
         self.sequence_number = bytes_to_u16_le!(data, 16);
         self.attributes_offset = bytes_to_u16_le!(data, 20);
+        self.flags = bytes_to_u16_le!(data, 22);
         self.mft_entry_size = bytes_to_u32_le!(data, 28);
         self.base_record_file_reference = bytes_to_u64_le!(data, 32);
 
-- 
2.43.0


From e675b9c0f4f5d1aec13919f4401efaded389bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 127/169] fix: NTFS MFT entries that are empty or marked bad
 could not be retrieved and attributes without size were read endlessly

---
 keramics-formats/src/ntfs/mft_entry.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/mft_entry.rs b/keramics-formats/src/ntfs/mft_entry.rs
index f6d50dc..c473b15 100644
--- a/keramics-formats/src/ntfs/mft_entry.rs
+++ b/keramics-formats/src/ntfs/mft_entry.rs
@@ -75,11 +75,15 @@ impl NtfsMftEntry {
         &self,
         mft_attributes: &mut NtfsMftAttributes,
     ) -> Result<(), ErrorTrace> {
+        // Note that a MFT entry that is empty or marked bad has no attributes.
+        if self.is_empty || self.is_bad {
+            return Ok(());
+        }
         let mut data_offset: usize = self.attributes_offset as usize;
         let data_size: usize = self.data.len();
 
         loop {
-            if data_offset > data_size - 4 {
+            if data_size < 4 || data_offset > data_size - 4 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid data offset: {} value out of bounds",
                     data_offset
@@ -98,7 +102,15 @@ impl NtfsMftEntry {
                     return Err(error);
                 }
             }
-            data_offset += mft_attribute.attribute_size as usize;
+            let attribute_size: usize = mft_attribute.attribute_size as usize;
+
+            if attribute_size < 16 || attribute_size > data_size - data_offset {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid MFT attribute size: {} value out of bounds",
+                    attribute_size
+                )));
+            }
+            data_offset += attribute_size;
 
             match mft_attributes.add_attribute(mft_attribute) {
                 Ok(_) => {}
-- 
2.43.0


From 2398fe8a28df755d05056717e4e357632bacaac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 128/169] fix: NTFS attribute list entries without size were
 read endlessly

---
 keramics-formats/src/ntfs/attribute_list.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index d684384..fefc8da 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -60,6 +60,12 @@ impl NtfsAttributeList {
             // TODO: read name.
             // TODO: print remaining data.
 
+            if entry.attribute_size < 26 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid attribute list entry size: {} value out of bounds",
+                    entry.attribute_size
+                )));
+            }
             data_offset += entry.attribute_size as usize;
 
             self.entries.push(entry);
-- 
2.43.0


From 3373c659e72a5257a4a8df80256df7209f010ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 129/169] fix: NTFS attribute list with an entry in more than
 one cluster block could not be read

---
 keramics-formats/src/ntfs/attribute_list.rs | 51 +++++++++++----------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index fefc8da..6cf60db 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -112,31 +112,34 @@ impl NtfsAttributeList {
                     return Err(error);
                 }
             }
-            let mut cluster_block: Vec<u8> = vec![0; cluster_block_size as usize];
-
-            loop {
-                let read_count: usize = match block_stream.read(&mut cluster_block) {
-                    Ok(read_count) => read_count,
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read attribute list from block stream"
-                        );
-                        return Err(error);
-                    }
-                };
-                if read_count == 0 {
-                    break;
+            // Note that 262144 is the maximum attribute list size.
+            if data_attribute.data_size > 262144 {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid attribute list size: {} value out of bounds",
+                    data_attribute.data_size
+                )));
+            }
+            // Note that an attribute list entry can be stored in more than one cluster block.
+            let mut data: Vec<u8> = vec![0; data_attribute.data_size as usize];
+
+            match block_stream.read_exact(&mut data) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read attribute list from block stream"
+                    );
+                    return Err(error);
                 }
-                match self.read_data(&cluster_block[..read_count]) {
-                    Ok(_) => {}
-                    Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            "Unable to read non-resident attribute list"
-                        );
-                        return Err(error);
-                    }
+            }
+            match self.read_data(&data) {
+                Ok(_) => {}
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        "Unable to read non-resident attribute list"
+                    );
+                    return Err(error);
                 }
             }
         }
-- 
2.43.0


From c1ddd7b8467788117e511269e275d32cc160a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 130/169] fix: reads from within a compression unit of NTFS
 compressed data could exceed the unit

---
 keramics-formats/src/ntfs/compressed_stream.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 3c1e159..15d8cce 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -247,10 +247,6 @@ impl NtfsCompressedStream {
             let data_end_offset: usize = data_offset + range_read_size;
             let read_count: usize = match compression_unit.range_type {
                 NtfsCompressionRangeType::Compressed => {
-                    let range_read_size: usize =
-                        min(read_remainder_size, self.compression_unit_size);
-                    let data_end_offset: usize = data_offset + range_read_size;
-
                     if !self.block_cache.contains(&range_offset) {
                         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
                             Some(data_stream) => data_stream,
-- 
2.43.0


From 15313fc5e445ef08aca2e664208fee2bc9370dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 131/169] fix: NTFS compressed data of which the last
 compression unit is cut could not be read and memory usage grew with its size

---
 .../src/ntfs/compressed_stream.rs             | 50 ++++---------------
 1 file changed, 10 insertions(+), 40 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 15d8cce..49209f7 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -19,7 +19,6 @@ use keramics_compression::Lznt1Context;
 use keramics_core::mediator::{Mediator, MediatorReference};
 use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
 
-use crate::block_tree::BlockTree;
 use crate::lru_cache::LruCache;
 
 use super::block_stream::NtfsBlockStream;
@@ -38,8 +37,8 @@ pub struct NtfsCompressedStream {
     /// Cluster block size.
     cluster_block_size: u32,
 
-    /// Compression block tree.
-    block_tree: BlockTree<NtfsCompressionRange>,
+    /// Compression ranges, in order of offset.
+    compression_ranges: Vec<NtfsCompressionRange>,
 
     /// Compression unit size.
     compression_unit_size: usize,
@@ -61,7 +60,7 @@ impl NtfsCompressedStream {
             mediator: Mediator::current(),
             data_stream: None,
             cluster_block_size: cluster_block_size,
-            block_tree: BlockTree::<NtfsCompressionRange>::new(0, 0, 0),
+            compression_ranges: Vec::new(),
             compression_unit_size: 0,
             block_cache: LruCache::new(8),
             current_offset: 0,
@@ -109,15 +108,7 @@ impl NtfsCompressedStream {
                 "Unsupported allocated data size not a multitude of compression unit size"
             ));
         }
-        let block_tree_size: u64 = data_attribute
-            .allocated_data_size
-            .div_ceil(self.compression_unit_size as u64)
-            * (self.compression_unit_size as u64);
-        self.block_tree = BlockTree::<NtfsCompressionRange>::new(
-            block_tree_size,
-            0,
-            self.compression_unit_size as u64,
-        );
+        self.compression_ranges = Vec::new();
 
         if data_attribute.allocated_data_size > 0 {
             let mut virtual_cluster_offset: u64 = 0;
@@ -147,19 +138,7 @@ impl NtfsCompressedStream {
 
                             compression_range.size = compression_range_size;
 
-                            match self.block_tree.insert_value(
-                                compression_range.offset,
-                                compression_range.size,
-                                compression_range,
-                            ) {
-                                Ok(_) => {}
-                                Err(error) => {
-                                    return Err(keramics_core::error_trace_new_with_error!(
-                                        "Unable to insert block range into block tree",
-                                        error
-                                    ));
-                                }
-                            };
+                            self.compression_ranges.push(compression_range);
                             virtual_cluster_offset += compression_range_size;
 
                             compression_range = NtfsCompressionRange::new(
@@ -192,19 +171,7 @@ impl NtfsCompressedStream {
                 }
             }
             if compression_range.size > 0 {
-                match self.block_tree.insert_value(
-                    compression_range.offset,
-                    compression_range.size,
-                    compression_range,
-                ) {
-                    Ok(_) => {}
-                    Err(error) => {
-                        return Err(keramics_core::error_trace_new_with_error!(
-                            "Unable to insert block range into block tree",
-                            error
-                        ));
-                    }
-                };
+                self.compression_ranges.push(compression_range);
             }
         }
         self.size = data_attribute.valid_data_size;
@@ -222,8 +189,11 @@ impl NtfsCompressedStream {
             if current_offset >= self.size {
                 break;
             }
+            let range_index: usize = self
+                .compression_ranges
+                .partition_point(|range| range.offset + range.size <= current_offset);
             let compression_unit: &NtfsCompressionRange =
-                match self.block_tree.get_value(current_offset) {
+                match self.compression_ranges.get(range_index) {
                     Some(value) => value,
                     None => {
                         return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 815f240ebdf49fd58b816cd511f27b004c3c8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 132/169] fix: NTFS compressed data ended at its valid data
 size

---
 .../src/ntfs/compressed_stream.rs             | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 49209f7..09bd3e5 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -51,6 +51,9 @@ pub struct NtfsCompressedStream {
 
     /// The size.
     size: u64,
+
+    /// The valid data size.
+    valid_data_size: u64,
 }
 
 impl NtfsCompressedStream {
@@ -65,6 +68,7 @@ impl NtfsCompressedStream {
             block_cache: LruCache::new(8),
             current_offset: 0,
             size: 0,
+            valid_data_size: 0,
         }
     }
 
@@ -174,7 +178,8 @@ impl NtfsCompressedStream {
                 self.compression_ranges.push(compression_range);
             }
         }
-        self.size = data_attribute.valid_data_size;
+        self.size = data_attribute.data_size;
+        self.valid_data_size = data_attribute.valid_data_size;
 
         Ok(())
     }
@@ -189,6 +194,19 @@ impl NtfsCompressedStream {
             if current_offset >= self.size {
                 break;
             }
+            if current_offset >= self.valid_data_size {
+                let range_remainder_size: u64 = self.size - current_offset;
+                let range_read_size: usize =
+                    min((read_size - data_offset) as u64, range_remainder_size) as usize;
+                let data_end_offset: usize = data_offset + range_read_size;
+
+                data[data_offset..data_end_offset].fill(0);
+
+                data_offset = data_end_offset;
+                current_offset += range_read_size as u64;
+
+                continue;
+            }
             let range_index: usize = self
                 .compression_ranges
                 .partition_point(|range| range.offset + range.size <= current_offset);
@@ -206,7 +224,10 @@ impl NtfsCompressedStream {
             let range_size: u64 = compression_unit.size;
 
             let range_relative_offset: u64 = current_offset - range_offset;
-            let range_end_offset: u64 = min(range_offset + range_size, self.size);
+            let range_end_offset: u64 = min(
+                range_offset + range_size,
+                min(self.valid_data_size, self.size),
+            );
 
             let range_remainder_size: u64 =
                 (range_end_offset - range_offset) - range_relative_offset;
-- 
2.43.0


From 6d5b92de65a9e395d3d61214add4f42146620c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 133/169] fix: memory usage of damaged NTFS compression unit
 sizes

---
 keramics-formats/src/ntfs/compressed_stream.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 09bd3e5..4790cfd 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -93,6 +93,17 @@ impl NtfsCompressedStream {
                 "Unsupported compression unit size"
             ));
         }
+        self.compression_unit_size =
+            (data_attribute.compression_unit_size as usize) * (self.cluster_block_size as usize);
+
+        // Note that 16777216 is an arbitrary chosen limit, given 65536 is the largest known
+        // compression unit size.
+        if self.compression_unit_size > 16777216 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid compression unit size: {} value out of bounds",
+                self.compression_unit_size
+            )));
+        }
         let mut block_stream: NtfsBlockStream = NtfsBlockStream::new(self.cluster_block_size);
 
         match block_stream.open(data_stream, data_attribute) {
@@ -104,9 +115,6 @@ impl NtfsCompressedStream {
         }
         self.data_stream = Some(Arc::new(RwLock::new(block_stream)));
 
-        self.compression_unit_size =
-            (data_attribute.compression_unit_size as usize) * (self.cluster_block_size as usize);
-
         if data_attribute.allocated_data_size % (self.compression_unit_size as u64) != 0 {
             return Err(keramics_core::error_trace_new!(
                 "Unsupported allocated data size not a multitude of compression unit size"
-- 
2.43.0


From 8eb2ec3e22cc288fe728d29b387326e5c04dc282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 134/169] fix: NTFS Windows Overlay Filter data ended at the
 valid data size of the sparse data

---
 keramics-formats/src/ntfs/mft_attributes.rs        | 2 +-
 keramics-formats/src/ntfs/wof_compressed_stream.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/mft_attributes.rs b/keramics-formats/src/ntfs/mft_attributes.rs
index 4916a96..6a4a4d5 100644
--- a/keramics-formats/src/ntfs/mft_attributes.rs
+++ b/keramics-formats/src/ntfs/mft_attributes.rs
@@ -273,7 +273,7 @@ impl NtfsMftAttributes {
             match wof_compressed_stream.open(
                 data_stream,
                 wof_data_attribute,
-                data_attribute.valid_data_size,
+                data_attribute.data_size,
             ) {
                 Ok(_) => {}
                 Err(mut error) => {
diff --git a/keramics-formats/src/ntfs/wof_compressed_stream.rs b/keramics-formats/src/ntfs/wof_compressed_stream.rs
index 79ee328..e863ebf 100644
--- a/keramics-formats/src/ntfs/wof_compressed_stream.rs
+++ b/keramics-formats/src/ntfs/wof_compressed_stream.rs
@@ -105,7 +105,7 @@ impl NtfsWofCompressedStream {
             }
         }
         self.data_stream = Some(Arc::new(RwLock::new(block_stream)));
-        self.compressed_size = wof_data_attribute.valid_data_size;
+        self.compressed_size = wof_data_attribute.data_size;
         self.compression_unit_size = match self.compression_method {
             0 => 4096,
             1 => 32768,
-- 
2.43.0


From f6588ee626f2f4ba4a5aa8ec11fd40936c262684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:37 +0000
Subject: [PATCH 135/169] fix: panics and memory usage of damaged NTFS Windows
 Overlay Filter block offsets

---
 .../src/ntfs/wof_compressed_stream.rs         | 59 ++++++++++++++-----
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/keramics-formats/src/ntfs/wof_compressed_stream.rs b/keramics-formats/src/ntfs/wof_compressed_stream.rs
index e863ebf..a9387cb 100644
--- a/keramics-formats/src/ntfs/wof_compressed_stream.rs
+++ b/keramics-formats/src/ntfs/wof_compressed_stream.rs
@@ -154,7 +154,7 @@ impl NtfsWofCompressedStream {
             } else {
                 self.compressed_size
             };
-            let block_size: usize = (next_block_offset - block_offset) as usize;
+            let block_size: u64 = next_block_offset - block_offset;
 
             let range_offset: u64 = block_index * (self.compression_unit_size as u64);
             let range_size: u64 = min(self.compression_unit_size as u64, self.size - range_offset);
@@ -168,7 +168,14 @@ impl NtfsWofCompressedStream {
             }
             let data_end_offset: usize = data_offset + block_read_size;
 
-            if range_size == (block_size as u64) {
+            // Note that a block that cannot be compressed is stored uncompressed.
+            if block_size > range_size {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid compressed block size: {} value out of bounds",
+                    block_size
+                )));
+            }
+            if range_size == block_size {
                 let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
                     Some(data_stream) => data_stream,
                     None => {
@@ -186,7 +193,7 @@ impl NtfsWofCompressedStream {
                 if !self.block_cache.contains(&block_offset) {
                     let mut data: Vec<u8> = vec![0; self.compression_unit_size];
 
-                    match self.read_compressed_block(block_offset, block_size, &mut data) {
+                    match self.read_compressed_block(block_offset, block_size as usize, &mut data) {
                         Ok(_) => {}
                         Err(mut error) => {
                             keramics_core::error_trace_add_frame!(
@@ -289,17 +296,34 @@ impl NtfsWofCompressedStream {
 
     /// Reads the compressed block offsets.
     fn read_compressed_block_offsets(&mut self) -> Result<(), ErrorTrace> {
-        let block_offset_data_size: usize = if self.compressed_size > u32::MAX as u64 {
+        let block_offset_data_size: u64 = if self.compressed_size > u32::MAX as u64 {
             8
         } else {
             4
         };
-        let number_of_block_offsets: usize =
-            self.size.div_ceil(self.compression_unit_size as u64) as usize;
+        let number_of_block_offsets: u64 = self.size.div_ceil(self.compression_unit_size as u64);
 
         // Note that the number of block offsets in the table is total number of blocks - 1.
         // Given that the first block offset is directly after the block offsets table.
-        let data_size: usize = (number_of_block_offsets - 1) * block_offset_data_size;
+        let data_size: u64 = match number_of_block_offsets
+            .saturating_sub(1)
+            .checked_mul(block_offset_data_size)
+        {
+            Some(data_size) if data_size <= self.compressed_size => data_size,
+            _ => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of block offsets: {} value out of bounds",
+                    number_of_block_offsets
+                )));
+            }
+        };
+        // Note that 134217728 is an arbitrary chosen limit.
+        if data_size > 134217728 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block offsets data size: {} value out of bounds",
+                data_size
+            )));
+        }
 
         let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
             Some(data_stream) => data_stream,
@@ -307,7 +331,7 @@ impl NtfsWofCompressedStream {
                 return Err(keramics_core::error_trace_new!("Missing data stream"));
             }
         };
-        let mut data: Vec<u8> = vec![0; data_size];
+        let mut data: Vec<u8> = vec![0; data_size as usize];
 
         keramics_core::data_stream_read_exact_at_position!(
             data_stream,
@@ -321,24 +345,31 @@ impl NtfsWofCompressedStream {
             ));
             self.mediator.debug_print_data(&data, true);
         }
-        self.block_offsets.push(data_size as u64);
+        let mut block_offsets: Vec<u64> = Vec::new();
+        let mut last_block_offset: u64 = data_size;
 
-        for data_offset in (0..data_size).step_by(block_offset_data_size) {
-            let mut block_offset: u64 = if block_offset_data_size == 8 {
+        block_offsets.push(data_size);
+
+        for data_offset in (0..data.len()).step_by(block_offset_data_size as usize) {
+            let relative_offset: u64 = if block_offset_data_size == 8 {
                 bytes_to_u64_le!(data, data_offset)
             } else {
                 bytes_to_u32_le!(data, data_offset) as u64
             };
-            block_offset += data_size as u64;
+            let block_offset: u64 = relative_offset.saturating_add(data_size);
 
-            if block_offset > self.compressed_size {
+            if block_offset < last_block_offset || block_offset > self.compressed_size {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid block offset: {} (0x{:08x}) value out of bounds",
                     block_offset, block_offset
                 )));
             }
-            self.block_offsets.push(block_offset);
+            block_offsets.push(block_offset);
+
+            last_block_offset = block_offset;
         }
+        self.block_offsets = block_offsets;
+
         if self.mediator.debug_output {
             self.mediator
                 .debug_print(format!("NtfsWofCompressedBlockOffsets {{\n",));
-- 
2.43.0


From 2911db4889138d13e031e4baf18f4335c11417f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:36 +0000
Subject: [PATCH 136/169] fix: NTFS symbolic links with an empty name at the
 end of the data could not be read

---
 keramics-formats/src/ntfs/symbolic_link_reparse_data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
index 9a1a90e..3767b35 100644
--- a/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
+++ b/keramics-formats/src/ntfs/symbolic_link_reparse_data.rs
@@ -59,7 +59,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (substitute_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid substitute name offset value out of bounds"
             ));
@@ -79,7 +79,7 @@ impl NtfsSymbolicLinkReparseData {
 
         let data_offset: usize = (display_name_offset as usize) + 12;
 
-        if data_offset >= data_size {
+        if data_offset > data_size {
             return Err(keramics_core::error_trace_new!(
                 "Invalid display name offset value out of bounds"
             ));
-- 
2.43.0


From 88e2333e3188a5974fb0df5fcce56832b519378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 137/169] fix: panics of debug output of damaged NTFS metadata

---
 keramics-formats/src/ntfs/attribute_list.rs  | 10 +++---
 keramics-formats/src/ntfs/directory_index.rs | 34 ++++++++++----------
 keramics-formats/src/ntfs/mft_attribute.rs   | 25 +++++++-------
 keramics-formats/src/ntfs/reparse_point.rs   | 32 +++++++++---------
 4 files changed, 51 insertions(+), 50 deletions(-)

diff --git a/keramics-formats/src/ntfs/attribute_list.rs b/keramics-formats/src/ntfs/attribute_list.rs
index 6cf60db..3e2addf 100644
--- a/keramics-formats/src/ntfs/attribute_list.rs
+++ b/keramics-formats/src/ntfs/attribute_list.rs
@@ -40,11 +40,6 @@ impl NtfsAttributeList {
 
         while data_offset < data_size {
             let mediator = Mediator::current();
-            if mediator.debug_output {
-                mediator.debug_print(NtfsAttributeListEntry::debug_read_data(
-                    &data[data_offset..],
-                ));
-            }
             let mut entry: NtfsAttributeListEntry = NtfsAttributeListEntry::new();
 
             match entry.read_data(&data[data_offset..]) {
@@ -57,6 +52,11 @@ impl NtfsAttributeList {
                     return Err(error);
                 }
             }
+            if mediator.debug_output {
+                mediator.debug_print(NtfsAttributeListEntry::debug_read_data(
+                    &data[data_offset..],
+                ));
+            }
             // TODO: read name.
             // TODO: print remaining data.
 
diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index 2739c48..d635d29 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -94,12 +94,6 @@ impl NtfsDirectoryIndex {
         }
         let mut index_root_header: NtfsIndexRootHeader = NtfsIndexRootHeader::new();
 
-        if self.mediator.debug_output {
-            self.mediator
-                .debug_print(NtfsIndexRootHeader::debug_read_data(
-                    &i30_index_root_attribute.resident_data,
-                ));
-        }
         match index_root_header.read_data(&i30_index_root_attribute.resident_data) {
             Ok(_) => {}
             Err(mut error) => {
@@ -107,6 +101,12 @@ impl NtfsDirectoryIndex {
                 return Err(error);
             }
         }
+        if self.mediator.debug_output {
+            self.mediator
+                .debug_print(NtfsIndexRootHeader::debug_read_data(
+                    &i30_index_root_attribute.resident_data,
+                ));
+        }
         if index_root_header.attribute_type != NTFS_ATTRIBUTE_TYPE_FILE_NAME {
             return Err(keramics_core::error_trace_new!(format!(
                 "Unsupported $I30 $INDEX_ROOT attribute type: 0x{:08x}",
@@ -533,11 +533,6 @@ impl NtfsDirectoryIndex {
             self.mediator
                 .debug_print_data(&data[key_data_offset..key_data_end_offset], true);
         }
-        if self.mediator.debug_output {
-            self.mediator.debug_print(NtfsFileName::debug_read_data(
-                &data[key_data_offset..key_data_end_offset],
-            ));
-        }
         let mut file_name: NtfsFileName = NtfsFileName::new();
 
         match file_name.read_data(&data[key_data_offset..key_data_end_offset]) {
@@ -547,6 +542,11 @@ impl NtfsDirectoryIndex {
                 return Err(error);
             }
         }
+        if self.mediator.debug_output {
+            self.mediator.debug_print(NtfsFileName::debug_read_data(
+                &data[key_data_offset..key_data_end_offset],
+            ));
+        }
         Ok(file_name)
     }
 
@@ -556,12 +556,6 @@ impl NtfsDirectoryIndex {
         data: &[u8],
         index_node_offset: usize,
     ) -> Result<(usize, usize), ErrorTrace> {
-        if self.mediator.debug_output {
-            self.mediator
-                .debug_print(NtfsIndexNodeHeader::debug_read_data(
-                    &data[index_node_offset..],
-                ));
-        }
         let mut index_node_header: NtfsIndexNodeHeader = NtfsIndexNodeHeader::new();
 
         match index_node_header.read_data(&data[index_node_offset..]) {
@@ -571,6 +565,12 @@ impl NtfsDirectoryIndex {
                 return Err(error);
             }
         }
+        if self.mediator.debug_output {
+            self.mediator
+                .debug_print(NtfsIndexNodeHeader::debug_read_data(
+                    &data[index_node_offset..],
+                ));
+        }
         let index_node_size: usize = index_node_header.size as usize;
 
         if index_node_size > data.len() {
diff --git a/keramics-formats/src/ntfs/mft_attribute.rs b/keramics-formats/src/ntfs/mft_attribute.rs
index 862da6c..aad5b65 100644
--- a/keramics-formats/src/ntfs/mft_attribute.rs
+++ b/keramics-formats/src/ntfs/mft_attribute.rs
@@ -153,10 +153,6 @@ impl NtfsMftAttribute {
 
         let mut mft_attribute_header: NtfsMftAttributeHeader = NtfsMftAttributeHeader::new();
 
-        if self.mediator.debug_output {
-            self.mediator
-                .debug_print(NtfsMftAttributeHeader::debug_read_data(data));
-        }
         match mft_attribute_header.read_data(data) {
             Ok(_) => {}
             Err(mut error) => {
@@ -164,6 +160,10 @@ impl NtfsMftAttribute {
                 return Err(error);
             }
         }
+        if self.mediator.debug_output {
+            self.mediator
+                .debug_print(NtfsMftAttributeHeader::debug_read_data(data));
+        }
         self.attribute_type = mft_attribute_header.attribute_type;
         self.attribute_size = mft_attribute_header.attribute_size;
         self.non_resident_flag = mft_attribute_header.non_resident_flag;
@@ -183,12 +183,6 @@ impl NtfsMftAttribute {
             NtfsMftAttributeNonResident::new();
 
         if self.is_resident() {
-            if self.mediator.debug_output {
-                self.mediator
-                    .debug_print(NtfsMftAttributeResident::debug_read_data(
-                        &data[data_offset..],
-                    ));
-            }
             match resident_attribute.read_data(&data[data_offset..]) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -199,14 +193,14 @@ impl NtfsMftAttribute {
                     return Err(error);
                 }
             }
-            data_offset += 8;
-        } else {
             if self.mediator.debug_output {
                 self.mediator
-                    .debug_print(NtfsMftAttributeNonResident::debug_read_data(
+                    .debug_print(NtfsMftAttributeResident::debug_read_data(
                         &data[data_offset..],
                     ));
             }
+            data_offset += 8;
+        } else {
             match non_resident_attribute.read_data(&data[data_offset..]) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -218,6 +212,11 @@ impl NtfsMftAttribute {
                 }
             }
             if self.mediator.debug_output {
+                self.mediator
+                    .debug_print(NtfsMftAttributeNonResident::debug_read_data(
+                        &data[data_offset..],
+                    ));
+
                 if self.is_compressed()
                     && non_resident_attribute.compression_unit_size == 0
                     && non_resident_attribute.data_first_vcn == 0
diff --git a/keramics-formats/src/ntfs/reparse_point.rs b/keramics-formats/src/ntfs/reparse_point.rs
index 7e1801e..c704969 100644
--- a/keramics-formats/src/ntfs/reparse_point.rs
+++ b/keramics-formats/src/ntfs/reparse_point.rs
@@ -93,9 +93,6 @@ impl NtfsReparsePoint {
                 mft_attribute.resident_data.len(),
             ));
             mediator.debug_print_data(&mft_attribute.resident_data, true);
-            mediator.debug_print(NtfsReparsePointHeader::debug_read_data(
-                &mft_attribute.resident_data[0..8],
-            ));
         }
         let mut reparse_point_header: NtfsReparsePointHeader = NtfsReparsePointHeader::new();
 
@@ -107,18 +104,9 @@ impl NtfsReparsePoint {
             }
         }
         if mediator.debug_output {
-            match reparse_point_header.tag {
-                0x80000017 => mediator.debug_print(NtfsWofReparseData::debug_read_data(
-                    &mft_attribute.resident_data[8..],
-                )),
-                0xa0000003 => mediator.debug_print(NtfsJunctionReparseData::debug_read_data(
-                    &mft_attribute.resident_data[8..],
-                )),
-                0xa000000c => mediator.debug_print(NtfsSymbolicLinkReparseData::debug_read_data(
-                    &mft_attribute.resident_data[8..],
-                )),
-                _ => {}
-            }
+            mediator.debug_print(NtfsReparsePointHeader::debug_read_data(
+                &mft_attribute.resident_data[0..8],
+            ));
         }
         let mut reparse_point: NtfsReparsePoint = NtfsReparsePoint::new(reparse_point_header.tag);
 
@@ -129,6 +117,20 @@ impl NtfsReparsePoint {
                 return Err(error);
             }
         }
+        if mediator.debug_output {
+            match reparse_point_header.tag {
+                0x80000017 => mediator.debug_print(NtfsWofReparseData::debug_read_data(
+                    &mft_attribute.resident_data[8..],
+                )),
+                0xa0000003 if mft_attribute.resident_data.len() >= 16 => mediator.debug_print(
+                    NtfsJunctionReparseData::debug_read_data(&mft_attribute.resident_data[8..]),
+                ),
+                0xa000000c => mediator.debug_print(NtfsSymbolicLinkReparseData::debug_read_data(
+                    &mft_attribute.resident_data[8..],
+                )),
+                _ => {}
+            }
+        }
         Ok(reparse_point)
     }
 }
-- 
2.43.0


From 92629498406c18080e15afa6326d4d14ba2b648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 138/169] fix: NTFS index entries smaller than a cluster block
 were not found

---
 keramics-formats/src/ntfs/index.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index 7ddc9a7..02b6b00 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -48,8 +48,15 @@ impl NtfsIndex {
         data_stream: &DataStreamReference,
         virtual_cluster_number: u64,
     ) -> Result<NtfsIndexEntry, ErrorTrace> {
+        // Note that the VCN is in units of 512 bytes if an index entry is smaller than a cluster
+        // block.
+        let virtual_cluster_size: u64 = if self.index_entry_size < self.cluster_block_size {
+            512
+        } else {
+            self.cluster_block_size as u64
+        };
         let virtual_cluster_offset: u64 =
-            virtual_cluster_number.saturating_mul(self.cluster_block_size as u64);
+            virtual_cluster_number.saturating_mul(virtual_cluster_size);
 
         let block_range: &NtfsBlockRange =
             match self.block_ranges.get_block_range(virtual_cluster_offset) {
-- 
2.43.0


From 218f438734049c26dec6ad90c97a7737911e6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 139/169] fix: NTFS index entries in more than one data run
 could not be read

---
 keramics-formats/src/ntfs/index.rs | 96 ++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 30 deletions(-)

diff --git a/keramics-formats/src/ntfs/index.rs b/keramics-formats/src/ntfs/index.rs
index 02b6b00..105818f 100644
--- a/keramics-formats/src/ntfs/index.rs
+++ b/keramics-formats/src/ntfs/index.rs
@@ -58,50 +58,86 @@ impl NtfsIndex {
         let virtual_cluster_offset: u64 =
             virtual_cluster_number.saturating_mul(virtual_cluster_size);
 
-        let block_range: &NtfsBlockRange =
-            match self.block_ranges.get_block_range(virtual_cluster_offset) {
-                Some(value) if value.range_type == NtfsBlockRangeType::InFile => value,
-                _ => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "Missing block range for VCN: {}",
-                        virtual_cluster_number
-                    )));
-                }
-            };
-        let range_relative_offset: u64 =
-            virtual_cluster_offset - block_range.virtual_cluster_offset;
-        let index_entry_offset: u64 = (block_range.cluster_block_number
-            * (self.cluster_block_size as u64))
-            + range_relative_offset;
-
-        let remaining_range_size: u64 = (block_range.number_of_blocks
-            * (self.cluster_block_size as u64))
-            - range_relative_offset;
-        if remaining_range_size < (self.index_entry_size as u64) {
+        // Note that 42 is the minimum index entry size and 65535 is chosen given the fix-up values
+        // and attributes offsets of the index entry are 16-bit.
+        if self.index_entry_size < 42 || self.index_entry_size > 65535 {
             return Err(keramics_core::error_trace_new!(format!(
-                "Block range too small for index entry of size: {}",
+                "Unsupported index entry data size: {} value out of bounds",
                 self.index_entry_size
             )));
         }
         let mut index_entry: NtfsIndexEntry = NtfsIndexEntry::new();
-
-        match index_entry.read_at_position(
-            data_stream,
-            self.index_entry_size,
-            SeekFrom::Start(index_entry_offset),
-        ) {
-            Ok(read_count) => read_count,
+        let mut data: Vec<u8> = Vec::new();
+
+        // Note that an index entry can be stored in multiple block ranges.
+        while data.len() < self.index_entry_size as usize {
+            let virtual_offset: u64 = virtual_cluster_offset.saturating_add(data.len() as u64);
+
+            let block_range: &NtfsBlockRange =
+                match self.block_ranges.get_block_range(virtual_offset) {
+                    Some(value) if value.range_type == NtfsBlockRangeType::InFile => value,
+                    _ => {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Missing block range for VCN: {}",
+                            virtual_cluster_number
+                        )));
+                    }
+                };
+            let range_relative_offset: u64 = virtual_offset - block_range.virtual_cluster_offset;
+            let range_offset: u64 = (block_range.cluster_block_number
+                * (self.cluster_block_size as u64))
+                + range_relative_offset;
+
+            let remaining_range_size: u64 = (block_range.number_of_blocks
+                * (self.cluster_block_size as u64))
+                - range_relative_offset;
+            let remaining_size: u64 = (self.index_entry_size as u64) - (data.len() as u64);
+
+            if data.is_empty() && remaining_size <= remaining_range_size {
+                match index_entry.read_at_position(
+                    data_stream,
+                    self.index_entry_size,
+                    SeekFrom::Start(range_offset),
+                ) {
+                    Ok(_) => {}
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(
+                            error,
+                            format!(
+                                "Unable to read index entry at offset: {} (0x{:08x})",
+                                range_offset, range_offset
+                            )
+                        );
+                        return Err(error);
+                    }
+                };
+                return Ok(index_entry);
+            }
+            let mut range_data: Vec<u8> =
+                vec![0; std::cmp::min(remaining_size, remaining_range_size) as usize];
+
+            keramics_core::data_stream_read_exact_at_position!(
+                data_stream,
+                &mut range_data,
+                SeekFrom::Start(range_offset)
+            );
+            data.append(&mut range_data);
+        }
+        match index_entry.read_data(&mut data) {
+            Ok(_) => {}
             Err(mut error) => {
                 keramics_core::error_trace_add_frame!(
                     error,
                     format!(
-                        "Unable to read index entry at offset: {} (0x{:08x})",
-                        index_entry_offset, index_entry_offset
+                        "Unable to read index entry at VCN: {}",
+                        virtual_cluster_number
                     )
                 );
                 return Err(error);
             }
         };
+        index_entry.data = data;
+
         Ok(index_entry)
     }
 
-- 
2.43.0


From d32ab682f2b0c695fefbf6fbce92fbe2ced2d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 140/169] fix: names in a case-sensitive NTFS directory with
 sub nodes were not found

---
 keramics-formats/src/ntfs/directory_index.rs | 52 +++++++++++---------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index d635d29..b820944 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -185,19 +185,16 @@ impl NtfsDirectoryIndex {
                 "Directory index was not initialized"
             ));
         }
-        if self.use_case_folding {
-            let case_folded_name: Ucs2String =
-                Ucs2String::new_with_case_folding(name, &self.case_folding_mappings);
-
-            self.get_directory_entry_by_name_from_node(
-                &self.root_node_data,
-                16,
-                data_stream,
-                &case_folded_name,
-            )
-        } else {
-            self.get_directory_entry_by_name_from_node(&self.root_node_data, 16, data_stream, name)
-        }
+        let case_folded_name: Ucs2String =
+            Ucs2String::new_with_case_folding(name, &self.case_folding_mappings);
+
+        self.get_directory_entry_by_name_from_node(
+            &self.root_node_data,
+            16,
+            data_stream,
+            name,
+            &case_folded_name,
+        )
     }
 
     /// Retrieves a directory entry by name from an index node.
@@ -207,6 +204,7 @@ impl NtfsDirectoryIndex {
         index_node_offset: usize,
         data_stream: &DataStreamReference,
         name: &Ucs2String,
+        case_folded_name: &Ucs2String,
     ) -> Result<Option<NtfsDirectoryEntry>, ErrorTrace> {
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
@@ -270,15 +268,16 @@ impl NtfsDirectoryIndex {
                         return Err(error);
                     }
                 };
-            let result: Ordering = if self.use_case_folding {
-                let case_folded_name: Ucs2String =
-                    Ucs2String::new_with_case_folding(&file_name.name, &self.case_folding_mappings);
-
-                // TODO: add a compare_with_case_folding
-                case_folded_name.compare(name)
-            } else {
-                file_name.name.compare(name)
-            };
+            // TODO: add a compare_with_case_folding
+            let mut result: Ordering =
+                Ucs2String::new_with_case_folding(&file_name.name, &self.case_folding_mappings)
+                    .compare(case_folded_name);
+
+            // Note that the index values are ordered by case folded name first, even if the names
+            // are case-sensitive.
+            if result == Ordering::Equal && !self.use_case_folding {
+                result = file_name.name.compare(name);
+            }
             if result == Ordering::Equal {
                 let directory_entry: NtfsDirectoryEntry =
                     NtfsDirectoryEntry::new(index_value.file_reference, file_name);
@@ -321,8 +320,13 @@ impl NtfsDirectoryIndex {
                 }
             };
             let result: Option<NtfsDirectoryEntry> = match self
-                .get_directory_entry_by_name_from_node(&index_entry.data, 24, data_stream, name)
-            {
+                .get_directory_entry_by_name_from_node(
+                    &index_entry.data,
+                    24,
+                    data_stream,
+                    name,
+                    case_folded_name,
+                ) {
                 Ok(result) => result,
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
-- 
2.43.0


From 8afd43f90564e4359dde95f29775c566ecd12e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 141/169] fix: panics of damaged NTFS directory indexes and
 file names

---
 keramics-formats/src/ntfs/directory_entries.rs |  2 +-
 keramics-formats/src/ntfs/directory_index.rs   | 12 ++++++++++--
 keramics-formats/src/ntfs/file_name.rs         |  2 +-
 keramics-formats/src/ntfs/fixup_values.rs      |  5 ++++-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/ntfs/directory_entries.rs b/keramics-formats/src/ntfs/directory_entries.rs
index 270b3d5..77292ef 100644
--- a/keramics-formats/src/ntfs/directory_entries.rs
+++ b/keramics-formats/src/ntfs/directory_entries.rs
@@ -42,7 +42,7 @@ impl NtfsDirectoryEntries {
     /// Adds an entry.
     pub fn add(&mut self, file_reference: u64, file_name: NtfsFileName) -> Result<(), ErrorTrace> {
         // TODO: preserve self $FILE_NAME entry.
-        if file_name.name_size == 1 && file_name.name.elements[0] == 0x002e {
+        if file_name.name.elements == [0x002e] {
             // Ignore "."
         } else if file_name.name_space == NTFS_NAME_SPACE_DOS {
             if self.short_names.contains_key(&file_reference) {
diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index b820944..12e6d9a 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -562,6 +562,12 @@ impl NtfsDirectoryIndex {
     ) -> Result<(usize, usize), ErrorTrace> {
         let mut index_node_header: NtfsIndexNodeHeader = NtfsIndexNodeHeader::new();
 
+        if index_node_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid index node offset: {} value out of bounds",
+                index_node_offset
+            )));
+        }
         match index_node_header.read_data(&data[index_node_offset..]) {
             Ok(_) => {}
             Err(mut error) => {
@@ -577,7 +583,7 @@ impl NtfsDirectoryIndex {
         }
         let index_node_size: usize = index_node_header.size as usize;
 
-        if index_node_size > data.len() {
+        if index_node_size > data.len() - index_node_offset {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid index node size: {} value out of bounds",
                 index_node_header.size
@@ -632,7 +638,9 @@ impl NtfsDirectoryIndex {
         }
         let value_data_size: usize = index_value.size as usize;
 
-        if value_data_size > data.len() - index_value_offset {
+        if value_data_size < 16 + (index_value.key_data_size as usize)
+            || value_data_size > index_values_end_offset - index_value_offset
+        {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid index value size: {} value out of bounds",
                 index_value.size,
diff --git a/keramics-formats/src/ntfs/file_name.rs b/keramics-formats/src/ntfs/file_name.rs
index 6d30962..ce06c31 100644
--- a/keramics-formats/src/ntfs/file_name.rs
+++ b/keramics-formats/src/ntfs/file_name.rs
@@ -138,7 +138,7 @@ impl NtfsFileName {
         self.name_size = data[64];
         self.name_space = data[65];
 
-        if data_size > 66 {
+        if self.name_size > 0 {
             let data_end_offset: usize = 66 + (self.name_size as usize) * 2;
 
             if data_end_offset > data_size {
diff --git a/keramics-formats/src/ntfs/fixup_values.rs b/keramics-formats/src/ntfs/fixup_values.rs
index a597bd8..9333460 100644
--- a/keramics-formats/src/ntfs/fixup_values.rs
+++ b/keramics-formats/src/ntfs/fixup_values.rs
@@ -11,6 +11,8 @@
  * under the License.
  */
 
+use std::cmp::max;
+
 use keramics_core::ErrorTrace;
 use keramics_core::mediator::Mediator;
 use keramics_types::bytes_to_u16_le;
@@ -30,7 +32,8 @@ pub fn apply_fixup_values(
         )));
     }
     let mut fixup_value_offset: usize = fixup_values_offset as usize;
-    let fixup_values_size: usize = 2 + (number_of_fixup_values as usize) * 2;
+    // Note that the number of fix-up values includes the placeholder value.
+    let fixup_values_size: usize = max(number_of_fixup_values as usize, 1) * 2;
     let fixup_values_end_offset: usize = fixup_value_offset + fixup_values_size;
 
     if fixup_values_end_offset > buffer_size {
-- 
2.43.0


From 108ac0e7d62c78e2f351592e0c35c8d4587c6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:51 +0000
Subject: [PATCH 142/169] fix: sub nodes of damaged NTFS directory indexes were
 read endlessly

---
 keramics-formats/src/ntfs/directory_index.rs | 50 +++++++++++++++++++-
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ntfs/directory_index.rs b/keramics-formats/src/ntfs/directory_index.rs
index 12e6d9a..d766f8f 100644
--- a/keramics-formats/src/ntfs/directory_index.rs
+++ b/keramics-formats/src/ntfs/directory_index.rs
@@ -12,7 +12,7 @@
  */
 
 use std::cmp::Ordering;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
 use keramics_core::mediator::{Mediator, MediatorReference};
@@ -33,6 +33,9 @@ use super::mft_attribute_group::NtfsMftAttributeGroup;
 use super::mft_attributes::NtfsMftAttributes;
 use super::standard_information::NtfsStandardInformation;
 
+/// Maximum depth of the sub nodes of a directory index.
+const MAXIMUM_RECURSION_DEPTH: usize = 64;
+
 /// New Technologies File System (NTFS) directory index.
 pub struct NtfsDirectoryIndex {
     /// Mediator.
@@ -194,6 +197,7 @@ impl NtfsDirectoryIndex {
             data_stream,
             name,
             &case_folded_name,
+            0,
         )
     }
 
@@ -205,7 +209,13 @@ impl NtfsDirectoryIndex {
         data_stream: &DataStreamReference,
         name: &Ucs2String,
         case_folded_name: &Ucs2String,
+        recursion_depth: usize,
     ) -> Result<Option<NtfsDirectoryEntry>, ErrorTrace> {
+        if recursion_depth > MAXIMUM_RECURSION_DEPTH {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid recursion depth value out of bounds"
+            ));
+        }
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
         {
@@ -326,6 +336,7 @@ impl NtfsDirectoryIndex {
                     data_stream,
                     name,
                     case_folded_name,
+                    recursion_depth + 1,
                 ) {
                 Ok(result) => result,
                 Err(mut error) => {
@@ -366,6 +377,33 @@ impl NtfsDirectoryIndex {
         data_stream: &DataStreamReference,
         entries: &mut NtfsDirectoryEntries,
     ) -> Result<(), ErrorTrace> {
+        let mut sub_nodes: HashSet<u64> = HashSet::new();
+
+        self.get_directory_entries_from_sub_node(
+            data,
+            index_node_offset,
+            data_stream,
+            entries,
+            &mut sub_nodes,
+            0,
+        )
+    }
+
+    /// Retrieves the directory entries from an index (sub) node.
+    fn get_directory_entries_from_sub_node(
+        &self,
+        data: &[u8],
+        index_node_offset: usize,
+        data_stream: &DataStreamReference,
+        entries: &mut NtfsDirectoryEntries,
+        sub_nodes: &mut HashSet<u64>,
+        recursion_depth: usize,
+    ) -> Result<(), ErrorTrace> {
+        if recursion_depth > MAXIMUM_RECURSION_DEPTH {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid recursion depth value out of bounds"
+            ));
+        }
         let (index_node_size, index_values_offset): (usize, usize) = match self
             .read_index_node_header(data, index_node_offset)
         {
@@ -422,6 +460,12 @@ impl NtfsDirectoryIndex {
                             return Err(error);
                         }
                     };
+                if !sub_nodes.insert(sub_node_vcn) {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Sub node with VCN: {} already read",
+                        sub_node_vcn
+                    )));
+                }
                 // TODO: skip if sub node is not allocated.
 
                 let index_entry: NtfsIndexEntry = match self
@@ -437,11 +481,13 @@ impl NtfsDirectoryIndex {
                         return Err(error);
                     }
                 };
-                match self.get_directory_entries_from_node(
+                match self.get_directory_entries_from_sub_node(
                     &index_entry.data,
                     24,
                     data_stream,
                     entries,
+                    sub_nodes,
+                    recursion_depth + 1,
                 ) {
                     Ok(_) => {}
                     Err(mut error) => {
-- 
2.43.0


From 86fb4b30d25c3701e8d5183e56744339d3b49fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:17 +0000
Subject: [PATCH 143/169] fix: NTFS directory entries were added again after a
 failure to read them

---
 keramics-formats/src/ntfs/file_entry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ntfs/file_entry.rs b/keramics-formats/src/ntfs/file_entry.rs
index 468584f..850e2c0 100644
--- a/keramics-formats/src/ntfs/file_entry.rs
+++ b/keramics-formats/src/ntfs/file_entry.rs
@@ -664,9 +664,11 @@ impl NtfsFileEntry {
                 }
             }
         }
+        let mut sub_directory_entries: NtfsDirectoryEntries = NtfsDirectoryEntries::new();
+
         match self
             .directory_index
-            .get_directory_entries(&self.data_stream, &mut self.sub_directory_entries)
+            .get_directory_entries(&self.data_stream, &mut sub_directory_entries)
         {
             Ok(_) => {}
             Err(mut error) => {
@@ -677,6 +679,7 @@ impl NtfsFileEntry {
                 return Err(error);
             }
         }
+        self.sub_directory_entries = sub_directory_entries;
         self.read_sub_directory_entries = true;
 
         Ok(())
-- 
2.43.0


From 54866a66cf404656bbd01246480c06eebb5f7729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 144/169] fix: the contents of sparse and UDIF images were not
 scanned

---
 keramics-vfs/src/scanner/scanner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keramics-vfs/src/scanner/scanner.rs b/keramics-vfs/src/scanner/scanner.rs
index 1fdca15..853c7be 100644
--- a/keramics-vfs/src/scanner/scanner.rs
+++ b/keramics-vfs/src/scanner/scanner.rs
@@ -184,6 +184,8 @@ impl VfsScanner {
             }
             VfsType::Ewf { .. }
             | VfsType::Qcow { .. }
+            | VfsType::SparseImage { .. }
+            | VfsType::Udif { .. }
             | VfsType::Vhd { .. }
             | VfsType::Vhdx { .. } => {
                 let mut result: Option<VfsType> =
-- 
2.43.0


From bf6468750046d42ccd9565cc7619d43634783cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 145/169] fix: a location opened as one type of file system
 gave that one for every other type

---
 keramics-vfs/src/context.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/keramics-vfs/src/context.rs b/keramics-vfs/src/context.rs
index dc5a0e7..c158672 100644
--- a/keramics-vfs/src/context.rs
+++ b/keramics-vfs/src/context.rs
@@ -26,7 +26,7 @@ use super::types::VfsFileSystemReference;
 /// Virtual File System (VFS) context.
 pub struct VfsContext {
     /// File systems.
-    file_systems: HashMap<VfsLocation, Weak<VfsFileSystem>>,
+    file_systems: HashMap<(VfsType, VfsLocation), Weak<VfsFileSystem>>,
 
     /// Operating system (OS) file system path.
     os_vfs_location: VfsLocation,
@@ -90,12 +90,14 @@ impl VfsContext {
         };
         let parent_vfs_location: Option<&VfsLocation> = vfs_location.get_parent();
 
-        let lookup_key: &VfsLocation = match parent_vfs_location {
-            Some(parent_vfs_location) => parent_vfs_location,
-            None => &self.os_vfs_location,
+        let file_system_path: VfsLocation = match parent_vfs_location {
+            Some(parent_vfs_location) => parent_vfs_location.clone(),
+            None => self.os_vfs_location.clone(),
         };
+        // The same location can be opened as different types of file systems.
+        let lookup_key: (VfsType, VfsLocation) = (vfs_type.clone(), file_system_path);
         let cached_file_system: Option<VfsFileSystemReference> =
-            match self.file_systems.get(lookup_key) {
+            match self.file_systems.get(&lookup_key) {
                 Some(file_system) => file_system.upgrade(),
                 None => None,
             };
@@ -115,12 +117,8 @@ impl VfsContext {
                     },
                     None => None,
                 };
-                let file_system_path: VfsLocation = match parent_vfs_location {
-                    Some(parent_vfs_location) => parent_vfs_location.clone(),
-                    None => self.os_vfs_location.clone(),
-                };
                 let mut file_system: VfsFileSystem = VfsFileSystem::new(&vfs_type);
-                match file_system.open(parent_file_system.as_ref(), &file_system_path) {
+                match file_system.open(parent_file_system.as_ref(), &lookup_key.1) {
                     Ok(()) => {}
                     Err(mut error) => {
                         keramics_core::error_trace_add_frame!(error, "Unable to open file system");
@@ -131,7 +129,7 @@ impl VfsContext {
                     VfsFileSystemReference::new(file_system);
 
                 self.file_systems.insert(
-                    file_system_path,
+                    lookup_key,
                     VfsFileSystemReference::downgrade(&cached_file_system),
                 );
                 Ok(cached_file_system)
-- 
2.43.0


From 95eb0a7101c0908c9cebf65dfb28c6d642005346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 146/169] fix: relative NTFS symbolic link targets lost their
 first components

---
 keramics-vfs/src/file_entry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index 6c099dc..31b0a28 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -310,10 +310,13 @@ impl VfsFileEntry {
             {
                 Ok(result) => match result {
                     Some(name) => {
-                        let path_components: Vec<Ucs2String> = name
-                            .elements
+                        // Strip leading "\\??\\".
+                        let elements: &[u16] = match name.elements.as_slice() {
+                            [0x005c, 0x003f, 0x003f, 0x005c, elements @ ..] => elements,
+                            elements => elements,
+                        };
+                        let path_components: Vec<Ucs2String> = elements
                             .split(|value| *value == 0x005c)
-                            .skip(2) // Strip leading "\\??\\".
                             .map(|component| Ucs2String::from(component))
                             .collect::<Vec<Ucs2String>>();
                         Ok(Some(VfsPath::Ntfs(NtfsPath {
-- 
2.43.0


From ca2097e58db10f354d1571be9396395ec8854a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 147/169] fix: symbolic links to the root directory had the
 path of an entry without name

---
 keramics-vfs/src/file_entry.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index 31b0a28..1cb96ca 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -287,11 +287,15 @@ impl VfsFileEntry {
             VfsFileEntry::Ext(ext_file_entry) => match ext_file_entry.get_symbolic_link_target() {
                 Ok(result) => match result {
                     Some(name) => {
-                        let path_components: Vec<ByteString> = name
-                            .elements
-                            .split(|value| *value == 0x2f)
-                            .map(|component| ByteString::from(component))
-                            .collect::<Vec<ByteString>>();
+                        let path_components: Vec<ByteString> = if name.elements == [0x2f] {
+                            // Splitting "/" results in ["", ""]
+                            vec![ByteString::new()]
+                        } else {
+                            name.elements
+                                .split(|value| *value == 0x2f)
+                                .map(|component| ByteString::from(component))
+                                .collect::<Vec<ByteString>>()
+                        };
                         Ok(Some(VfsPath::Ext(ExtPath {
                             components: path_components,
                         })))
@@ -315,10 +319,15 @@ impl VfsFileEntry {
                             [0x005c, 0x003f, 0x003f, 0x005c, elements @ ..] => elements,
                             elements => elements,
                         };
-                        let path_components: Vec<Ucs2String> = elements
-                            .split(|value| *value == 0x005c)
-                            .map(|component| Ucs2String::from(component))
-                            .collect::<Vec<Ucs2String>>();
+                        let path_components: Vec<Ucs2String> = if elements == [0x005c] {
+                            // Splitting "\\" results in ["", ""]
+                            vec![Ucs2String::new()]
+                        } else {
+                            elements
+                                .split(|value| *value == 0x005c)
+                                .map(|component| Ucs2String::from(component))
+                                .collect::<Vec<Ucs2String>>()
+                        };
                         Ok(Some(VfsPath::Ntfs(NtfsPath {
                             components: path_components,
                         })))
-- 
2.43.0


From dd32d001b7628195aad19e3166413c17f5c4f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 148/169] fix: times of OS entries in whole seconds wrapped
 around beyond 32 bits

---
 keramics-vfs/src/os/file_entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-vfs/src/os/file_entry.rs b/keramics-vfs/src/os/file_entry.rs
index 013511b..7202645 100644
--- a/keramics-vfs/src/os/file_entry.rs
+++ b/keramics-vfs/src/os/file_entry.rs
@@ -117,7 +117,7 @@ impl OsFileEntry {
     /// Determines the POSIX date and time value.
     #[cfg(unix)]
     fn get_posix_datetime_value(timestamp: i64, fraction: i64) -> DateTime {
-        if fraction != 0 {
+        if fraction != 0 || i32::try_from(timestamp).is_err() {
             DateTime::PosixTime64Ns(PosixTime64Ns::new(timestamp, fraction as u32))
         } else if timestamp != 0 {
             DateTime::PosixTime32(PosixTime32::new(timestamp as i32))
-- 
2.43.0


From 5dab9386e8e5946162fd73084602fa08b776c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 149/169] fix: OS sockets were refused

---
 keramics-vfs/src/os/file_entry.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keramics-vfs/src/os/file_entry.rs b/keramics-vfs/src/os/file_entry.rs
index 7202645..8a3c216 100644
--- a/keramics-vfs/src/os/file_entry.rs
+++ b/keramics-vfs/src/os/file_entry.rs
@@ -147,6 +147,7 @@ impl OsFileEntry {
             0x6000 => VfsFileType::BlockDevice,
             0x8000 => VfsFileType::File,
             0xa000 => VfsFileType::SymbolicLink,
+            0xc000 => VfsFileType::Socket,
             _ => {
                 return Err(keramics_core::error_trace_new!("Unsupported file mode"));
             }
-- 
2.43.0


From 5a4f25349313179228d80d4dc5dd774fe97d0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 150/169] fix: the text of a VFS location had the type and the
 parent swapped

---
 keramics-vfs/src/location.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-vfs/src/location.rs b/keramics-vfs/src/location.rs
index db810b0..c44c51a 100644
--- a/keramics-vfs/src/location.rs
+++ b/keramics-vfs/src/location.rs
@@ -101,9 +101,9 @@ impl VfsLocation {
                 vfs_type,
             } => {
                 format!(
-                    "{}\ntype: {}: path: {}\n",
-                    vfs_type.as_str(),
+                    "{}type: {}: path: {}\n",
                     parent.to_string(),
+                    vfs_type.as_str(),
                     path.to_string()
                 )
             }
-- 
2.43.0


From 95256fb9cacc0d0b33ddb7d384d1db91365d8eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 151/169] fix: partitions and layers were found by names that
 are not theirs

---
 keramics-vfs/src/apm/file_system.rs  | 4 ++++
 keramics-vfs/src/gpt/file_system.rs  | 4 ++++
 keramics-vfs/src/mbr/file_system.rs  | 4 ++++
 keramics-vfs/src/qcow/file_system.rs | 4 ++++
 keramics-vfs/src/vhd/file_system.rs  | 4 ++++
 keramics-vfs/src/vhdx/file_system.rs | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/keramics-vfs/src/apm/file_system.rs b/keramics-vfs/src/apm/file_system.rs
index 4f4296b..9005f8b 100644
--- a/keramics-vfs/src/apm/file_system.rs
+++ b/keramics-vfs/src/apm/file_system.rs
@@ -114,6 +114,10 @@ impl ApmFileSystem {
         if !file_name.starts_with("apm") {
             return None;
         }
+        // Note that parse also accepts a leading "+" and "0".
+        if !file_name[3..].starts_with(|character| matches!(character, '1'..='9')) {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(partition_index) => {
                 if partition_index > 0 && partition_index <= self.number_of_partitions {
diff --git a/keramics-vfs/src/gpt/file_system.rs b/keramics-vfs/src/gpt/file_system.rs
index 71e23af..806533f 100644
--- a/keramics-vfs/src/gpt/file_system.rs
+++ b/keramics-vfs/src/gpt/file_system.rs
@@ -114,6 +114,10 @@ impl GptFileSystem {
         if !file_name.starts_with("gpt") {
             return None;
         }
+        // Note that parse also accepts a leading "+" and "0".
+        if !file_name[3..].starts_with(|character| matches!(character, '1'..='9')) {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(partition_index) => {
                 if partition_index > 0 && partition_index <= self.number_of_partitions {
diff --git a/keramics-vfs/src/mbr/file_system.rs b/keramics-vfs/src/mbr/file_system.rs
index e7f1c64..1347802 100644
--- a/keramics-vfs/src/mbr/file_system.rs
+++ b/keramics-vfs/src/mbr/file_system.rs
@@ -114,6 +114,10 @@ impl MbrFileSystem {
         if !file_name.starts_with("mbr") {
             return None;
         }
+        // Note that parse also accepts a leading "+" and "0".
+        if !file_name[3..].starts_with(|character| matches!(character, '1'..='9')) {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(partition_index) => {
                 if partition_index > 0 && partition_index <= self.number_of_partitions {
diff --git a/keramics-vfs/src/qcow/file_system.rs b/keramics-vfs/src/qcow/file_system.rs
index d033df1..defa8cc 100644
--- a/keramics-vfs/src/qcow/file_system.rs
+++ b/keramics-vfs/src/qcow/file_system.rs
@@ -112,6 +112,10 @@ impl QcowFileSystem {
         if !file_name.starts_with("qcow") {
             return None;
         }
+        // Note that parse also accepts a leading "+" and "0".
+        if !file_name[4..].starts_with(|character| matches!(character, '1'..='9')) {
+            return None;
+        }
         match file_name[4..].parse::<usize>() {
             Ok(layer_index) => {
                 if layer_index > 0 && layer_index <= self.number_of_layers {
diff --git a/keramics-vfs/src/vhd/file_system.rs b/keramics-vfs/src/vhd/file_system.rs
index 598d2e1..f8b3595 100644
--- a/keramics-vfs/src/vhd/file_system.rs
+++ b/keramics-vfs/src/vhd/file_system.rs
@@ -115,6 +115,10 @@ impl VhdFileSystem {
         if !file_name.starts_with("vhd") {
             return None;
         }
+        // Note that parse also accepts a leading "+" and "0".
+        if !file_name[3..].starts_with(|character| matches!(character, '1'..='9')) {
+            return None;
+        }
         match file_name[3..].parse::<usize>() {
             Ok(layer_index) => {
                 if layer_index > 0 && layer_index <= self.number_of_layers {
diff --git a/keramics-vfs/src/vhdx/file_system.rs b/keramics-vfs/src/vhdx/file_system.rs
index 9dd98a9..6d58a99 100644
--- a/keramics-vfs/src/vhdx/file_system.rs
+++ b/keramics-vfs/src/vhdx/file_system.rs
@@ -115,6 +115,10 @@ impl VhdxFileSystem {
         if !file_name.starts_with("vhdx") {
             return None;
         }
+        // Note that parse also accepts a leading "+" and "0".
+        if !file_name[4..].starts_with(|character| matches!(character, '1'..='9')) {
+            return None;
+        }
         match file_name[4..].parse::<usize>() {
             Ok(layer_index) => {
                 if layer_index > 0 && layer_index <= self.number_of_layers {
-- 
2.43.0


From dd54699fe3aab957ce4b881577f65cfc43422dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 152/169] fix: the data fork of partitions, image layers and OS
 files could not be retrieved

---
 keramics-vfs/src/data_fork.rs  |  3 +++
 keramics-vfs/src/file_entry.rs | 35 +++++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/keramics-vfs/src/data_fork.rs b/keramics-vfs/src/data_fork.rs
index fb9191c..67623df 100644
--- a/keramics-vfs/src/data_fork.rs
+++ b/keramics-vfs/src/data_fork.rs
@@ -18,6 +18,7 @@ use super::string::VfsString;
 
 /// Virtual File System (VFS) data fork.
 pub enum VfsDataFork<'a> {
+    Default(DataStreamReference),
     Ext(DataStreamReference),
     Fat(DataStreamReference),
     Ntfs(NtfsDataFork<'a>),
@@ -27,6 +28,7 @@ impl<'a> VfsDataFork<'a> {
     /// Retrieves the data stream.
     pub fn get_data_stream(&self) -> Result<DataStreamReference, ErrorTrace> {
         match self {
+            VfsDataFork::Default(data_stream) => Ok(data_stream.clone()),
             VfsDataFork::Ext(data_stream) => Ok(data_stream.clone()),
             VfsDataFork::Fat(data_stream) => Ok(data_stream.clone()),
             VfsDataFork::Ntfs(data_fork) => data_fork.get_data_stream(),
@@ -36,6 +38,7 @@ impl<'a> VfsDataFork<'a> {
     /// Retrieves the name.
     pub fn get_name(&self) -> Option<VfsString> {
         match self {
+            VfsDataFork::Default(_) => None,
             VfsDataFork::Ext(_) => None,
             VfsDataFork::Fat(_) => None,
             VfsDataFork::Ntfs(data_fork) => match data_fork.get_name() {
diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index 1cb96ca..0881136 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -430,7 +430,6 @@ impl VfsFileEntry {
         data_fork_index: usize,
     ) -> Result<VfsDataFork<'_>, ErrorTrace> {
         let data_fork: VfsDataFork = match self {
-            VfsFileEntry::Apm(_) => todo!(),
             VfsFileEntry::Ext(ext_file_entry) => {
                 if data_fork_index != 0 {
                     return Err(keramics_core::error_trace_new!(format!(
@@ -455,8 +454,6 @@ impl VfsFileEntry {
                     }
                 }
             }
-            VfsFileEntry::Ewf(_) => todo!(),
-            VfsFileEntry::Fake(_) => todo!(),
             VfsFileEntry::Fat(fat_file_entry) => {
                 if data_fork_index != 0 {
                     return Err(keramics_core::error_trace_new!(format!(
@@ -481,8 +478,6 @@ impl VfsFileEntry {
                     }
                 }
             }
-            VfsFileEntry::Gpt(_) => todo!(),
-            VfsFileEntry::Mbr(_) => todo!(),
             VfsFileEntry::Ntfs(ntfs_file_entry) => {
                 let ntfs_data_fork: NtfsDataFork =
                     match ntfs_file_entry.get_data_fork_by_index(data_fork_index) {
@@ -497,12 +492,30 @@ impl VfsFileEntry {
                     };
                 VfsDataFork::Ntfs(ntfs_data_fork)
             }
-            VfsFileEntry::Os(_) => todo!(),
-            VfsFileEntry::Qcow(_) => todo!(),
-            VfsFileEntry::SparseImage(_) => todo!(),
-            VfsFileEntry::Udif(_) => todo!(),
-            VfsFileEntry::Vhd(_) => todo!(),
-            VfsFileEntry::Vhdx(_) => todo!(),
+            VfsFileEntry::Apm(_)
+            | VfsFileEntry::Ewf(_)
+            | VfsFileEntry::Fake(_)
+            | VfsFileEntry::Gpt(_)
+            | VfsFileEntry::Mbr(_)
+            | VfsFileEntry::Os(_)
+            | VfsFileEntry::Qcow(_)
+            | VfsFileEntry::SparseImage(_)
+            | VfsFileEntry::Udif(_)
+            | VfsFileEntry::Vhd(_)
+            | VfsFileEntry::Vhdx(_) => {
+                if data_fork_index != 0 {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid data fork index: {}",
+                        data_fork_index
+                    )));
+                }
+                match self.get_data_stream()? {
+                    Some(data_stream) => VfsDataFork::Default(data_stream),
+                    None => {
+                        return Err(keramics_core::error_trace_new!("Missing data stream"));
+                    }
+                }
+            }
         };
         Ok(data_fork)
     }
-- 
2.43.0


From f6bbe973edd6d4e590398b0f7d459e3c14f7a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 153/169] fix: asking if a partition or an image layer is the
 root directory panicked

---
 keramics-vfs/src/file_entry.rs | 36 +++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index 0881136..66c89a4 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -1077,20 +1077,38 @@ impl VfsFileEntry {
     /// Determines if the file entry is the root directory.
     pub fn is_root_directory(&self) -> bool {
         match self {
-            VfsFileEntry::Apm(apm_file_entry) => todo!(),
+            VfsFileEntry::Apm(apm_file_entry) => {
+                matches!(apm_file_entry, ApmFileEntry::Root { .. })
+            }
             VfsFileEntry::Ext(ext_file_entry) => ext_file_entry.is_root_directory(),
-            VfsFileEntry::Ewf(ewf_file_entry) => todo!(),
+            VfsFileEntry::Ewf(ewf_file_entry) => {
+                matches!(ewf_file_entry, EwfFileEntry::Root { .. })
+            }
             VfsFileEntry::Fake(_) => todo!(),
             VfsFileEntry::Fat(fat_file_entry) => fat_file_entry.is_root_directory(),
-            VfsFileEntry::Gpt(gpt_file_entry) => todo!(),
-            VfsFileEntry::Mbr(mbr_file_entry) => todo!(),
+            VfsFileEntry::Gpt(gpt_file_entry) => {
+                matches!(gpt_file_entry, GptFileEntry::Root { .. })
+            }
+            VfsFileEntry::Mbr(mbr_file_entry) => {
+                matches!(mbr_file_entry, MbrFileEntry::Root { .. })
+            }
             VfsFileEntry::Ntfs(ntfs_file_entry) => ntfs_file_entry.is_root_directory(),
             VfsFileEntry::Os(_) => todo!(),
-            VfsFileEntry::Qcow(qcow_file_entry) => todo!(),
-            VfsFileEntry::SparseImage(sparseimage_file_entry) => todo!(),
-            VfsFileEntry::Udif(udif_file_entry) => todo!(),
-            VfsFileEntry::Vhd(vhd_file_entry) => todo!(),
-            VfsFileEntry::Vhdx(vhdx_file_entry) => todo!(),
+            VfsFileEntry::Qcow(qcow_file_entry) => {
+                matches!(qcow_file_entry, QcowFileEntry::Root { .. })
+            }
+            VfsFileEntry::SparseImage(sparseimage_file_entry) => {
+                matches!(sparseimage_file_entry, SparseImageFileEntry::Root { .. })
+            }
+            VfsFileEntry::Udif(udif_file_entry) => {
+                matches!(udif_file_entry, UdifFileEntry::Root { .. })
+            }
+            VfsFileEntry::Vhd(vhd_file_entry) => {
+                matches!(vhd_file_entry, VhdFileEntry::Root { .. })
+            }
+            VfsFileEntry::Vhdx(vhdx_file_entry) => {
+                matches!(vhdx_file_entry, VhdxFileEntry::Root { .. })
+            }
         }
     }
 }
-- 
2.43.0


From a688cd50a5b42dab0a20df81d82d03ad1c840b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 154/169] fix: partitions and image layers had a size of 1 and
 asking for that of OS files panicked

---
 keramics-vfs/src/file_entry.rs    | 10 ++++++++--
 keramics-vfs/src/os/file_entry.rs | 13 +++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index 66c89a4..f42e522 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -262,11 +262,17 @@ impl VfsFileEntry {
             | VfsFileEntry::SparseImage(_)
             | VfsFileEntry::Udif(_)
             | VfsFileEntry::Vhd(_)
-            | VfsFileEntry::Vhdx(_) => 1,
+            | VfsFileEntry::Vhdx(_) => match self.get_data_stream() {
+                Ok(Some(data_stream)) => match data_stream.write() {
+                    Ok(mut data_stream) => data_stream.get_size().unwrap_or(0),
+                    Err(_) => 0,
+                },
+                _ => 0,
+            },
             VfsFileEntry::Ext(ext_file_entry) => ext_file_entry.get_size(),
             VfsFileEntry::Fat(fat_file_entry) => fat_file_entry.get_size(),
             VfsFileEntry::Ntfs(ntfs_file_entry) => ntfs_file_entry.get_size(),
-            VfsFileEntry::Os(_) => todo!(),
+            VfsFileEntry::Os(os_file_entry) => os_file_entry.get_size(),
         }
     }
 
diff --git a/keramics-vfs/src/os/file_entry.rs b/keramics-vfs/src/os/file_entry.rs
index 8a3c216..94757f6 100644
--- a/keramics-vfs/src/os/file_entry.rs
+++ b/keramics-vfs/src/os/file_entry.rs
@@ -41,6 +41,9 @@ pub struct OsFileEntry {
     /// File type.
     file_type: VfsFileType,
 
+    /// Size.
+    size: u64,
+
     /// Access time.
     access_time: Option<DateTime>,
 
@@ -60,6 +63,7 @@ impl OsFileEntry {
         Self {
             path: PathBuf::new(),
             file_type: VfsFileType::File,
+            size: 0,
             access_time: None,
             change_time: None,
             creation_time: None,
@@ -109,6 +113,11 @@ impl OsFileEntry {
         self.path.file_name()
     }
 
+    /// Retrieves the size.
+    pub fn get_size(&self) -> u64 {
+        self.size
+    }
+
     /// Retrieves the modification time.
     pub fn get_modification_time(&self) -> Option<&DateTime> {
         self.modification_time.as_ref()
@@ -138,6 +147,8 @@ impl OsFileEntry {
                 ));
             }
         };
+        self.size = file_metadata.len();
+
         let mode: u32 = file_metadata.mode();
 
         self.file_type = match mode & 0xf000 {
@@ -197,6 +208,8 @@ impl OsFileEntry {
                 ));
             }
         };
+        self.size = file_metadata.len();
+
         let file_attributes: u32 = file_metadata.file_attributes();
 
         self.file_type = match file_attributes & 0x000000f0 {
-- 
2.43.0


From e16afb5609a7523b83fee10cb3e3aa2477d945e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 155/169] fix: asking for the symbolic link target of an OS
 file entry panicked

---
 keramics-vfs/src/file_entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-vfs/src/file_entry.rs b/keramics-vfs/src/file_entry.rs
index f42e522..8ca1ceb 100644
--- a/keramics-vfs/src/file_entry.rs
+++ b/keramics-vfs/src/file_entry.rs
@@ -285,6 +285,7 @@ impl VfsFileEntry {
             | VfsFileEntry::Fat(_)
             | VfsFileEntry::Gpt(_)
             | VfsFileEntry::Mbr(_)
+            | VfsFileEntry::Os(_)
             | VfsFileEntry::Qcow(_)
             | VfsFileEntry::SparseImage(_)
             | VfsFileEntry::Udif(_)
@@ -348,7 +349,6 @@ impl VfsFileEntry {
                     Err(error)
                 }
             },
-            VfsFileEntry::Os(_) => todo!(),
         }
     }
 
-- 
2.43.0


From 6ac6ee9343d2dc741aaeba2ee6f876a44e6a3814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 156/169] fix: data smaller than the range of the format
 signatures was scanned with bytes that are not there

---
 keramics-formats/src/scanner.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/keramics-formats/src/scanner.rs b/keramics-formats/src/scanner.rs
index 561d40f..a675720 100644
--- a/keramics-formats/src/scanner.rs
+++ b/keramics-formats/src/scanner.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashSet;
 use std::io::SeekFrom;
 
@@ -256,28 +257,21 @@ impl FormatScanner {
         let mut scan_context: ScanContext = ScanContext::new(&self.signature_scanner, data_size);
 
         // The size of the header range can be larger than the size of the data stream.
-        let mut data: Vec<u8> = vec![0; scan_context.header_range_size as usize];
+        let header_size: u64 = min(scan_context.header_range_size, data_size);
+        let mut data: Vec<u8> = vec![0; header_size as usize];
 
         keramics_core::data_stream_read_at_position!(data_stream, &mut data, SeekFrom::Start(0));
         scan_context.data_offset = 0;
         scan_context.scan_buffer(&data);
 
         // The size of the footer range can be larger than the size of the data stream.
-        let mut data: Vec<u8> = vec![0; scan_context.footer_range_size as usize];
+        let footer_size: u64 = min(scan_context.footer_range_size, data_size);
+        let mut data: Vec<u8> = vec![0; footer_size as usize];
 
-        let data_offset: usize = if scan_context.footer_range_size < data_size {
-            0
-        } else {
-            (scan_context.footer_range_size - data_size) as usize
-        };
-        let data_stream_offset: u64 = if scan_context.footer_range_size < data_size {
-            data_size - scan_context.footer_range_size
-        } else {
-            0
-        };
+        let data_stream_offset: u64 = data_size - footer_size;
         keramics_core::data_stream_read_at_position!(
             data_stream,
-            &mut data[data_offset..],
+            &mut data,
             SeekFrom::Start(data_stream_offset)
         );
         scan_context.data_offset = data_stream_offset;
-- 
2.43.0


From c7d537210b098174bb3b2c4c2063f6c1f2c1f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 157/169] fix: the extension and the stem of names with
 characters beyond ASCII were cut in the wrong place

---
 keramics-formats/src/path_component.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index 0e4536e..de5b2bd 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -30,7 +30,7 @@ impl PathComponent {
                 if string.is_empty() {
                     None
                 } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
+                    match string.bytes().skip(1).rev().position(|value| value == b'.') {
                         Some(value_index) => {
                             // Note that value_index is relative to end of the string.
                             let string_index: usize = string.len() - value_index;
@@ -51,7 +51,7 @@ impl PathComponent {
                 if string.is_empty() {
                     None
                 } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
+                    match string.bytes().skip(1).rev().position(|value| value == b'.') {
                         Some(value_index) => {
                             // Note that value_index is relative to end of the string.
                             let string_size: usize = string.len() - value_index - 1;
-- 
2.43.0


From 149f856b06e817938d8c8fcfd021db4e8a52d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 158/169] fix: modifiers of bit fields in layout maps were
 applied to the mask instead of the value

---
 keramics-compression/src/lzfse.rs    | 8 ++++++--
 keramics-layout-map/src/structure.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/keramics-compression/src/lzfse.rs b/keramics-compression/src/lzfse.rs
index 3780950..323caa5 100644
--- a/keramics-compression/src/lzfse.rs
+++ b/keramics-compression/src/lzfse.rs
@@ -251,7 +251,11 @@ impl LzfseBlockV1Header {
         field(name = "number_of_literals", data_type = "BitField64<20>"),
         field(name = "literals_data_size", data_type = "BitField64<20>"),
         field(name = "number_of_lmd_values", data_type = "BitField64<20>"),
-        field(name = "literal_bits", data_type = "BitField64<3>", modifier = "- 7"),
+        field(
+            name = "literal_bits",
+            data_type = "BitField64<3>",
+            modifier = "as i64 - 7"
+        ),
         field(name = "unknown1", data_type = "BitField64<1>"),
         field(name = "literal_state1", data_type = "BitField64<10>"),
         field(name = "literal_state2", data_type = "BitField64<10>"),
@@ -261,7 +265,7 @@ impl LzfseBlockV1Header {
         field(
             name = "lmd_values_bits",
             data_type = "BitField64<3>",
-            modifier = "- 7"
+            modifier = "as i64 - 7"
         ),
         field(name = "unknown2", data_type = "BitField64<1>"),
         field(name = "header_size", data_type = "BitField64<32>"),
diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 69c36a2..0b95c0d 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -684,8 +684,13 @@ impl StructureLayout {
             let field_format_string: String = bitfield.get_format_string();
             let format_string: String =
                 format!("    {}: {},\n", bitfield.name, field_format_string);
+            let quote_field: TokenStream = if field_modifier.is_empty() {
+                quote!(let #field_name: #field_type = #quote_from_packed_value;)
+            } else {
+                quote!(let #field_name = (#quote_from_packed_value) #field_modifier;)
+            };
             debug_read_bitfields.extend(quote! {
-                let #field_name: #field_type = #quote_from_packed_value #field_modifier;
+                #quote_field
                 string_parts.push(format!(#format_string, #field_name));
 
             });
-- 
2.43.0


From 382f40f524ea9be220c129bc3741a6ef6e8dfc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 159/169] fix: a seek to before the start of an in-memory data
 stream succeeded

---
 keramics-core/src/fake_data_stream.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 35938a2..bbb530a 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -98,19 +98,21 @@ impl DataStream for FakeDataStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
-            }
-            SeekFrom::Start(offset) => offset,
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
         };
+        match offset {
+            Some(offset) => self.current_offset = offset,
+            None => {
+                return Err(crate::error_trace_new!(
+                    "Invalid position value out of bounds"
+                ));
+            }
+        }
         Ok(self.current_offset)
     }
 }
-- 
2.43.0


From b971537d4551317fef2f3e5a7640b078df5d811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 160/169] fix: structures of which every field names its own
 byte order were refused

---
 keramics-layout-map/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-layout-map/src/macros.rs b/keramics-layout-map/src/macros.rs
index 380c6e1..5c922f0 100644
--- a/keramics-layout-map/src/macros.rs
+++ b/keramics-layout-map/src/macros.rs
@@ -278,7 +278,7 @@ struct StructureOptions {
 impl StructureOptions {
     /// Determines if the options are empty.
     pub fn is_empty(&self) -> bool {
-        return self.byte_order.is_empty() && (self.fields.len() == 0 || self.members.len() == 0);
+        return self.byte_order.is_empty() && self.fields.len() == 0 && self.members.len() == 0;
     }
 
     /// Parses the byte order.
-- 
2.43.0


From 856db0da68798c34db61902e61eaa0bcb387cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 161/169] fix: names that are not valid in their encoding made
 the tools panic

---
 keramics-tools/src/display_path.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-tools/src/display_path.rs b/keramics-tools/src/display_path.rs
index f10c700..8ea7eef 100644
--- a/keramics-tools/src/display_path.rs
+++ b/keramics-tools/src/display_path.rs
@@ -76,7 +76,8 @@ impl DisplayPath {
                             };
                             string_parts.push(string);
                         }
-                        Err(error) => todo!(),
+                        // Bytes that cannot be decoded are represented by the replacement character.
+                        Err(_) => string_parts.push(char::REPLACEMENT_CHARACTER.to_string()),
                     }
                 }
                 string_parts.join("")
-- 
2.43.0


From f6e90fe7c3a07f210caf35fa15af879d06f4866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 162/169] fix: keramicsinfo panicked on EWF images of memory

---
 keramics-tools/src/info/ewf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keramics-tools/src/info/ewf.rs b/keramics-tools/src/info/ewf.rs
index 278321e..cbaf622 100644
--- a/keramics-tools/src/info/ewf.rs
+++ b/keramics-tools/src/info/ewf.rs
@@ -82,6 +82,7 @@ impl EwfInfo {
         let media_types = HashMap::<EwfMediaType, &'static str>::from([
             (EwfMediaType::FixedDisk, "fixed disk"),
             (EwfMediaType::LogicalEvidence, "logical evidence"),
+            (EwfMediaType::Memory, "memory (RAM)"),
             (EwfMediaType::OpticalDisk, "optical disk (CD/DVD/BD)"),
             (EwfMediaType::RemoveableDisk, "removable disk"),
             (EwfMediaType::Unknown, "Unknown"),
-- 
2.43.0


From 176c9dd4f08dd9c62bafd96e2f45b262d2254f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 163/169] fix: the bodyfile times of FILETIMEs in the second
 before 1970 lost their sign

---
 keramics-tools/src/bodyfile.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index c1dfae6..c885c73 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -61,16 +61,18 @@ impl Bodyfile {
         let string: String = match date_time {
             Some(date_time) => match date_time {
                 DateTime::Filetime(filetime) => {
-                    let mut number_of_seconds: u64 = filetime.timestamp / 10000000;
-                    let mut fraction: u64 = filetime.timestamp % 10000000;
-
-                    if number_of_seconds < 11644473600 && fraction > 0 {
-                        number_of_seconds += 1;
-                        fraction = 10000000 - fraction;
-                    };
-                    let posix_time: i64 = (number_of_seconds as i64) - 11644473600;
-
-                    format!("{}.{:07}", posix_time, fraction)
+                    // The number of 100 nanosecond intervals since January 1, 1970, which is negative
+                    // for an earlier date and time.
+                    let posix_time: i128 = filetime.timestamp as i128 - 116444736000000000;
+                    let sign: &str = if posix_time < 0 { "-" } else { "" };
+                    let posix_time: u128 = posix_time.unsigned_abs();
+
+                    format!(
+                        "{}{}.{:07}",
+                        sign,
+                        posix_time / 10000000,
+                        posix_time % 10000000
+                    )
                 }
                 DateTime::NotSet => String::from(""),
                 DateTime::PosixTime32(posix_time32) => format!("{}", posix_time32.timestamp),
-- 
2.43.0


From 0a240a633ecaf22000987e21f11c5b4b8fce69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 164/169] fix: the bodyfile times before 1970 with a fraction
 were wrong

---
 keramics-tools/src/bodyfile.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index c885c73..eaea3c7 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -76,10 +76,21 @@ impl Bodyfile {
                 }
                 DateTime::NotSet => String::from(""),
                 DateTime::PosixTime32(posix_time32) => format!("{}", posix_time32.timestamp),
-                DateTime::PosixTime64Ns(posix_time64ns) => format!(
-                    "{}.{:09}",
-                    posix_time64ns.timestamp, posix_time64ns.fraction
-                ),
+                DateTime::PosixTime64Ns(posix_time64ns) => {
+                    // The fraction counts from the number of seconds onwards, also if the number of
+                    // seconds is negative.
+                    let posix_time: i128 = (posix_time64ns.timestamp as i128 * 1000000000)
+                        + posix_time64ns.fraction as i128;
+                    let sign: &str = if posix_time < 0 { "-" } else { "" };
+                    let posix_time: u128 = posix_time.unsigned_abs();
+
+                    format!(
+                        "{}{}.{:09}",
+                        sign,
+                        posix_time / 1000000000,
+                        posix_time % 1000000000
+                    )
+                }
                 _ => return Err(keramics_core::error_trace_new!("Unsupported date time")),
             },
             None => String::from(""),
-- 
2.43.0


From f198ba3114d957ea39211bf9f473906e98a32eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 165/169] fix: no bodyfile could be made of FAT file systems

---
 keramics-tools/src/bodyfile.rs | 67 ++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/keramics-tools/src/bodyfile.rs b/keramics-tools/src/bodyfile.rs
index eaea3c7..c5ad090 100644
--- a/keramics-tools/src/bodyfile.rs
+++ b/keramics-tools/src/bodyfile.rs
@@ -60,6 +60,26 @@ impl Bodyfile {
 
         let string: String = match date_time {
             Some(date_time) => match date_time {
+                DateTime::FatDate(fat_date) => match Self::get_fat_posix_time(fat_date.date, 0) {
+                    Some(posix_time) => format!("{}", posix_time),
+                    None => String::from(""),
+                },
+                DateTime::FatTimeDate(fat_time_date) => {
+                    match Self::get_fat_posix_time(fat_time_date.date, fat_time_date.time) {
+                        Some(posix_time) => format!("{}", posix_time),
+                        None => String::from(""),
+                    }
+                }
+                DateTime::FatTimeDate10Ms(fat_time_date) => {
+                    match Self::get_fat_posix_time(fat_time_date.date, fat_time_date.time) {
+                        Some(posix_time) => format!(
+                            "{}.{:02}",
+                            posix_time + (fat_time_date.fraction as i64 / 100),
+                            fat_time_date.fraction % 100
+                        ),
+                        None => String::from(""),
+                    }
+                }
                 DateTime::Filetime(filetime) => {
                     // The number of 100 nanosecond intervals since January 1, 1970, which is negative
                     // for an earlier date and time.
@@ -97,6 +117,53 @@ impl Bodyfile {
         };
         Ok(string)
     }
+
+    /// Retrieves the number of seconds since January 1, 1970 of a FAT date and time value, or None
+    /// if the value does not contain a date and time.
+    fn get_fat_posix_time(fat_date: u16, fat_time: u16) -> Option<i64> {
+        let year: i64 = 1980 + ((fat_date >> 9) & 0x7f) as i64;
+        let month: usize = ((fat_date >> 5) & 0x0f) as usize;
+        let day_of_month: i64 = (fat_date & 0x1f) as i64;
+        let hours: i64 = ((fat_time >> 11) & 0x1f) as i64;
+        let minutes: i64 = ((fat_time >> 5) & 0x3f) as i64;
+        let seconds: i64 = ((fat_time & 0x1f) * 2) as i64;
+
+        // Note that 2100 is the only year FAT can represent that is divisible by 4 but is not a
+        // leap year.
+        let is_leap_year: bool = year % 4 == 0 && year != 2100;
+        let days_in_month: [i64; 12] = [
+            31,
+            if is_leap_year { 29 } else { 28 },
+            31,
+            30,
+            31,
+            30,
+            31,
+            31,
+            30,
+            31,
+            30,
+            31,
+        ];
+        if month < 1
+            || month > 12
+            || day_of_month < 1
+            || day_of_month > days_in_month[month - 1]
+            || hours > 23
+            || minutes > 59
+            || seconds > 59
+        {
+            return None;
+        }
+        let mut number_of_days: i64 = ((year - 1970) * 365) + ((year - 1969) / 4);
+        if year > 2100 {
+            number_of_days -= 1;
+        }
+        number_of_days += days_in_month[..month - 1].iter().sum::<i64>();
+        number_of_days += day_of_month - 1;
+
+        Some((((((number_of_days * 24) + hours) * 60) + minutes) * 60) + seconds)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From f3fa66d01170492cefa98c559908eb7c1a269a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 166/169] fix: formatting byte sizes of an exbibyte or more did
 not end

---
 keramics-tools/src/formatters.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/keramics-tools/src/formatters.rs b/keramics-tools/src/formatters.rs
index f6d4124..275bb89 100644
--- a/keramics-tools/src/formatters.rs
+++ b/keramics-tools/src/formatters.rs
@@ -16,12 +16,10 @@ const UNITS: [&str; 9] = ["", "K", "M", "G", "T", "P", "E", "Z", "Y"];
 /// Formats an integer as bytes size.
 pub fn format_as_bytesize(value: u64, base: u64) -> String {
     let mut factor: u64 = 1;
-    let mut next_factor: u64 = base;
     let mut units_index: usize = 0;
 
-    while next_factor <= value {
-        factor = next_factor;
-        next_factor *= base;
+    while value / factor >= base {
+        factor *= base;
         units_index += 1;
     }
     if units_index > 0 {
-- 
2.43.0


From fcaf6845962da0c9a7814699a29219cd103c88eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 167/169] fix: keramicsimage panicked when asked for the digest
 of QCOW, VHD and VHDX images

---
 keramics-tools/src/image_tool.rs | 108 +++++++++++++++++++++++++------
 1 file changed, 87 insertions(+), 21 deletions(-)

diff --git a/keramics-tools/src/image_tool.rs b/keramics-tools/src/image_tool.rs
index d79165b..647e630 100644
--- a/keramics-tools/src/image_tool.rs
+++ b/keramics-tools/src/image_tool.rs
@@ -136,15 +136,39 @@ impl StorageMediaImage {
     }
 
     /// Retrieves the media size.
-    fn get_media_size(&self) -> u64 {
+    fn get_media_size(&mut self) -> Result<u64, ErrorTrace> {
         match self {
-            StorageMediaImage::Ewf(image) => image.media_size,
-            // TODO: add Qcow layer support.
-            StorageMediaImage::SparseImage(file) => file.media_size,
-            StorageMediaImage::Udif(file) => file.media_size,
-            // TODO: add Vhd layer support.
-            // TODO: add Vhdx layer support.
-            _ => todo!(),
+            StorageMediaImage::Ewf(image) => Ok(image.media_size),
+            StorageMediaImage::SparseImage(file) => Ok(file.media_size),
+            StorageMediaImage::Udif(file) => Ok(file.media_size),
+            _ => self.get_size(),
+        }
+    }
+
+    /// Retrieves the top layer, which contains the data of the image.
+    fn get_top_layer(&self) -> Result<DataStreamReference, ErrorTrace> {
+        match self {
+            StorageMediaImage::Qcow(image) => {
+                let layer_index: usize = image.get_number_of_layers().saturating_sub(1);
+                let layer: QcowImageLayer = image.get_layer_by_index(layer_index)?;
+
+                Ok(layer)
+            }
+            StorageMediaImage::Vhd(image) => {
+                let layer_index: usize = image.get_number_of_layers().saturating_sub(1);
+                let layer: VhdImageLayer = image.get_layer_by_index(layer_index)?;
+
+                Ok(layer)
+            }
+            StorageMediaImage::Vhdx(image) => {
+                let layer_index: usize = image.get_number_of_layers().saturating_sub(1);
+                let layer: VhdxImageLayer = image.get_layer_by_index(layer_index)?;
+
+                Ok(layer)
+            }
+            _ => Err(keramics_core::error_trace_new!(
+                "Storage media image does not have layers"
+            )),
         }
     }
 
@@ -367,12 +391,24 @@ impl DataStream for StorageMediaImage {
     fn get_size(&mut self) -> Result<u64, ErrorTrace> {
         match self {
             StorageMediaImage::Ewf(image) => image.get_size(),
-            // TODO: add Qcow layer support.
             StorageMediaImage::SparseImage(file) => file.get_size(),
             StorageMediaImage::Udif(file) => file.get_size(),
-            // TODO: add Vhd layer support.
-            // TODO: add Vhdx layer support.
-            _ => todo!(),
+            _ => {
+                let layer: DataStreamReference = match self.get_top_layer() {
+                    Ok(layer) => layer,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(error, "Unable to retrieve top layer");
+                        return Err(error);
+                    }
+                };
+                match layer.write() {
+                    Ok(mut data_stream) => data_stream.get_size(),
+                    Err(error) => Err(keramics_core::error_trace_new_with_error!(
+                        "Unable to obtain write lock on layer",
+                        error
+                    )),
+                }
+            }
         }
     }
 
@@ -380,12 +416,24 @@ impl DataStream for StorageMediaImage {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
         match self {
             StorageMediaImage::Ewf(image) => image.read(buf),
-            // TODO: add Qcow layer support.
             StorageMediaImage::SparseImage(file) => file.read(buf),
             StorageMediaImage::Udif(file) => file.read(buf),
-            // TODO: add Vhd layer support.
-            // TODO: add Vhdx layer support.
-            _ => todo!(),
+            _ => {
+                let layer: DataStreamReference = match self.get_top_layer() {
+                    Ok(layer) => layer,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(error, "Unable to retrieve top layer");
+                        return Err(error);
+                    }
+                };
+                match layer.write() {
+                    Ok(mut data_stream) => data_stream.read(buf),
+                    Err(error) => Err(keramics_core::error_trace_new_with_error!(
+                        "Unable to obtain write lock on layer",
+                        error
+                    )),
+                }
+            }
         }
     }
 
@@ -393,12 +441,24 @@ impl DataStream for StorageMediaImage {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
         match self {
             StorageMediaImage::Ewf(image) => image.seek(pos),
-            // TODO: add Qcow layer support.
             StorageMediaImage::SparseImage(file) => file.seek(pos),
             StorageMediaImage::Udif(file) => file.seek(pos),
-            // TODO: add Vhd layer support.
-            // TODO: add Vhdx layer support.
-            _ => todo!(),
+            _ => {
+                let layer: DataStreamReference = match self.get_top_layer() {
+                    Ok(layer) => layer,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(error, "Unable to retrieve top layer");
+                        return Err(error);
+                    }
+                };
+                match layer.write() {
+                    Ok(mut data_stream) => data_stream.seek(pos),
+                    Err(error) => Err(keramics_core::error_trace_new_with_error!(
+                        "Unable to obtain write lock on layer",
+                        error
+                    )),
+                }
+            }
         }
     }
 }
@@ -1194,7 +1254,13 @@ fn main() -> ExitCode {
                     return ExitCode::FAILURE;
                 }
             }
-            let media_size: u64 = storage_media_image.get_media_size();
+            let media_size: u64 = match storage_media_image.get_media_size() {
+                Ok(media_size) => media_size,
+                Err(error) => {
+                    println!("Unable to determine media size with error:\n{}", error);
+                    return ExitCode::FAILURE;
+                }
+            };
 
             let progress_bar_style: ProgressStyle = match ProgressStyle::with_template(
                 "Hashing at {percent}% [{wide_bar}] {bytes}/{total_bytes} ({binary_bytes_per_sec}) elapsed: {elapsed_precise} (remaining: {eta_precise})",
-- 
2.43.0


From a25e29670f72c624a6f5c78d5b7ccd746e3b6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:14 +0000
Subject: [PATCH 168/169] fix: walking a file system did not end on directories
 that contain themselves

---
 keramics-vfs/src/finder/finder.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/keramics-vfs/src/finder/finder.rs b/keramics-vfs/src/finder/finder.rs
index 8d6733e..71c32cb 100644
--- a/keramics-vfs/src/finder/finder.rs
+++ b/keramics-vfs/src/finder/finder.rs
@@ -67,6 +67,24 @@ impl<'a> VfsFinder<'a> {
             search_started: false,
         }
     }
+
+    /// Determines if two file entries of the file system are the same.
+    fn is_same_file_entry(file_entry: &VfsFileEntry, other: &VfsFileEntry) -> bool {
+        match (file_entry, other) {
+            (VfsFileEntry::Ext(file_entry), VfsFileEntry::Ext(other)) => {
+                file_entry.inode_number == other.inode_number
+            }
+            // Note that FAT identifiers alone are not unique in file systems larger than 4 GiB.
+            (VfsFileEntry::Fat(file_entry), VfsFileEntry::Fat(other)) => {
+                file_entry.identifier == other.identifier
+                    && file_entry.get_name() == other.get_name()
+            }
+            (VfsFileEntry::Ntfs(file_entry), VfsFileEntry::Ntfs(other)) => {
+                file_entry.mft_entry_number == other.mft_entry_number
+            }
+            _ => false,
+        }
+    }
 }
 
 impl<'a> Iterator for VfsFinder<'a> {
@@ -115,6 +133,17 @@ impl<'a> Iterator for VfsFinder<'a> {
 
             match result {
                 Ok(mut file_entry) => {
+                    // A directory that contains itself has no end.
+                    if self
+                        .states
+                        .iter()
+                        .any(|state| Self::is_same_file_entry(&state.file_entry, &file_entry))
+                    {
+                        return Some(Err(keramics_core::error_trace_new!(format!(
+                            "Sub file entry: {} is a file entry that contains it",
+                            sub_file_entry_index
+                        ))));
+                    }
                     // TODO: if file_entry.get_number_of_sub_file_entries() fails return file_entry and error.
                     let number_of_sub_file_entries: usize =
                         match file_entry.get_number_of_sub_file_entries() {
-- 
2.43.0


From 46bc6fc0f5eb3e1c453eb7bb826cc1901d5a7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:14 +0000
Subject: [PATCH 169/169] fix: keramicsinfo hierarchy did not end on
 directories that contain themselves

---
 keramics-tools/src/info/ext.rs  | 19 +++++++++++++++++--
 keramics-tools/src/info/fat.rs  | 29 +++++++++++++++++++++++++++--
 keramics-tools/src/info/ntfs.rs | 19 +++++++++++++++++--
 3 files changed, 61 insertions(+), 6 deletions(-)

diff --git a/keramics-tools/src/info/ext.rs b/keramics-tools/src/info/ext.rs
index 899b985..8609e63 100644
--- a/keramics-tools/src/info/ext.rs
+++ b/keramics-tools/src/info/ext.rs
@@ -604,7 +604,10 @@ impl ExtInfo {
         };
         let mut path_components: Vec<String> = Vec::new();
 
-        match Self::print_hierarchy_file_entry(&mut file_entry, &mut path_components) {
+        let mut parents: Vec<u32> = Vec::new();
+
+        match Self::print_hierarchy_file_entry(&mut file_entry, &mut path_components, &mut parents)
+        {
             Ok(_) => {}
             Err(mut error) => {
                 keramics_core::error_trace_add_frame!(
@@ -621,6 +624,7 @@ impl ExtInfo {
     fn print_hierarchy_file_entry(
         file_entry: &mut ExtFileEntry,
         path_components: &mut Vec<String>,
+        parents: &mut Vec<u32>,
     ) -> Result<(), ErrorTrace> {
         let path: String = if file_entry.is_root_directory() {
             String::from("/")
@@ -644,6 +648,8 @@ impl ExtInfo {
                 return Err(error);
             }
         };
+        parents.push(file_entry.inode_number);
+
         for sub_file_entry_index in 0..number_of_file_entries {
             let mut sub_file_entry: ExtFileEntry =
                 match file_entry.get_sub_file_entry_by_index(sub_file_entry_index) {
@@ -659,7 +665,14 @@ impl ExtInfo {
                         return Err(error);
                     }
                 };
-            match Self::print_hierarchy_file_entry(&mut sub_file_entry, path_components) {
+            // A directory that contains itself has no end.
+            if parents.contains(&sub_file_entry.inode_number) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Sub file entry: {} is a file entry that contains it",
+                    sub_file_entry_index
+                )));
+            }
+            match Self::print_hierarchy_file_entry(&mut sub_file_entry, path_components, parents) {
                 Ok(_) => {}
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
@@ -673,6 +686,8 @@ impl ExtInfo {
                 }
             }
         }
+        parents.pop();
+
         if !file_entry.is_root_directory() {
             path_components.pop();
         }
diff --git a/keramics-tools/src/info/fat.rs b/keramics-tools/src/info/fat.rs
index 193d065..f043401 100644
--- a/keramics-tools/src/info/fat.rs
+++ b/keramics-tools/src/info/fat.rs
@@ -232,7 +232,10 @@ impl FatInfo {
         };
         let mut path_components: Vec<String> = Vec::new();
 
-        match Self::print_hierarchy_file_entry(&mut file_entry, &mut path_components) {
+        let mut parents: Vec<u32> = Vec::new();
+
+        match Self::print_hierarchy_file_entry(&mut file_entry, &mut path_components, &mut parents)
+        {
             Ok(_) => {}
             Err(mut error) => {
                 keramics_core::error_trace_add_frame!(
@@ -249,6 +252,7 @@ impl FatInfo {
     fn print_hierarchy_file_entry(
         file_entry: &mut FatFileEntry,
         path_components: &mut Vec<String>,
+        parents: &mut Vec<u32>,
     ) -> Result<(), ErrorTrace> {
         let path: String = if file_entry.is_root_directory() {
             String::from("/")
@@ -272,6 +276,8 @@ impl FatInfo {
                 return Err(error);
             }
         };
+        parents.push(file_entry.identifier);
+
         for sub_file_entry_index in 0..number_of_file_entries {
             let mut sub_file_entry: FatFileEntry =
                 match file_entry.get_sub_file_entry_by_index(sub_file_entry_index) {
@@ -287,7 +293,24 @@ impl FatInfo {
                         return Err(error);
                     }
                 };
-            match Self::print_hierarchy_file_entry(&mut sub_file_entry, path_components) {
+            // Note that FAT identifiers alone are not unique in file systems larger than 4 GiB and
+            // that the root directory, which has no path component, shares its identifier with
+            // its first file entry.
+            let name: Option<String> = sub_file_entry.get_name().map(|name| name.to_string());
+            let is_parent: bool = parents.iter().skip(1).zip(path_components.iter()).any(
+                |(identifier, path_component)| {
+                    *identifier == sub_file_entry.identifier
+                        && name.as_ref() == Some(path_component)
+                },
+            );
+            // A directory that contains itself has no end.
+            if is_parent {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Sub file entry: {} is a file entry that contains it",
+                    sub_file_entry_index
+                )));
+            }
+            match Self::print_hierarchy_file_entry(&mut sub_file_entry, path_components, parents) {
                 Ok(_) => {}
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
@@ -301,6 +324,8 @@ impl FatInfo {
                 }
             }
         }
+        parents.pop();
+
         if !file_entry.is_root_directory() {
             path_components.pop();
         }
diff --git a/keramics-tools/src/info/ntfs.rs b/keramics-tools/src/info/ntfs.rs
index 1f3caa3..dbca2e0 100644
--- a/keramics-tools/src/info/ntfs.rs
+++ b/keramics-tools/src/info/ntfs.rs
@@ -699,7 +699,10 @@ impl NtfsInfo {
         };
         let mut path_components: Vec<String> = Vec::new();
 
-        match Self::print_hierarchy_file_entry(&mut file_entry, &mut path_components) {
+        let mut parents: Vec<u64> = Vec::new();
+
+        match Self::print_hierarchy_file_entry(&mut file_entry, &mut path_components, &mut parents)
+        {
             Ok(_) => {}
             Err(mut error) => {
                 keramics_core::error_trace_add_frame!(
@@ -716,6 +719,7 @@ impl NtfsInfo {
     fn print_hierarchy_file_entry(
         file_entry: &mut NtfsFileEntry,
         path_components: &mut Vec<String>,
+        parents: &mut Vec<u64>,
     ) -> Result<(), ErrorTrace> {
         match Self::print_hierarchy_file_entry_as_path(file_entry, path_components) {
             Ok(_) => {}
@@ -734,6 +738,8 @@ impl NtfsInfo {
                 return Err(error);
             }
         };
+        parents.push(file_entry.mft_entry_number);
+
         for sub_file_entry_index in 0..number_of_file_entries {
             let mut sub_file_entry: NtfsFileEntry =
                 match file_entry.get_sub_file_entry_by_index(sub_file_entry_index) {
@@ -749,7 +755,14 @@ impl NtfsInfo {
                         return Err(error);
                     }
                 };
-            match Self::print_hierarchy_file_entry(&mut sub_file_entry, path_components) {
+            // A directory that contains itself has no end.
+            if parents.contains(&sub_file_entry.mft_entry_number) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Sub file entry: {} is a file entry that contains it",
+                    sub_file_entry_index
+                )));
+            }
+            match Self::print_hierarchy_file_entry(&mut sub_file_entry, path_components, parents) {
                 Ok(_) => {}
                 Err(mut error) => {
                     keramics_core::error_trace_add_frame!(
@@ -764,6 +777,8 @@ impl NtfsInfo {
                 }
             }
         }
+        parents.pop();
+
         if !file_entry.is_root_directory() {
             path_components.pop();
         }
-- 
2.43.0

