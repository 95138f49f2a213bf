From 4fb6486cc8ec1d0c501f2ce82218cbbce72e9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 01/55] fix: recognise the month abbreviation "feb" when
 parsing

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 532bb64..e1f6bcf 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -335,7 +335,7 @@ const DATE_TOKEN_TABLE: [DateToken; 280] = [
     DateToken::new(b"egt", TZ, -3600),     // East Greenland Time
     DateToken::new(EPOCH, RESERV, Epoch.value()), // "epoch" reserved for system epoch time
     DateToken::new(b"est", TZ, -18000),    // Eastern Standard Time
-    DateToken::new(b"fe", MONTH, 2),
+    DateToken::new(b"feb", MONTH, 2),
     DateToken::new(b"february", MONTH, 2),
     DateToken::new(b"fjst", DTZ, -46800), // Fiji Summer Time (13 hour offset!)
     DateToken::new(b"fjt", TZ, -43200),   // Fiji Time
-- 
2.43.0


From 2b7c538dcc8b8e369eb8f1f70e58f50b13894b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 02/55] fix: reject out-of-range token field codes before
 transmuting

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index e1f6bcf..142813a 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -237,7 +237,7 @@ impl TryFrom<i32> for TokenField {
 
     #[inline]
     fn try_from(value: i32) -> Result<Self, Self::Error> {
-        if value < 0 && value > 37 {
+        if value < 0 || value > 37 {
             Err(DateTimeError::invalid(format!(
                 "Invalid token field {:?}",
                 value
-- 
2.43.0


From 58de366bfb8428e9152493958d01972d3225fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 03/55] fix: initialise the parser work arrays instead of
 assuming uninitialised memory

---
 src/date.rs      | 9 +++------
 src/interval.rs  | 9 +++------
 src/time.rs      | 9 +++------
 src/timestamp.rs | 9 +++------
 4 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index 22f81d0..2d98a41 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -23,7 +23,6 @@ use crate::timestamp::{Timestamp, DATE_TIME_BEGIN_VAL, DATE_TIME_END_VAL};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Range limits for dates and timestamps.
 //
@@ -197,13 +196,11 @@ impl Date {
     }
 
     /// Parses `Date` string.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(s: &str, date_order: DateOrder) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [b""; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
 
         let field_num =
             parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
diff --git a/src/interval.rs b/src/interval.rs
index 44f45dc..34f31e5 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,7 +20,6 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
-use std::mem::MaybeUninit;
 use std::ops::Add;
 
 pub const INTERVAL_MASK_Y: i32 = TokenType::YEAR.mask();
@@ -531,17 +530,15 @@ impl Interval {
     }
 
     /// Parses `Internal` from string.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         format_type: IntervalStyle,
     ) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [b""; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
         let mut d_type = TokenField::Number;
         let mut fsec = 0;
         let mut tm = PgTime::new();
diff --git a/src/time.rs b/src/time.rs
index b6ed431..e5706db 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -21,7 +21,6 @@ use crate::parse::{decode_time_only, parse_date_time, timestamp2time};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType, Timestamp};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 const TIME_SCALES: [i64; MAX_TIME_PRECISION as usize + 1] =
     [1_000_000, 100_000, 10_000, 1000, 100, 10, 1];
@@ -101,17 +100,15 @@ impl Time {
     }
 
     /// Parses `Time` string. type_mod should be 0 ~ 6, else will have no affect.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         date_order: DateOrder,
     ) -> Result<Time, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [b""; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
         let mut tm = PgTime::new();
 
         let field_num =
diff --git a/src/timestamp.rs b/src/timestamp.rs
index 0ed9903..e438c8e 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -23,7 +23,6 @@ use crate::time::Time;
 use crate::token::*;
 use crate::{Date, DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Timestamp limits
 const MIN_TIMESTAMP: i64 = -211_813_488_000_000_000; // == (DATETIME_MIN_JULIAN - POSTGRES_EPOCH_JDATE) * USECS_PER_DAY
@@ -162,17 +161,15 @@ impl Timestamp {
     }
 
     /// Parses `Timestamp` string. type_mode should be -1, or 1~6, else will be error.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         date_order: DateOrder,
     ) -> Result<Timestamp, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [b""; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
 
         let nf = parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
         let mut tm = PgTime::new();
-- 
2.43.0


From ba56b34cfce73e0973c74413c862bb418ffd3253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 04/55] fix: initialise the output buffers of the format
 functions

---
 src/date.rs      | 9 +++------
 src/interval.rs  | 9 +++------
 src/time.rs      | 9 +++------
 src/timestamp.rs | 9 +++------
 4 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index 2d98a41..34d62d7 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -257,17 +257,14 @@ impl Date {
         if self.is_infinite() {
             format_special_date(self)
         } else {
-            let mut buf = Vec::with_capacity(128);
-            unsafe { buf.set_len(128) };
+            let mut buf = vec![0; 128];
             let mut tm: PgTime = PgTime::new();
 
             let (y, m, d) = julian2date(self.value() + POSTGRES_EPOCH_JDATE);
             tm.set_ymd(y, m, d);
             let len = format_date(&tm, buf.as_mut_slice(), date_style, date_order)?;
-            unsafe {
-                buf.set_len(len);
-                Ok(String::from_utf8_unchecked(buf))
-            }
+            buf.truncate(len);
+            unsafe { Ok(String::from_utf8_unchecked(buf)) }
         }
     }
 }
diff --git a/src/interval.rs b/src/interval.rs
index 34f31e5..078a22d 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -585,17 +585,14 @@ impl Interval {
     #[inline]
     pub fn format(self, interval_format: IntervalStyle) -> Result<String, DateTimeError> {
         //interval_to_string(self, interval_format)
-        let mut buf = Vec::with_capacity(128);
-        unsafe { buf.set_len(128) };
+        let mut buf = vec![0; 128];
         let mut tm: PgTime = PgTime::new();
         let mut fsec = 0;
 
         self.to_pgtime(&mut tm, &mut fsec)?;
         let len = format_interval(buf.as_mut_slice(), &tm, fsec, interval_format)?;
-        unsafe {
-            buf.set_len(len);
-            Ok(String::from_utf8_unchecked(buf))
-        }
+        buf.truncate(len);
+        unsafe { Ok(String::from_utf8_unchecked(buf)) }
     }
 }
 
diff --git a/src/time.rs b/src/time.rs
index e5706db..25159a0 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -129,16 +129,13 @@ impl Time {
     /// Converts `Time` to string.
     #[inline]
     pub fn format(self, date_style: DateStyle) -> Result<String, DateTimeError> {
-        let mut buf = Vec::with_capacity(128);
-        unsafe { buf.set_len(128) };
+        let mut buf = vec![0; 128];
         let mut tm: PgTime = PgTime::new();
         let mut fsec = 0;
         self.to_pgtime(&mut tm, &mut fsec);
         let len = format_time(&tm, buf.as_mut_slice(), fsec, false, 0, date_style);
-        unsafe {
-            buf.set_len(len);
-            Ok(String::from_utf8_unchecked(buf))
-        }
+        buf.truncate(len);
+        unsafe { Ok(String::from_utf8_unchecked(buf)) }
     }
 
     /// `Time` Adds `Interval`.
diff --git a/src/timestamp.rs b/src/timestamp.rs
index e438c8e..7090fd6 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -195,8 +195,7 @@ impl Timestamp {
         if self.is_infinite() {
             format_special_timestamp(self)
         } else {
-            let mut buf = Vec::with_capacity(128);
-            unsafe { buf.set_len(128) };
+            let mut buf = vec![0; 128];
             let mut tm: PgTime = PgTime::new();
             let mut fsec = 0;
 
@@ -209,10 +208,8 @@ impl Timestamp {
                 date_style,
                 buf.as_mut_slice(),
             )?;
-            unsafe {
-                buf.set_len(len);
-                Ok(String::from_utf8_unchecked(buf))
-            }
+            buf.truncate(len);
+            unsafe { Ok(String::from_utf8_unchecked(buf)) }
         }
     }
 
-- 
2.43.0


From c8b498d8891ad245ac6d5e8e10159a85c77f40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 05/55] fix: reject a date/time string that ends with a bare
 sign

---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 51d46c8..59a6be6 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -271,7 +271,11 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 )));
             }
         }
-        None => s,
+        None => {
+            return Err(DateTimeError::invalid(
+                "date time expect digit or alpha after sign".to_string(),
+            ));
+        }
     };
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
-- 
2.43.0


From 34ff89a8fcfd73773266d74e6eeb1bdf2fe97805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 06/55] fix: do not index past the last field when "t" ends the
 string

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 59a6be6..6a7f151 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1768,7 +1768,7 @@ impl DecodeDateTimeCtx {
                     return Err(DateTimeError::invalid(format!(
                         "the {:?} field's type: {:?} is unexpected",
                         field_id,
-                        ftypes[field_id + 1]
+                        ftypes.get(field_id + 1)
                     )));
                 }
                 self.p_type = TokenField::try_from(val)?;
-- 
2.43.0


From a14dc5fd59273c28979bcb68a2e80eff707ae0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 07/55] fix: report over-long date/time strings instead of
 overrunning the work buffer

---
 src/parse.rs | 68 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6a7f151..f454000 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -85,6 +85,18 @@ fn extract_sign(s: &[u8]) -> (i32, &[u8]) {
     }
 }
 
+/// Copies field text to the work buffer, returns the end offset.
+/// It is an error if the work buffer is too small for the text.
+#[inline]
+fn copy_field(dst: &mut [u8], offset: usize, src: &[u8]) -> Result<usize, DateTimeError> {
+    if src.len() > dst.len() - offset {
+        return Err(DateTimeError::invalid(
+            "date time string is too long".to_string(),
+        ));
+    }
+    Ok(copy_slice(dst, offset, src))
+}
+
 /// Parse date time string for digit and delim begin.
 #[inline]
 fn parse_date_time_for_digit_delim_begin<'a, 'b>(
@@ -93,27 +105,26 @@ fn parse_date_time_for_digit_delim_begin<'a, 'b>(
     f_types: &mut [TokenField],
     buf_pos: &mut usize,
     nf: usize,
-) -> &'a [u8] {
+) -> Result<&'a [u8], DateTimeError> {
     let delim = s.first().unwrap();
     f_types[nf] = if delim == &b'.' {
         TokenField::Number
     } else {
         TokenField::Date
     };
-    current_buf[*buf_pos] = *delim;
+    *buf_pos = copy_field(current_buf, *buf_pos, &s[..1])?;
     let s = &s[1..];
-    *buf_pos += 1;
-    match s.first() {
+    let s = match s.first() {
         Some(c) => {
             if c.is_ascii_digit() {
                 let (field_str, s) = eat_digits(s);
-                *buf_pos = copy_slice(current_buf, *buf_pos, field_str);
+                *buf_pos = copy_field(current_buf, *buf_pos, field_str)?;
                 match s.first() {
                     Some(c) => {
                         if c == delim {
                             f_types[nf] = TokenField::Date;
                             let (field_str, s) = eat_digits_and_chars(s, *delim);
-                            *buf_pos = copy_slice(current_buf, *buf_pos, field_str);
+                            *buf_pos = copy_field(current_buf, *buf_pos, field_str)?;
                             s
                         } else {
                             s
@@ -125,12 +136,13 @@ fn parse_date_time_for_digit_delim_begin<'a, 'b>(
                 f_types[nf] = TokenField::Date;
                 let (field_str, s) = eat_alphanumerics_and_chars(s, *delim);
                 let lower_str = field_str.to_ascii_lowercase();
-                *buf_pos = copy_slice(current_buf, *buf_pos, lower_str.as_ref());
+                *buf_pos = copy_field(current_buf, *buf_pos, lower_str.as_ref())?;
                 s
             }
         }
         None => s,
-    }
+    };
+    Ok(s)
 }
 
 /// Parse date time string for digit begin.
@@ -141,18 +153,18 @@ fn parse_date_time_for_digit_begin<'a, 'b, 'c>(
     fields: &'c mut [&'b [u8]],
     f_types: &mut [TokenField],
     nf: usize,
-) -> (&'a [u8], &'b mut [u8]) {
+) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
     let (field_part0, s) = eat_digits(s);
-    let mut buf_pos = copy_slice(current_buf, 0, field_part0);
+    let mut buf_pos = copy_field(current_buf, 0, field_part0)?;
     let s = match s.first() {
         Some(&b':') => {
             let (field_str, s) = eat_time(s);
-            buf_pos = copy_slice(current_buf, buf_pos, field_str);
+            buf_pos = copy_field(current_buf, buf_pos, field_str)?;
             f_types[nf] = TokenField::Time;
             s
         }
         Some(&b'-') | Some(&b'/') | Some(&b'.') => {
-            parse_date_time_for_digit_delim_begin(s, current_buf, f_types, &mut buf_pos, nf)
+            parse_date_time_for_digit_delim_begin(s, current_buf, f_types, &mut buf_pos, nf)?
         }
 
         _ => {
@@ -163,7 +175,7 @@ fn parse_date_time_for_digit_begin<'a, 'b, 'c>(
 
     let (field, current_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf as usize] = field;
-    (s, current_buf)
+    Ok((s, current_buf))
 }
 
 /// Parse date time string for dot begin.
@@ -174,16 +186,15 @@ fn parse_date_time_for_dot_begin<'a, 'b, 'c>(
     fields: &'c mut [&'b [u8]],
     f_types: &mut [TokenField],
     nf: usize,
-) -> (&'a [u8], &'b mut [u8]) {
+) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
     f_types[nf] = TokenField::Number;
-    current_buf[0] = s[0];
+    let mut buf_pos = copy_field(current_buf, 0, &s[..1])?;
     let s = &s[1..];
-    let mut buf_pos = 1;
     let (field_str, s) = eat_digits(s);
-    buf_pos = copy_slice(current_buf, buf_pos, field_str);
+    buf_pos = copy_field(current_buf, buf_pos, field_str)?;
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf] = filed;
-    (s, ret_buf)
+    Ok((s, ret_buf))
 }
 
 /// Parse date time string for alpha begin.
@@ -193,11 +204,11 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
     fields: &'c mut [&'b [u8]],
     f_types: &mut [TokenField],
     nf: usize,
-) -> (&'a [u8], &'b mut [u8]) {
+) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
     f_types[nf] = TokenField::String;
     let (field_str, s) = eat_alphabetics(s);
     let field_str = field_str.to_ascii_lowercase();
-    let mut buf_pos = copy_slice(current_buf, 0, field_str.as_ref());
+    let mut buf_pos = copy_field(current_buf, 0, field_str.as_ref())?;
     let is_date = match s.first() {
         Some(c) => {
             if c == &b'-' || c == &b'/' || c == &b'.' {
@@ -223,7 +234,7 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
                 || i == b':'
                 || i.is_ascii_alphanumeric()
         });
-        buf_pos = copy_slice(current_buf, buf_pos, field_str);
+        buf_pos = copy_field(current_buf, buf_pos, field_str)?;
         s
     } else {
         s
@@ -231,7 +242,7 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf] = filed;
-    (s, ret_buf)
+    Ok((s, ret_buf))
 }
 
 /// Parse date time string for sign begin.
@@ -243,10 +254,9 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
     f_types: &mut [TokenField],
     nf: usize,
 ) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
-    current_buf[0] = s[0];
+    let mut buf_pos = copy_field(current_buf, 0, &s[..1])?;
     let s = &s[1..];
     let s = eat_whitespaces(s);
-    let mut buf_pos = 1;
     let s = match s.first() {
         Some(c) => {
             if c.is_ascii_digit() {
@@ -254,13 +264,13 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 let (field_str, s) = eat_special_chars(s, |i| {
                     i.is_ascii_digit() || i == b':' || i == b'.' || i == b'-'
                 });
-                buf_pos = copy_slice(current_buf, buf_pos, field_str);
+                buf_pos = copy_field(current_buf, buf_pos, field_str)?;
                 s
             } else if c.is_ascii_alphabetic() {
                 f_types[nf] = TokenField::Special;
                 let (field_str, s) = eat_alphabetics(s);
                 let save_buf_pos = buf_pos;
-                buf_pos = copy_slice(current_buf, buf_pos, field_str);
+                buf_pos = copy_field(current_buf, buf_pos, field_str)?;
                 let buf = &mut current_buf[save_buf_pos..save_buf_pos + field_str.len()];
                 buf.make_ascii_lowercase();
                 s
@@ -347,7 +357,7 @@ where
                         fields,
                         f_types,
                         field_num,
-                    );
+                    )?;
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char == &b'.' {
@@ -357,7 +367,7 @@ where
                         fields,
                         f_types,
                         field_num,
-                    );
+                    )?;
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char.is_ascii_alphabetic() {
@@ -367,7 +377,7 @@ where
                         fields,
                         f_types,
                         field_num,
-                    );
+                    )?;
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if *char == b'+' || *char == b'-' {
-- 
2.43.0


From 2210739e6874665e65788c09855b95540024b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 08/55] fix: Date::try_from_ymd overflowed on the most negative
 year

---
 src/date.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 34d62d7..2005601 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -74,7 +74,10 @@ impl Date {
         // Handle negative years as BC
         if tm.year < 0 {
             bc = true;
-            tm.year = -tm.year;
+            tm.year = match tm.year.checked_neg() {
+                Some(y) => y,
+                None => return Err(DateTimeError::overflow()),
+            };
         }
 
         tm.validate_date(DTK_DATE_M, false, false, bc)?;
-- 
2.43.0


From 5cc4ed910c9d891fdcd6a657f443c9607aa836cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 09/55] fix: Time::try_from_hms accepted NaN seconds

---
 src/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time.rs b/src/time.rs
index 25159a0..5807805 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -54,6 +54,7 @@ impl Time {
         if h < 0
             || m < 0
             || m > MINS_PER_HOUR - 1
+            || s.is_nan()
             || s < 0.0
             || s > SECS_PER_MINUTE as f64
             || h > HOURS_PER_DAY
-- 
2.43.0


From 8400a945c00fe1c8ddfa76a109bc86a52ae572b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 10/55] fix: week truncation of December days that belong to
 week 1 of the next year

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 7e658e9..3d1d22d 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -147,7 +147,7 @@ impl PgTime {
             self.year -= 1;
         }
         if woy <= 1 && self.mon == MONTHS_PER_YEAR {
-            self.year -= 1;
+            self.year += 1;
         }
         iso_week_to_date(woy, self);
         self.hour = 0;
-- 
2.43.0


From db438630b69dbaf650bca7119143b14f5b279501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 11/55] fix: truncating an infinite timestamp returns it
 unchanged

---
 src/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 7090fd6..6f80e18 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -868,6 +868,9 @@ impl DateTime for Timestamp {
     /// Truncates `Timestamp` to specified units.
     #[inline]
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
+        if self.is_infinite() {
+            return Ok(*self);
+        }
         match ty {
             FieldType::Unit => {
                 let mut tm = PgTime::new();
-- 
2.43.0


From 6c30af4fb21ec68bba2c73f1ab1d69291b6ca7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 12/55] fix: age of an infinite timestamp is an error, as for
 subtraction

---
 src/timestamp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 6f80e18..bea3180 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -376,6 +376,13 @@ impl Timestamp {
     /// is done.
     #[inline]
     pub fn age(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {
+        if self.is_infinite() || timestamp.is_infinite() {
+            return Err(DateTimeError::invalid(format!(
+                "age have infinite, left: {:?}, right: {:?}",
+                self, timestamp
+            )));
+        }
+
         let mut tm: PgTime = PgTime::new();
         let mut tm1: PgTime = PgTime::new();
         let mut tm2: PgTime = PgTime::new();
-- 
2.43.0


From d794b2f54492adb2f9bab27fa48ce9c610c13db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 13/55] fix: adding an interval to a timestamp reports overflow
 instead of wrapping

---
 src/timestamp.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index bea3180..3997bd0 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -282,13 +282,19 @@ impl Timestamp {
                 let mut fsec = 0;
                 timestamp2time(timestamp, &None, &mut tm, &mut fsec, &mut None, &None)?;
                 // Add days by converting to and from Julian
-                let julian = date2julian(tm.year, tm.mon, tm.mday).wrapping_add(span.day());
+                let julian = match date2julian(tm.year, tm.mon, tm.mday).checked_add(span.day()) {
+                    Some(j) if j >= 0 => j,
+                    _ => return Err(DateTimeError::overflow()),
+                };
                 let (y, m, d) = julian2date(julian);
                 tm.set_ymd(y, m, d);
                 timestamp = tm.to_timestamp(fsec, None)?;
             }
 
-            timestamp = timestamp.wrapping_add(span.time());
+            timestamp = match timestamp.checked_add(span.time()) {
+                Some(t) => t,
+                None => return Err(DateTimeError::overflow()),
+            };
 
             if !is_valid_timestamp(timestamp) {
                 return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From b02534c044469e6fd4758bbc7e1ce21896cf84a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 14/55] fix: timestamp subtraction reports overflow instead of
 wrapping

---
 src/timestamp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 3997bd0..c086dce 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -345,7 +345,10 @@ impl Timestamp {
             )));
         }
 
-        let time = self.value() - timestamp.value();
+        let time = match self.value().checked_sub(timestamp.value()) {
+            Some(t) => t,
+            None => return Err(DateTimeError::overflow()),
+        };
 
         //	This is wrong, but removing it breaks a lot of regression tests.
         // For example:
-- 
2.43.0


From b660e27477c536fef469b9c41fb0c7eded7e5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 15/55] fix: rounding a parsed timestamp could leave the
 supported range

---
 src/timestamp.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index c086dce..ec72d43 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -225,16 +225,21 @@ impl Timestamp {
                 )));
             }
 
-            if self.value() >= 0 {
-                let v = ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
+            let v = if self.value() >= 0 {
+                ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
-                    * TIMESTAMP_SCALES[typmod as usize];
-                Ok(Timestamp::new(v))
+                    * TIMESTAMP_SCALES[typmod as usize]
             } else {
-                let v = -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
+                -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
-                    * TIMESTAMP_SCALES[typmod as usize]);
+                    * TIMESTAMP_SCALES[typmod as usize])
+            };
+
+            // rounding up may leave the supported range.
+            if is_valid_timestamp(v) {
                 Ok(Timestamp::new(v))
+            } else {
+                Err(DateTimeError::overflow())
             }
         } else {
             Ok(self)
-- 
2.43.0


From 6794d88ef462b34f5e5d9e96acc9749a9c27068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 16/55] fix: range-check the time of day of timestamps given as
 labelled or run-together numbers

---
 src/parse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index f454000..eaf9bd7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1891,6 +1891,20 @@ pub fn decode_date_time(
         tm.hour += HOURS_PER_DAY / 2;
     }
 
+    // This should match the checks in decode_time_only
+    if tm.hour < 0
+        || tm.min < 0
+        || tm.min > MINS_PER_HOUR - 1
+        || tm.sec < 0
+        || tm.sec > SECS_PER_MINUTE
+        || tm.hour > HOURS_PER_DAY
+        || (tm.hour == HOURS_PER_DAY && (tm.min > 0 || tm.sec > 0 || ctx.f_sec > 0))
+        || ctx.f_sec < 0
+        || ctx.f_sec > USECS_PER_SEC
+    {
+        return Err(DateTimeError::overflow());
+    }
+
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
         if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
-- 
2.43.0


From 85b1aa2df5df09c0183edcc4fd7d0f978c44d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 17/55] fix: reject times of day above 24:00:00 such as
 23:59:60.5

---
 src/time.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 5807805..28da106 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -123,8 +123,13 @@ impl Time {
             date_order,
         )?;
 
-        let time = Time::from_pgtime(&tm, fsec).adjust_by_typmod(type_mod);
-        Ok(time)
+        let time = Time::from_pgtime(&tm, fsec);
+        // test for > 24:00:00, the fraction may push 23:59:60 over it.
+        if time.value() > USECS_PER_DAY {
+            return Err(DateTimeError::overflow());
+        }
+
+        Ok(time.adjust_by_typmod(type_mod))
     }
 
     /// Converts `Time` to string.
-- 
2.43.0


From f80fb452aa7d7f2dd87c745fb8a959379454e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 18/55] fix: compute the time of an interval in 64 bits so that
 large hour counts do not overflow

---
 src/interval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index 078a22d..31af761 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -397,7 +397,8 @@ impl Interval {
         let month = total_months as i32;
         let day = tm.mday;
         let time =
-            (((((tm.hour * 60) + tm.min) as i64 * 60) + tm.sec as i64) * USECS_PER_SEC) + fsec;
+            (((((tm.hour as i64 * 60) + tm.min as i64) * 60) + tm.sec as i64) * USECS_PER_SEC)
+                + fsec;
         Ok(Self::from_mdt(month, day, time))
     }
 
-- 
2.43.0


From ef57382292087d7fedadfbdc64d845194315e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 19/55] fix: zero-padded formatting of negative numbers
 overflowed a byte subtraction

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 3d1d22d..fb954d2 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -752,7 +752,7 @@ pub fn pg_ltostr_zeropad(s: &mut [u8], value: i32, min_width: usize) -> usize {
             let old_val = num;
             num /= 10;
             let remainder = old_val - num * 10;
-            s[start + min_width] = b'0' - remainder as u8;
+            s[start + min_width] = (i32::from(b'0') - remainder) as u8;
         }
     } else {
         // Build the number starting at the last digit */
-- 
2.43.0


From d977dc1bd5fb47f2d86a7b1de0481b819f455182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 20/55] fix: formatting an interval with a field of i32::MIN
 overflowed

---
 src/common.rs   |  9 +++++----
 src/interval.rs | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index fb954d2..821b731 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -661,12 +661,12 @@ pub const MAX_INTERVAL_PRECISION: usize = 6;
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
+pub fn pg_ltostr<T: Into<i64>>(s: &mut [u8], value: T) -> usize {
     let mut start = 0;
     // Handle negative numbers in a special way.  We can't just write a '-'
     // prefix and reverse the sign as that would overflow for INT32_MIN.
     let mut new_start = 0;
-    let mut value = value;
+    let mut value: i64 = value.into();
     if value < 0 {
         s[0] = b'-';
         start = 1;
@@ -730,9 +730,10 @@ pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr_zeropad(s: &mut [u8], value: i32, min_width: usize) -> usize {
+pub fn pg_ltostr_zeropad<T: Into<i64>>(s: &mut [u8], value: T, min_width: usize) -> usize {
     let mut start = 0;
     let end = min_width;
+    let value: i64 = value.into();
     let mut num = value;
     let mut min_width = min_width;
 
@@ -752,7 +753,7 @@ pub fn pg_ltostr_zeropad(s: &mut [u8], value: i32, min_width: usize) -> usize {
             let old_val = num;
             num /= 10;
             let remainder = old_val - num * 10;
-            s[start + min_width] = (i32::from(b'0') - remainder) as u8;
+            s[start + min_width] = (i64::from(b'0') - remainder) as u8;
         }
     } else {
         // Build the number starting at the last digit */
diff --git a/src/interval.rs b/src/interval.rs
index 31af761..4ec0cfa 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -621,11 +621,13 @@ fn format_interval(
     mut fsec: i64,
     style: IntervalStyle,
 ) -> Result<usize, DateTimeError> {
-    let mut year = tm.year;
-    let mut mon = tm.mon;
-    let mut mday = tm.mday;
-    let mut hour = tm.hour;
-    let mut min = tm.min;
+    // The fields are negated below, so use a type that can hold the negation
+    // of every field value.
+    let mut year = tm.year as i64;
+    let mut mon = tm.mon as i64;
+    let mut mday = tm.mday as i64;
+    let mut hour = tm.hour as i64;
+    let mut min = tm.min as i64;
     let mut sec = tm.sec;
     let mut is_before = false;
     let mut is_zero = true;
@@ -879,7 +881,7 @@ fn format_interval(
 /// Helper functions to avoid duplicated code in EncodeInterval.
 /// Append an ISO-8601-style interval field, but only if value isn't zero.
 #[inline]
-fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, DateTimeError> {
+fn add_iso8601_int_part(s: &mut [u8], value: i64, units: u8) -> Result<usize, DateTimeError> {
     if value == 0 {
         return Ok(0);
     }
@@ -894,7 +896,7 @@ fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, Da
 #[inline]
 fn add_postgres_int_part(
     s: &mut [u8],
-    value: i32,
+    value: i64,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
@@ -929,7 +931,7 @@ fn add_postgres_int_part(
 #[inline]
 fn add_verbose_int_part(
     s: &mut [u8],
-    value: i32,
+    value: i64,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
-- 
2.43.0


From edff239c7a2de6ca53895106b13c0f6e1cc7a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 21/55] fix: verbose intervals pluralise by the printed number
 ("@ 1 year ago")

---
 src/interval.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 4ec0cfa..ae074c4 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -943,14 +943,14 @@ fn add_verbose_int_part(
     let mut offset = 0;
     offset = set_one_byte(s, offset, b' ');
     // first nonzero value sets is_before.
+    let mut value = value;
     if *is_zero {
         *is_before = value < 0;
-        offset += pg_ltostr(&mut s[offset..], value.abs());
+        value = value.abs();
     } else if *is_before {
-        offset += pg_ltostr(&mut s[offset..], -value);
-    } else {
-        offset += pg_ltostr(&mut s[offset..], value);
+        value = -value;
     };
+    offset += pg_ltostr(&mut s[offset..], value);
     offset = set_one_byte(s, offset, b' ');
     offset = copy_slice(s, offset, units);
     if value != 1 {
-- 
2.43.0


From 904b88974f6ccde6211c8178d2616c74466a8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 22/55] fix: report overflow of interval fields while parsing
 instead of wrapping

---
 src/parse.rs | 102 +++++++++++++++++++++++++++++----------------------
 1 file changed, 59 insertions(+), 43 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index eaf9bd7..77660fe 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2442,6 +2442,18 @@ pub fn decode_time_only(
     Ok(ctx.f_sec)
 }
 
+/// Adds `value` * `scale` to a field of an interval, checking for overflow.
+#[inline]
+fn add_field(field: &mut i32, value: i32, scale: i32) -> Result<(), DateTimeError> {
+    match value.checked_mul(scale).and_then(|v| field.checked_add(v)) {
+        Some(v) => {
+            *field = v;
+            Ok(())
+        }
+        None => Err(DateTimeError::overflow()),
+    }
+}
+
 /// Multiply frac by scale (to produce seconds) and add to *tm & *fsec.
 /// We assume the input frac is less than 1 so overflow is not an issue.
 #[inline]
@@ -2581,14 +2593,14 @@ fn decode_interval_number_field(
         }
         TokenField::Millisec => {
             // avoid overflowing the fsec field.
-            tm.sec += val / 1000;
+            add_field(&mut tm.sec, val / 1000, 1)?;
             val -= (val / 1000) * 1000;
             *f_sec += ((val as f64 + *f_val) * 1000_f64).round() as i64;
             *t_mask = TokenType::MILLISECOND.mask();
         }
 
         TokenField::Second => {
-            tm.sec += val;
+            add_field(&mut tm.sec, val, 1)?;
             *f_sec += (*f_val * 1_000_000_f64).round() as i64;
 
             // If any subseconds were specified, consider this
@@ -2601,64 +2613,64 @@ fn decode_interval_number_field(
         }
 
         TokenField::Minute => {
-            tm.min += val;
+            add_field(&mut tm.min, val, 1)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_MINUTE)?;
             *t_mask = TokenType::MINUTE.mask();
         }
 
         TokenField::Hour => {
-            tm.hour += val;
+            add_field(&mut tm.hour, val, 1)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;
             *t_mask = TokenType::HOUR.mask();
             *ty = TokenField::Day.value(); /* set for next field */
         }
 
         TokenField::Day => {
-            tm.mday += val;
+            add_field(&mut tm.mday, val, 1)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_DAY)?;
             *t_mask = TokenType::DAY.mask();
         }
 
         TokenField::Week => {
-            tm.mday += val * 7;
+            add_field(&mut tm.mday, val, 7)?;
             adjust_fract_days(*f_val, tm, f_sec, 7)?;
             *t_mask = TokenType::WEEK.mask();
         }
 
         TokenField::Month => {
-            tm.mon += val;
+            add_field(&mut tm.mon, val, 1)?;
             adjust_fract_days(*f_val, tm, f_sec, DAYS_PER_MONTH)?;
             *t_mask = TokenType::MONTH.mask();
         }
 
         TokenField::Year => {
-            tm.year += val;
+            add_field(&mut tm.year, val, 1)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64) as i32, 1)?;
             }
             *t_mask = TokenType::YEAR.mask();
         }
 
         TokenField::Decade => {
-            tm.year += val * 10;
+            add_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32, 1)?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
 
         TokenField::Century => {
-            tm.year += val * 100;
+            add_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32, 1)?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
 
         TokenField::Millennium => {
-            tm.year += val * 1000;
+            add_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32, 1)?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
@@ -2845,7 +2857,7 @@ pub fn decode_interval(
     if *f_sec != 0 {
         let sec = *f_sec / USECS_PER_SEC;
         *f_sec -= sec * USECS_PER_SEC;
-        tm.sec += sec as i32;
+        add_field(&mut tm.sec, sec as i32, 1)?;
     }
 
     // The SQL standard defines the interval literal
@@ -2902,12 +2914,16 @@ pub fn decode_interval(
     // finally, AGO negates everything.
     if is_before {
         *f_sec = -(*f_sec);
-        tm.sec = -tm.sec;
-        tm.min = -tm.min;
-        tm.hour = -tm.hour;
-        tm.mday = -tm.mday;
-        tm.mon = -tm.mon;
-        tm.year = -tm.year;
+        for field in &mut [
+            &mut tm.sec,
+            &mut tm.min,
+            &mut tm.hour,
+            &mut tm.mday,
+            &mut tm.mon,
+            &mut tm.year,
+        ] {
+            **field = field.checked_neg().ok_or_else(DateTimeError::overflow)?;
+        }
     }
 
     Ok(())
@@ -2991,8 +3007,8 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     let mut s = s;
 
-    tm.year += *val;
-    tm.mon += (*fval * MONTHS_PER_YEAR as f64) as i32;
+    add_field(&mut tm.year, *val, 1)?;
+    add_field(&mut tm.mon, (*fval * MONTHS_PER_YEAR as f64) as i32, 1)?;
     if unit == b'\0' {
         return Ok((true, s));
     }
@@ -3003,7 +3019,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mon += *val;
+    add_field(&mut tm.mon, *val, 1)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
         None => return Ok((true, s)),
@@ -3024,7 +3040,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mday += *val;
+    add_field(&mut tm.mday, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
         None => Ok((true, s)),
@@ -3057,14 +3073,14 @@ fn decode_time_part_left(
         return Err(DateTimeError::invalid("have field is set".to_string()));
     }
 
-    tm.hour += *val;
+    add_field(&mut tm.hour, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_HOUR)?;
     if unit == b'\0' {
         return Ok(());
     }
 
     let mut s = parse_iso8601_number(s, val, fval)?;
-    tm.min += *val;
+    add_field(&mut tm.min, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
         None => return Ok(()),
@@ -3079,7 +3095,7 @@ fn decode_time_part_left(
     }
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.sec += *val;
+    add_field(&mut tm.sec, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
         None => Ok(()),
@@ -3152,19 +3168,19 @@ pub fn decode_iso8601_interval(
             match unit        // before T: Y M W D.
             {
                 b'Y' => {
-                    tm.year += val;
-                    tm.mon += (fval * MONTHS_PER_YEAR as f64) as i32;
+                    add_field(&mut tm.year, val, 1)?;
+                    add_field(&mut tm.mon, (fval * MONTHS_PER_YEAR as f64) as i32, 1)?;
                 }
                 b'M' => {
-                    tm.mon += val;
+                    add_field(&mut tm.mon, val, 1)?;
                     adjust_fract_days(fval, tm, fsec, DAYS_PER_MONTH)?;
                 }
                 b'W' => {
-                    tm.mday += val * 7;
+                    add_field(&mut tm.mday, val, 7)?;
                     adjust_fract_days(fval, tm, fsec, 7)?;
                 }
                 b'D' => {
-                    tm.mday += val;
+                    add_field(&mut tm.mday, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                 }
                 b'T' | b'\0' => {
@@ -3172,9 +3188,9 @@ pub fn decode_iso8601_interval(
                     let width = iso8601_integer_width(field_start);
                     if width == 8 && !havefield
                     {
-                        tm.year += val / 10000;
-                        tm.mon += (val / 100) % 100;
-                        tm.mday += val % 100;
+                        add_field(&mut tm.year, val / 10000, 1)?;
+                        add_field(&mut tm.mon, (val / 100) % 100, 1)?;
+                        add_field(&mut tm.mday, val % 100, 1)?;
                         adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                         if unit == b'\0' {
                             return Ok(());
@@ -3216,24 +3232,24 @@ pub fn decode_iso8601_interval(
             match unit        /* after T: H M S */
             {
                 b'H' => {
-                    tm.hour += val;
+                    add_field(&mut tm.hour, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_HOUR)?;
                 }
                 b'M' => {
-                    tm.min += val;
+                    add_field(&mut tm.min, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_MINUTE)?;
                 }
                 b'S' => {
-                    tm.sec += val;
+                    add_field(&mut tm.sec, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
                 b'\0' => { // ISO 8601 4.4.3.3 Alternative Format
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
                     {
-                        tm.hour += val / 10000;
-                        tm.min += (val / 100) % 100;
-                        tm.sec += val % 100;
+                        add_field(&mut tm.hour, val / 10000, 1)?;
+                        add_field(&mut tm.min, (val / 100) % 100, 1)?;
+                        add_field(&mut tm.sec, val % 100, 1)?;
                         adjust_fract_seconds(fval, tm, fsec, 1)?;
                         return Ok(());
                     }
-- 
2.43.0


From 1c100bc94bbd5d41fc1c94ae2cbea11276375965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 23/55] fix: read negative numbers in ISO 8601 intervals, as
 written by format()

---
 src/parse.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 77660fe..1bd44f6 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2946,7 +2946,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
             ));
         }
         Some(c) => {
-            if !(c.is_ascii_digit() || c == &b'c' || c == &b'.') {
+            if !(c.is_ascii_digit() || c == &b'-' || c == &b'.') {
                 return Err(DateTimeError::invalid(format!(
                     "str: {:?} is invalid for iso number",
                     s
@@ -2967,7 +2967,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     if val >= 0.0 {
         *ipart = val.floor() as i32;
     } else {
-        *ipart = -val.floor() as i32;
+        *ipart = -(-val).floor() as i32;
     }
     *fpart = val - *ipart as f64;
     Ok(end)
@@ -2987,6 +2987,29 @@ fn iso8601_integer_width(field_start: &[u8]) -> i32 {
     s.iter().take_while(|&&i| i >= b'0' && i <= b'9').count() as i32
 }
 
+/// Parses a number of the "alternative format", which takes no sign.
+#[inline]
+fn parse_iso8601_unsigned<'a>(
+    s: &'a [u8],
+    ipart: &mut i32,
+    fpart: &mut f64,
+) -> Result<&'a [u8], DateTimeError> {
+    check_iso8601_unsigned(s)?;
+    parse_iso8601_number(s, ipart, fpart)
+}
+
+/// Only the "format with designators" takes signed numbers.
+#[inline]
+fn check_iso8601_unsigned(field_start: &[u8]) -> Result<(), DateTimeError> {
+    match field_start.first() {
+        Some(b'-') => Err(DateTimeError::invalid(format!(
+            "str: {:?} is invalid for iso number without designator",
+            field_start
+        ))),
+        _ => Ok(()),
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn decode_date_part_left<'a, 'b, 'c, 'd>(
     s: &'a [u8],
@@ -3018,7 +3041,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
         return Ok((false, s));
     }
 
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     add_field(&mut tm.mon, *val, 1)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
@@ -3039,7 +3062,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     add_field(&mut tm.mday, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
@@ -3079,7 +3102,7 @@ fn decode_time_part_left(
         return Ok(());
     }
 
-    let mut s = parse_iso8601_number(s, val, fval)?;
+    let mut s = parse_iso8601_unsigned(s, val, fval)?;
     add_field(&mut tm.min, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
@@ -3094,7 +3117,7 @@ fn decode_time_part_left(
         }
     }
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     add_field(&mut tm.sec, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
@@ -3132,6 +3155,8 @@ pub fn decode_iso8601_interval(
 
     *dtype = TokenField::Delta;
     *fsec = 0;
+    // The fields may have been set by an attempt to decode another format.
+    *tm = PgTime::new();
 
     if s.len() < 2 || s[0] != b'P' {
         return Err(DateTimeError::invalid(format!(
@@ -3164,6 +3189,9 @@ pub fn decode_iso8601_interval(
         } else {
             b'\0'
         };
+        if !unit.is_ascii_alphabetic() || unit == b'T' {
+            check_iso8601_unsigned(field_start)?;
+        }
         if datepart {
             match unit        // before T: Y M W D.
             {
-- 
2.43.0


From 30e3ab7b352a61510dc03e4f7bd600371278740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 24/55] fix: interval multiplication overflowed the day field
 and saturated the time

---
 src/interval.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index ae074c4..57bfa4d 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -332,15 +332,25 @@ impl Interval {
         // cascade from months and days.  It might still be >24 if the combination
         // of cascade and the seconds factor operation itself.
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = result
+                .day
+                .checked_add((sec_remainder / SECS_PER_DAY as f64) as i32)
+                .ok_or_else(DateTimeError::overflow)?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
+        result.day = result
+            .day
+            .checked_add(month_remainder_days as i32)
+            .ok_or_else(DateTimeError::overflow)?;
         let result_time =
             (self.time as f64 * factor + sec_remainder * USECS_PER_SEC as f64).round();
-        if result_time > std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+        // std::i64::MAX as f64 is 2^63, which is out of range.
+        if result_time.is_nan()
+            || result_time >= std::i64::MAX as f64
+            || result_time < std::i64::MIN as f64
+        {
             return Err(DateTimeError::overflow());
         }
 
@@ -375,12 +385,18 @@ impl Interval {
             * SECS_PER_DAY as f64;
         sec_remainder = timestamp_round(sec_remainder);
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = result
+                .day
+                .checked_add((sec_remainder / SECS_PER_DAY as f64) as i32)
+                .ok_or_else(DateTimeError::overflow)?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
+        result.day = result
+            .day
+            .checked_add(month_remainder_days as i32)
+            .ok_or_else(DateTimeError::overflow)?;
         result.time =
             (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round() as i64;
         Ok(result)
-- 
2.43.0


From af5d2513e03740c4dc641a86e7bfc6c53ae14477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 25/55] fix: interval division reports overflow instead of
 saturating

---
 src/interval.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 57bfa4d..0d5a8f5 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -370,10 +370,23 @@ impl Interval {
                 self
             )));
         }
-        let month = (self.month as f64 / factor) as i32;
-        let day = (self.day as f64 / factor) as i32;
+        let result_month = self.month as f64 / factor;
+        if result_month.is_nan()
+            || result_month > std::i32::MAX as f64
+            || result_month < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        let result_day = self.day as f64 / factor;
+        if result_day.is_nan()
+            || result_day > std::i32::MAX as f64
+            || result_day < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
 
-        let mut result = Interval::from_mdt(month, day, 0);
+        let mut result = Interval::from_mdt(result_month as i32, result_day as i32, 0);
         // Fractional months full days into days.  See comment in interval_mul().
 
         let mut month_remainder_days =
@@ -397,8 +410,17 @@ impl Interval {
             .day
             .checked_add(month_remainder_days as i32)
             .ok_or_else(DateTimeError::overflow)?;
-        result.time =
-            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round() as i64;
+        let result_time =
+            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round();
+        // std::i64::MAX as f64 is 2^63, which is out of range.
+        if result_time.is_nan()
+            || result_time >= std::i64::MAX as f64
+            || result_time < std::i64::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        result.time = result_time as i64;
         Ok(result)
     }
 
-- 
2.43.0


From 824067a9d287e643286d79af7b30c95f62c5781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 26/55] fix: adding a very long interval to a time of day
 wrapped to a wrong time

---
 src/time.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 28da106..8e93dd6 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -147,7 +147,8 @@ impl Time {
     /// `Time` Adds `Interval`.
     #[inline]
     pub fn add_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_add(span.time());
+        // Reduce the operands first, so that the result can not wrap around.
+        let mut result = self.value() % USECS_PER_DAY + span.time() % USECS_PER_DAY;
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
@@ -165,7 +166,8 @@ impl Time {
     /// `Time` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_sub(span.time());
+        // Reduce the operands first, so that the result can not wrap around.
+        let mut result = self.value() % USECS_PER_DAY - span.time() % USECS_PER_DAY;
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
-- 
2.43.0


From be1d30fd34470aadf75962c241ba748cd621d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 27/55] fix: converting the most negative interval to a time of
 day overflowed

---
 src/time.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 8e93dd6..2191e3e 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -264,15 +264,7 @@ impl TryFrom<Timestamp> for Option<Time> {
 impl From<Interval> for Time {
     #[inline]
     fn from(value: Interval) -> Self {
-        let mut result = value.time();
-        if result >= USECS_PER_DAY {
-            let days = result / USECS_PER_DAY;
-            result -= days * USECS_PER_DAY;
-        } else if result < 0 {
-            let days = (-result + USECS_PER_DAY - 1) / USECS_PER_DAY;
-            result += days * USECS_PER_DAY;
-        }
-        Time::from(result)
+        Time::from(value.time().rem_euclid(USECS_PER_DAY))
     }
 }
 
-- 
2.43.0


From 8f263ecc62debd903d534e1898ca1b997ddc9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 28/55] fix: dates in Postgres style and DMY order were written
 as dd-mm.yyyy, which does not read back

---
 src/date.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 2005601..60f5672 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -338,7 +338,9 @@ fn format_date(
 
         _ => {
             // traditional date-only style for Postgres.
+            let mut separator = b'.';
             if date_order == DateOrder::DMY {
+                separator = b'-';
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
                 offset = set_one_byte(s, offset, b'-');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
@@ -347,7 +349,7 @@ fn format_date(
                 offset = set_one_byte(s, offset, b'.');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
             }
-            offset = set_one_byte(s, offset, b'.');
+            offset = set_one_byte(s, offset, separator);
             let year = if tm.year > 0 { tm.year } else { -(tm.year - 1) };
             offset += pg_ltostr_zeropad(&mut s[offset..], year, 4);
         }
-- 
2.43.0


From 20995540ad459254cabbbe0abfb470ada28bb4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 29/55] fix: day-of-year dates of years beyond the calendar
 overflowed

---
 src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index 821b731..a5387b9 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -320,6 +320,10 @@ impl PgTime {
 
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
+            // Prevent overflow in Julian-day routines.
+            if !is_valid_julian(self.year, 1, 1) {
+                return Err(DateTimeError::overflow());
+            }
             let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
             self.set_ymd(y, m, d);
         }
-- 
2.43.0


From 2a99f99580231ee1f3cd24831ae4cab2af550298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 30/55] fix: ISO year of BC dates counted a year zero

---
 src/timestamp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index ec72d43..044ba5e 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -834,7 +834,11 @@ impl DateTime for Timestamp {
                         Ok(result)
                     }
 
-                    DateUnit::IsoYear => Ok(date_to_iso_year(tm.year, tm.mon, tm.mday) as f64),
+                    DateUnit::IsoYear => {
+                        let year = date_to_iso_year(tm.year, tm.mon, tm.mday);
+                        // there is no year 0, just 1 BC and 1 AD.
+                        Ok(if year > 0 { year } else { year - 1 } as f64)
+                    }
                     DateUnit::Dow | DateUnit::IsoDow => {
                         let mut tm = PgTime::new();
                         let mut fsec = 0;
-- 
2.43.0


From 41ecc846f2c375965e21d8fd247ae519ce924382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 31/55] fix: read day-month-year dates with a month name and
 separate fields in YMD order

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1bd44f6..f70fcb6 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1618,7 +1618,7 @@ impl DecodeDateTimeCtx {
             else {
                 decode_number(
                     str,
-                    false,
+                    self.have_text_month,
                     self.f_mask,
                     &mut self.t_mask,
                     tm,
-- 
2.43.0


From 6b9f55d9e4f49e521cfe4d5589b91b498d613bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 32/55] fix: deserialise dates, times and timestamps from
 self-describing binary formats

---
 src/serde.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/serde.rs b/src/serde.rs
index 880a96d..15d77ec 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -18,6 +18,7 @@ use crate::{Date, DateOrder, DateStyle, Interval, IntervalStyle, Time, Timestamp
 use serde::de::{MapAccess, SeqAccess, Visitor};
 use serde::ser::SerializeStruct;
 use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
+use std::convert::TryFrom;
 use std::fmt;
 
 impl Serialize for Date {
@@ -61,6 +62,27 @@ impl<'de> Deserialize<'de> for Date {
                 Ok(Date::new(v))
             }
 
+            // Self-describing binary formats choose the integer type by the value.
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i32::try_from(v)
+                    .map(Date::new)
+                    .map_err(|_| E::invalid_value(de::Unexpected::Signed(v), &self))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i32::try_from(v)
+                    .map(Date::new)
+                    .map_err(|_| E::invalid_value(de::Unexpected::Unsigned(v), &self))
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -117,6 +139,17 @@ impl<'de> Deserialize<'de> for Time {
                 Ok(Time::from(v))
             }
 
+            // Self-describing binary formats choose the integer type by the value.
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i64::try_from(v)
+                    .map(Time::from)
+                    .map_err(|_| E::invalid_value(de::Unexpected::Unsigned(v), &self))
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -175,6 +208,17 @@ impl<'de> Deserialize<'de> for Timestamp {
                 Ok(Timestamp::new(v))
             }
 
+            // Self-describing binary formats choose the integer type by the value.
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i64::try_from(v)
+                    .map(Timestamp::new)
+                    .map_err(|_| E::invalid_value(de::Unexpected::Unsigned(v), &self))
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
-- 
2.43.0


From 4965520f8a8ecf0db883ff568a0a8831d43c466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 33/55] fix: justify_interval wrapped the day field although
 the justified result fits

---
 src/interval.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 0d5a8f5..fe8eb4e 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -257,30 +257,30 @@ impl Interval {
     ///  all three fields are negative or all are positive.
     #[inline]
     pub fn justify_interval(self) -> Self {
-        let mut result = self;
-        let (time, whole_day) = time_modulo(result.time, USECS_PER_DAY);
-        result.time = time;
-        result.day = result.day.wrapping_add(whole_day as i32); // could overflow.
-        let whole_month = result.day / DAYS_PER_MONTH;
-        result.day = result.day.wrapping_sub(whole_month * DAYS_PER_MONTH);
-        result.month = result.month.wrapping_add(whole_month);
-
-        if result.month > 0 && (result.day < 0 || (result.day == 0 && result.time < 0)) {
-            result.day += DAYS_PER_MONTH;
-            result.month -= 1;
-        } else if result.month < 0 && (result.day > 0 || (result.day == 0 && result.time > 0)) {
-            result.day -= DAYS_PER_MONTH;
-            result.month += 1;
+        let (mut time, whole_day) = time_modulo(self.time, USECS_PER_DAY);
+        // The days may be out of range until the whole months are moved out.
+        let mut day = self.day as i64 + whole_day;
+        let whole_month = day / DAYS_PER_MONTH as i64;
+        day -= whole_month * DAYS_PER_MONTH as i64;
+        let mut month = self.month as i64 + whole_month;
+
+        if month > 0 && (day < 0 || (day == 0 && time < 0)) {
+            day += DAYS_PER_MONTH as i64;
+            month -= 1;
+        } else if month < 0 && (day > 0 || (day == 0 && time > 0)) {
+            day -= DAYS_PER_MONTH as i64;
+            month += 1;
         }
 
-        if result.day > 0 && result.time < 0 {
-            result.time += USECS_PER_DAY;
-            result.day -= 1;
-        } else if result.day < 0 && result.time > 0 {
-            result.time -= USECS_PER_DAY;
-            result.day += 1;
+        if day > 0 && time < 0 {
+            time += USECS_PER_DAY;
+            day -= 1;
+        } else if day < 0 && time > 0 {
+            time -= USECS_PER_DAY;
+            day += 1;
         }
-        result
+        // month could overflow.
+        Interval::from_mdt(month as i32, day as i32, time)
     }
 
     /// `Interval` multiply float64.
-- 
2.43.0


From fa1b07eeaa05182ffc013162782462f2e30ff783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 34/55] fix: truncating the time 24:00:00 gave 00:00:00

---
 src/time.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index 2191e3e..5f83468 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -310,7 +310,8 @@ impl DateTime for Time {
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
         let interval: Interval = From::from(*self);
         let it = interval.truncate(ty, unit)?;
-        Ok(From::from(it))
+        // Not the conversion from `Interval`, which turns 24:00:00 into 00:00:00.
+        Ok(Time::from(it.time()))
     }
 }
 
-- 
2.43.0


From 2702091c0b2dd4d3a81b55c1b8a973c3c5d99710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 35/55] fix: Time accepted text without a complete time of day
 (" ", "am", "h04m05s06")

---
 src/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index f70fcb6..950b39a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2438,6 +2438,15 @@ pub fn decode_time_only(
         return Err(DateTimeError::overflow());
     }
 
+    // A time of day must have been given completely.
+    let time_mask = TokenType::HOUR.mask() | TokenType::MINUTE.mask() | TokenType::SECOND.mask();
+    if (ctx.f_mask & time_mask) != time_mask {
+        return Err(DateTimeError::invalid(format!(
+            "time's field mask: {:x} is invalid",
+            ctx.f_mask
+        )));
+    }
+
     // To do for time zone
     Ok(ctx.f_sec)
 }
-- 
2.43.0


From e4e89581b3cee27d8e0c2b780254fead11346bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 36/55] fix: fractions of decades, centuries and millennia lost
 a month ("0.3 century")

---
 src/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 950b39a..adccf0a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2663,7 +2663,7 @@ fn decode_interval_number_field(
         TokenField::Decade => {
             add_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32, 1)?;
+                add_field(&mut tm.mon, timestamp_round(*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32, 1)?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
@@ -2671,7 +2671,7 @@ fn decode_interval_number_field(
         TokenField::Century => {
             add_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32, 1)?;
+                add_field(&mut tm.mon, timestamp_round(*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32, 1)?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
@@ -2679,7 +2679,7 @@ fn decode_interval_number_field(
         TokenField::Millennium => {
             add_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32, 1)?;
+                add_field(&mut tm.mon, timestamp_round(*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32, 1)?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
-- 
2.43.0


From 6a1052195cd9344c9d71e05270db721ff54476db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 37/55] fix: fractions in ISO 8601 intervals lost precision
 ("P8.1M" gave 8 mons 2 days 24:00:00)

---
 src/parse.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index adccf0a..6e1f690 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2996,6 +2996,20 @@ fn iso8601_integer_width(field_start: &[u8]) -> i32 {
     s.iter().take_while(|&&i| i >= b'0' && i <= b'9').count() as i32
 }
 
+/// Reads the fraction of an ISO 8601 number field from its own digits: subtracting
+/// the integral part from the whole loses precision (8.1 - 8 is less than 0.1).
+fn iso8601_fraction(field_start: &[u8]) -> Result<f64, DateTimeError> {
+    let (sign, s) = extract_sign(field_start);
+    let (_, s) = eat_digits(s);
+    match s.first() {
+        Some(b'.') => {
+            let (frac, _) = str2d(s)?;
+            Ok(sign as f64 * frac)
+        }
+        _ => Ok(0.0),
+    }
+}
+
 /// Parses a number of the "alternative format", which takes no sign.
 #[inline]
 fn parse_iso8601_unsigned<'a>(
@@ -3004,7 +3018,9 @@ fn parse_iso8601_unsigned<'a>(
     fpart: &mut f64,
 ) -> Result<&'a [u8], DateTimeError> {
     check_iso8601_unsigned(s)?;
-    parse_iso8601_number(s, ipart, fpart)
+    let end = parse_iso8601_number(s, ipart, fpart)?;
+    *fpart = iso8601_fraction(s)?;
+    Ok(end)
 }
 
 /// Only the "format with designators" takes signed numbers.
@@ -3200,6 +3216,8 @@ pub fn decode_iso8601_interval(
         };
         if !unit.is_ascii_alphabetic() || unit == b'T' {
             check_iso8601_unsigned(field_start)?;
+        } else {
+            fval = iso8601_fraction(field_start)?;
         }
         if datepart {
             match unit        // before T: Y M W D.
-- 
2.43.0


From 0655ec3692579b45f8f44eb24a0065266527d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 38/55] fix: "infinity" next to a date or time ("1999-01-08
 infinity") was accepted

---
 src/parse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 6e1f690..74e8511 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1879,6 +1879,14 @@ pub fn decode_date_time(
         ctx.f_mask |= ctx.t_mask;
     }
 
+    // "infinity" and the like stand alone: no date, time or era goes with them.
+    if ctx.f_mask & TokenType::RESERV.mask() != 0 && ctx.f_mask != TokenType::RESERV.mask() {
+        return Err(DateTimeError::invalid(format!(
+            "{:?} is not expected with other fields, field mask: {:x}",
+            ctx.d_type, ctx.f_mask
+        )));
+    }
+
     // do final checking/adjustment of Y/M/D fields.
     tm.validate_date(ctx.f_mask, ctx.is_julian, ctx.is2digits, ctx.bc)?;
     // handle AM/PM.
-- 
2.43.0


From c7b328590821b228ad776f3ace4dd33a4010bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 39/55] fix: interval text lost fractions of larger units
 written after a clock ("01:02:03 1.5 days")

---
 src/parse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 74e8511..4d3b706 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2775,7 +2775,11 @@ pub fn decode_interval(
         let field = fields[field_idx];
         match f_type {
             TokenField::Time => {
+                // keep what fractions of larger units have carried down.
+                let (carried_sec, carried_fsec) = (tm.sec, *f_sec);
                 decode_time(field, f_mask, range, &mut t_mask, tm, f_sec)?;
+                add_field(&mut tm.sec, carried_sec, 1)?;
+                *f_sec += carried_fsec;
                 ty = TokenField::Day.value();
             }
 
@@ -2790,6 +2794,7 @@ pub fn decode_interval(
                 let find = field.iter().find(|&&i| i == b':');
                 match find {
                     Some(_) => {
+                        let (carried_sec, carried_fsec) = (tm.sec, *f_sec);
                         decode_time(&field[1..], f_mask, range, &mut t_mask, tm, f_sec)?;
 
                         if field[0] == b'-' {
@@ -2799,6 +2804,8 @@ pub fn decode_interval(
                             tm.sec = -tm.sec;
                             *f_sec = -(*f_sec);
                         }
+                        add_field(&mut tm.sec, carried_sec, 1)?;
+                        *f_sec += carried_fsec;
                         // Set the next type to be a day, if units are not
                         // specified. This handles the case of '1 +02:03' since we
                         // are reading right to left.
-- 
2.43.0


From 8f2513e65aea476a8aeef11004c369cccf4c36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 40/55] fix: day-of-year dates of the first supported year were
 rejected ("4714-328 BC")

---
 src/common.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index a5387b9..ad68580 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -321,10 +321,15 @@ impl PgTime {
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
             // Prevent overflow in Julian-day routines.
-            if !is_valid_julian(self.year, 1, 1) {
+            if self.year < JULIAN_MIN_YEAR || self.year >= JULIAN_MAX_YEAR {
                 return Err(DateTimeError::overflow());
             }
-            let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
+            let julian = date2julian(self.year, 1, 1) + self.yday - 1;
+            // The first supported year starts before the first Julian day.
+            if julian < 0 {
+                return Err(DateTimeError::overflow());
+            }
+            let (y, m, d) = julian2date(julian);
             self.set_ymd(y, m, d);
         }
 
-- 
2.43.0


From 84374de5469fc792a2ded5053e6ae67e28d4bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 41/55] fix: a sign right after other punctuation was dropped
 ("@-5 days" gave 5 days)

---
 src/parse.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4d3b706..3b9e240 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -391,9 +391,8 @@ where
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char.is_ascii_punctuation() {
-                    let (_field_str, s) =
-                        eat_special_chars(current_str, |i| i.is_ascii_punctuation());
-                    current_str = s;
+                    // ignore other punctuation but use as delimiter; a sign after it counts.
+                    current_str = &current_str[1..];
                     continue;
                 } else {
                     return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From a80409992f012ff98692026c5dabf9700b146436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 42/55] fix: ISO 8601 quantities above 2^30 with seven nines
 gained one ("P2090638823.9999999D")

---
 src/parse.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3b9e240..46ab175 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -3010,17 +3010,17 @@ fn iso8601_integer_width(field_start: &[u8]) -> i32 {
     s.iter().take_while(|&&i| i >= b'0' && i <= b'9').count() as i32
 }
 
-/// Reads the fraction of an ISO 8601 number field from its own digits: subtracting
-/// the integral part from the whole loses precision (8.1 - 8 is less than 0.1).
-fn iso8601_fraction(field_start: &[u8]) -> Result<f64, DateTimeError> {
-    let (sign, s) = extract_sign(field_start);
-    let (_, s) = eat_digits(s);
+/// Reads the integral part and the fraction of an ISO 8601 number field from their own
+/// digits: splitting the number as a whole loses precision (8.1 - 8 is less than 0.1).
+fn iso8601_number_parts(field_start: &[u8]) -> Result<(i32, f64), DateTimeError> {
+    let (sign, _) = extract_sign(field_start);
+    let (val, s) = str2i32(field_start)?;
     match s.first() {
         Some(b'.') => {
             let (frac, _) = str2d(s)?;
-            Ok(sign as f64 * frac)
+            Ok((val, sign as f64 * frac))
         }
-        _ => Ok(0.0),
+        _ => Ok((val, 0.0)),
     }
 }
 
@@ -3033,7 +3033,9 @@ fn parse_iso8601_unsigned<'a>(
 ) -> Result<&'a [u8], DateTimeError> {
     check_iso8601_unsigned(s)?;
     let end = parse_iso8601_number(s, ipart, fpart)?;
-    *fpart = iso8601_fraction(s)?;
+    let (val, frac) = iso8601_number_parts(s)?;
+    *ipart = val;
+    *fpart = frac;
     Ok(end)
 }
 
@@ -3231,7 +3233,9 @@ pub fn decode_iso8601_interval(
         if !unit.is_ascii_alphabetic() || unit == b'T' {
             check_iso8601_unsigned(field_start)?;
         } else {
-            fval = iso8601_fraction(field_start)?;
+            let (int, frac) = iso8601_number_parts(field_start)?;
+            val = int;
+            fval = frac;
         }
         if datepart {
             match unit        // before T: Y M W D.
-- 
2.43.0


From c7c973f5f41a65ac1208df7c4b242fcc317d28a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 43/55] fix: an infinite timestamp minus an interval that
 cannot be negated is infinite

---
 src/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 044ba5e..d9782b8 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -322,6 +322,9 @@ impl Timestamp {
     /// `Timestamp` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Result<Timestamp, DateTimeError> {
+        if self.is_infinite() {
+            return Ok(self);
+        }
         let neg_span = span.negate()?;
         self.add_interval(neg_span)
     }
-- 
2.43.0


From 9163ea6649a9ea8bb52ebac44fa997ee2720d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 44/55] fix: read intervals whose fields are encoded by index

---
 src/serde.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/serde.rs b/src/serde.rs
index 15d77ec..fee0635 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -299,6 +299,39 @@ impl<'de> Deserialize<'de> for Interval {
                             _ => Err(de::Error::unknown_field(v, FIELDS)),
                         }
                     }
+
+                    // Some binary formats write field indexes instead of names.
+                    #[inline]
+                    fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                    where
+                        E: de::Error,
+                    {
+                        match v {
+                            0 => Ok(Field::Time),
+                            1 => Ok(Field::Day),
+                            2 => Ok(Field::Month),
+                            _ => Err(E::invalid_value(
+                                de::Unexpected::Unsigned(v),
+                                &"field index 0 <= i < 3",
+                            )),
+                        }
+                    }
+
+                    #[inline]
+                    fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E>
+                    where
+                        E: de::Error,
+                    {
+                        match v {
+                            b"time" => Ok(Field::Time),
+                            b"day" => Ok(Field::Day),
+                            b"month" => Ok(Field::Month),
+                            _ => Err(de::Error::unknown_field(
+                                &String::from_utf8_lossy(v),
+                                FIELDS,
+                            )),
+                        }
+                    }
                 }
 
                 deserializer.deserialize_identifier(FieldVisitor)
-- 
2.43.0


From df19968c8b5e25221f09d4bd019574c7580df5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:10 +0000
Subject: [PATCH 45/55] fix: a time beside an incomplete date was read as
 another date ("Jul 2045 13:48:12")

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 46ab175..4cdf87b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1914,7 +1914,8 @@ pub fn decode_date_time(
 
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
-        if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
+        // Only a time was given; a part of a date is not enough.
+        if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M && (ctx.f_mask & DTK_DATE_M) == 0 {
             return Ok((1, ctx.d_type, ctx.f_sec));
         }
         return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From 94b9980cb4a2be64d47c528e5b862298da6e928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 46/55] fix: a one-digit number with a fraction after a year
 was read as a day of the year ("1999 2.9")

---
 src/parse.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4cdf87b..24257fd 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -724,8 +724,13 @@ fn decode_number(
         None => {}
     };
 
-    // Special case for day of year
-    if str.len() == 3 && (f_mask & DTK_DATE_M) == TokenType::YEAR.mask() && val >= 1 && val <= 366 {
+    // Special case for day of year, three digits and nothing else.
+    if s.is_empty()
+        && str.len() == 3
+        && (f_mask & DTK_DATE_M) == TokenType::YEAR.mask()
+        && val >= 1
+        && val <= 366
+    {
         *t_mask = TokenType::DOY.mask() | TokenType::MONTH.mask() | TokenType::DAY.mask();
         tm.yday = val;
         // tm_mon and tm_mday can't actually be set yet.
-- 
2.43.0


From 2110ef561e15f651c4c14b31ca748056ce95fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 47/55] fix: a fraction on a year, month or day was dropped or
 added to the time ("1999 10 12.22:37:26")

---
 src/parse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 24257fd..189a133 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1618,6 +1618,13 @@ impl DecodeDateTimeCtx {
                     &mut self.is2digits,
                 )?;
             }
+            // A year, month or day has no fraction.
+            else if count != str.len() && (self.f_mask & DTK_DATE_M) != DTK_DATE_M {
+                return Err(DateTimeError::invalid(format!(
+                    "date field: {:?} do not expect '.'",
+                    str
+                )));
+            }
             // otherwise it is a single date/time field.
             else {
                 decode_number(
-- 
2.43.0


From 8cda53ef7fd25c89fafde3ea18ea955a5124d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 48/55] fix: a field label without a value was ignored
 ("2022-03-04 doy", "12:00 m d 5")

---
 src/parse.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 189a133..a44971d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1761,6 +1761,13 @@ impl DecodeDateTimeCtx {
             }
             TokenType::UNITS => {
                 self.t_mask = 0;
+                // Prevent consecutive unhandled prefixes.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "prefix type: {:?} has no value",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
@@ -1890,6 +1897,14 @@ pub fn decode_date_time(
         ctx.f_mask |= ctx.t_mask;
     }
 
+    // A prefix must be followed by its value.
+    if ctx.p_type != TokenField::Number {
+        return Err(DateTimeError::invalid(format!(
+            "prefix type: {:?} has no value",
+            ctx.p_type
+        )));
+    }
+
     // "infinity" and the like stand alone: no date, time or era goes with them.
     if ctx.f_mask & TokenType::RESERV.mask() != 0 && ctx.f_mask != TokenType::RESERV.mask() {
         return Err(DateTimeError::invalid(format!(
@@ -2330,6 +2345,13 @@ impl DecodeTimeOnlyCtx {
             }
             TokenType::UNITS => {
                 self.t_mask = 0;
+                // Prevent consecutive unhandled prefixes.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "prefix type: {:?} has no value",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
@@ -2394,6 +2416,11 @@ pub fn decode_time_only(
                 ctx.decode_date_token(i, f_types, field, tm, tz, date_order)?;
             }
             TokenField::Time => {
+                // This might be an ISO time following a "t" field.
+                if ctx.p_type == TokenField::Time {
+                    ctx.p_type = TokenField::Number;
+                }
+
                 decode_time(
                     field,
                     ctx.f_mask | DTK_DATE_M,
@@ -2432,6 +2459,14 @@ pub fn decode_time_only(
         ctx.f_mask |= ctx.t_mask;
     }
 
+    // A prefix must be followed by its value.
+    if ctx.p_type != TokenField::Number {
+        return Err(DateTimeError::invalid(format!(
+            "prefix type: {:?} has no value",
+            ctx.p_type
+        )));
+    }
+
     // do final checking/adjustment of Y/M/D fields.
     tm.validate_date(ctx.f_mask, ctx.is_julian, ctx.is2digits, ctx.bc)?;
     // handle AM/PM.
-- 
2.43.0


From 4e04144da837eeb1cc84836aff589fc5cd6782a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 49/55] fix: Time ignored part of a date beside the clock
 ("12:00 y 5")

---
 src/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index a44971d..2b618e2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2502,6 +2502,15 @@ pub fn decode_time_only(
         )));
     }
 
+    // A part of a date is not enough beside the time of day.
+    let date_mask = ctx.f_mask & DTK_DATE_M;
+    if date_mask != 0 && date_mask != DTK_DATE_M {
+        return Err(DateTimeError::invalid(format!(
+            "date type's field mask: {:x} is invalid",
+            ctx.f_mask
+        )));
+    }
+
     // To do for time zone
     Ok(ctx.f_sec)
 }
-- 
2.43.0


From 3f9feaf8e0ae6f57a2421ab8fa62d0670def17a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:33 +0000
Subject: [PATCH 50/55] fix: a unit without a value was ignored in an interval
 ("1 day hours", "ms 1 day")

---
 src/parse.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 2b618e2..ff136e2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2816,6 +2816,8 @@ pub fn decode_interval(
     interval_style: IntervalStyle,
 ) -> Result<(), DateTimeError> {
     let mut is_before = false;
+    // a unit was read, but not yet its value.
+    let mut unit_pending = false;
     let mut f_mask = 0;
     let mut t_mask = 0;
     *d_type = TokenField::Delta;
@@ -2900,6 +2902,14 @@ pub fn decode_interval(
                 t_mask = 0; // DTK_M(type)
                 match token_ty {
                     TokenType::UNITS => {
+                        // Prevent consecutive units, one of them has no value.
+                        if unit_pending {
+                            return Err(DateTimeError::invalid(format!(
+                                "the unit before {:?} has no value",
+                                field
+                            )));
+                        }
+                        unit_pending = true;
                         ty = val;
                     }
                     TokenType::AGO => {
@@ -2928,6 +2938,16 @@ pub fn decode_interval(
 
         check_mask_set(f_mask, t_mask)?;
         f_mask |= t_mask;
+        if !matches!(f_type, TokenField::String | TokenField::Special) {
+            unit_pending = false;
+        }
+    }
+
+    // a unit needs a value.
+    if unit_pending {
+        return Err(DateTimeError::invalid(
+            "a unit of the interval has no value".to_string(),
+        ));
     }
 
     // ensure that at least one time field has been found.
-- 
2.43.0


From b0fbe352c49ce4ab123cdd8375f52f20fb3a4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:48 +0000
Subject: [PATCH 51/55] fix: a number without digits was read as zero in an
 interval (".", "P-Y", "PT.S")

---
 src/parse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index ff136e2..cb00613 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -191,6 +191,11 @@ fn parse_date_time_for_dot_begin<'a, 'b, 'c>(
     let mut buf_pos = copy_field(current_buf, 0, &s[..1])?;
     let s = &s[1..];
     let (field_str, s) = eat_digits(s);
+    if field_str.is_empty() {
+        return Err(DateTimeError::invalid(
+            "date time expect digit after '.'".to_string(),
+        ));
+    }
     buf_pos = copy_field(current_buf, buf_pos, field_str)?;
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf] = filed;
@@ -3056,7 +3061,8 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     }
 
     let (val, end) = str2d(s)?;
-    if end.len() == s.len() {
+    // a sign or a point without any digit is not a number.
+    if !s[..s.len() - end.len()].iter().any(|i| i.is_ascii_digit()) {
         return Err(DateTimeError::invalid(format!("str: {:?} is not digit", s)));
     }
     // watch out for overflow */
-- 
2.43.0


From 899fde7039548d89497c2d34a66762662cb51031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 52/55] fix: signs inside a clock or a year-month literal of an
 interval were accepted ("+1:-:3", "1--")

---
 src/parse.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index cb00613..6600673 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -995,6 +995,13 @@ fn decode_time(
     f_sec: &mut i64,
 ) -> Result<(), DateTimeError> {
     *t_mask = DTK_TIME_M;
+    // the sign of a time belongs to the whole of it, and was read before.
+    if field.iter().any(|&i| i == b'-' || i == b'+') {
+        return Err(DateTimeError::invalid(format!(
+            "field: {:?} has a sign within the time",
+            field
+        )));
+    }
     let (v, s) = str2i32(field)?;
     tm.hour = v;
     match s.first() {
@@ -2621,6 +2628,12 @@ fn decode_interval_number_field(
     match s.first() {
         Some(b'-') => {
             // SQL "years-months" syntax.
+            if let Some(b'-') = s.get(1) {
+                return Err(DateTimeError::invalid(format!(
+                    "the months of field: {:?} have a sign",
+                    field
+                )));
+            }
 
             let (mut val2, s) = str2i32(&s[1..])?;
             if val2 < 0 || val2 >= MONTHS_PER_YEAR {
-- 
2.43.0


From fd408269d8b734854e11f9d4ac9ac305ffbd4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 53/55] fix: a fraction of many hours lost its low digits in
 the ISO 8601 alternative format ("PT7651555.8")

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6600673..306e530 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -3328,7 +3328,8 @@ pub fn decode_iso8601_interval(
         };
         if !unit.is_ascii_alphabetic() || unit == b'T' {
             check_iso8601_unsigned(field_start)?;
-        } else {
+        }
+        if unit.is_ascii_alphabetic() && unit != b'T' || !datepart {
             let (int, frac) = iso8601_number_parts(field_start)?;
             val = int;
             fval = frac;
-- 
2.43.0


From 3ff424b3c415d3b0404247e0ab36466791d80644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 54/55] fix: a label without a number was ignored before "t" or
 a clock ("2022-03-04 y t 04:05", "y 12:00 2022 m 3 d 4")

---
 src/parse.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 306e530..b03c1b0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1788,6 +1788,14 @@ impl DecodeDateTimeCtx {
                 // field is time. Try to verify that this is sensible.
                 self.t_mask = 0;
 
+                // Prevent consecutive unhandled prefixes.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "prefix type: {:?} has no value",
+                        self.p_type
+                    )));
+                }
+
                 // No preceding date? Then quit.
                 if (self.f_mask & DTK_DATE_M) != DTK_DATE_M {
                     return Err(DateTimeError::invalid(format!(
@@ -2370,6 +2378,14 @@ impl DecodeTimeOnlyCtx {
             TokenType::ISOTIME => {
                 self.t_mask = 0;
 
+                // Prevent consecutive unhandled prefixes.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "prefix type: {:?} has no value",
+                        self.p_type
+                    )));
+                }
+
                 // We will need one of the following fields:
                 //	DTK_NUMBER should be hhmmss.fff
                 //	DTK_TIME should be hh:mm:ss.fff
@@ -2429,7 +2445,14 @@ pub fn decode_time_only(
             }
             TokenField::Time => {
                 // This might be an ISO time following a "t" field.
-                if ctx.p_type == TokenField::Time {
+                if ctx.p_type != TokenField::Number {
+                    // Sanity check; should not fail this test.
+                    if ctx.p_type != TokenField::Time {
+                        return Err(DateTimeError::invalid(format!(
+                            "prefix type: {:?} is not time",
+                            ctx.p_type
+                        )));
+                    }
                     ctx.p_type = TokenField::Number;
                 }
 
-- 
2.43.0


From 041b4ab8b1ccfbacb5d323b4162636e4fe14c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:05 +0000
Subject: [PATCH 55/55] fix: AM or PM without a time of day made a time of day
 ("2022-03-04 pm" was read as noon)

---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index b03c1b0..3fcc595 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1935,6 +1935,12 @@ pub fn decode_date_time(
 
     // do final checking/adjustment of Y/M/D fields.
     tm.validate_date(ctx.f_mask, ctx.is_julian, ctx.is2digits, ctx.bc)?;
+    // AM or PM needs an hour.
+    if ctx.mer != HR24 && ctx.f_mask & TokenType::HOUR.mask() == 0 {
+        return Err(DateTimeError::invalid(
+            "AM or PM without an hour".to_string(),
+        ));
+    }
     // handle AM/PM.
     if ctx.mer != HR24 && tm.hour > HOURS_PER_DAY / 2 {
         return Err(DateTimeError::overflow());
-- 
2.43.0

