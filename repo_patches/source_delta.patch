From 31424c2ab1dcf88396bb38fe70b7c94f9dc76361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 01/33] fix: refuse a date/time string that ends in a bare sign

The field type of such a field was never set, so decoding went on to read
an uninitialised value.
---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 51d46c8..ab73341 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -271,7 +271,11 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 )));
             }
         }
-        None => s,
+        None => {
+            return Err(DateTimeError::invalid(
+                "date time expect digit or alpha after sign, but it is the end".to_string(),
+            ));
+        }
     };
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
-- 
2.43.0


From 979cc7754bc5d49abf5af452634d8e79207d2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 02/33] fix: intervals of more than i32::MAX minutes overflow
 when parsed

The hours were converted to minutes in 32 bits, and the total to
microseconds without a check.
---
 src/interval.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 44f45dc..0c210ec 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -397,8 +397,14 @@ impl Interval {
 
         let month = total_months as i32;
         let day = tm.mday;
-        let time =
-            (((((tm.hour * 60) + tm.min) as i64 * 60) + tm.sec as i64) * USECS_PER_SEC) + fsec;
+        let secs = ((tm.hour as i64 * 60) + tm.min as i64) * 60 + tm.sec as i64;
+        let time = match secs
+            .checked_mul(USECS_PER_SEC)
+            .and_then(|usecs| usecs.checked_add(fsec))
+        {
+            Some(t) => t,
+            None => return Err(DateTimeError::overflow()),
+        };
         Ok(Self::from_mdt(month, day, time))
     }
 
-- 
2.43.0


From aa2a8830e8d2302a8b89a270aeb354bdc94cd78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 03/33] fix: formatting an interval whose days or hours are
 i32::MIN overflows

---
 src/common.rs   | 17 +++++++++++++++++
 src/interval.rs | 28 ++++++++++++++++------------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 7e658e9..146e5b3 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -710,6 +710,23 @@ pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
     end
 }
 
+/// Converts an unsigned 32-bit integer to its decimal text,
+/// for magnitudes that `i32` cannot hold.
+pub fn pg_ultostr(s: &mut [u8], value: u32) -> usize {
+    let mut value = value;
+    let mut end = 0;
+    loop {
+        s[end] = b'0' + (value % 10) as u8;
+        end += 1;
+        value /= 10;
+        if value == 0 {
+            break;
+        }
+    }
+    s[..end].reverse();
+    end
+}
+
 /// Converts 'value' into a decimal string representation stored at 'str'.
 /// 'minwidth' specifies the minimum width of the result; any extra space
 ///  is filled up by prefixing the number with zeros.
diff --git a/src/interval.rs b/src/interval.rs
index 0c210ec..496490a 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -634,8 +634,8 @@ fn format_interval(
 ) -> Result<usize, DateTimeError> {
     let mut year = tm.year;
     let mut mon = tm.mon;
-    let mut mday = tm.mday;
-    let mut hour = tm.hour;
+    let mday = tm.mday;
+    let hour = tm.hour;
     let mut min = tm.min;
     let mut sec = tm.sec;
     let mut is_before = false;
@@ -664,8 +664,6 @@ fn format_interval(
                 offset = set_one_byte(s, offset, b'-');
                 year = -year;
                 mon = -mon;
-                mday = -mday;
-                hour = -hour;
                 min = -min;
                 sec = -sec;
                 fsec = -fsec;
@@ -692,10 +690,10 @@ fn format_interval(
                 offset += pg_ltostr(&mut s[offset..], mon.abs());
                 offset = set_one_byte(s, offset, b' ');
                 offset = set_one_byte(s, offset, day_sign);
-                offset += pg_ltostr(&mut s[offset..], mday.abs());
+                offset += pg_ultostr(&mut s[offset..], mday.unsigned_abs());
                 offset = set_one_byte(s, offset, b' ');
                 offset = set_one_byte(s, offset, sec_sign);
-                offset += pg_ltostr(&mut s[offset..], hour.abs());
+                offset += pg_ultostr(&mut s[offset..], hour.unsigned_abs());
                 offset = set_one_byte(s, offset, b':');
 
                 offset += pg_ltostr_zeropad(&mut s[offset..], min.abs(), 2);
@@ -714,9 +712,9 @@ fn format_interval(
                 offset += pg_ltostr(&mut s[offset..], mon);
                 Ok(offset)
             } else if has_day {
-                offset += pg_ltostr(&mut s[offset..], mday);
+                offset += pg_ultostr(&mut s[offset..], mday.unsigned_abs());
                 offset = set_one_byte(s, offset, b' ');
-                offset += pg_ltostr(&mut s[offset..], hour);
+                offset += pg_ultostr(&mut s[offset..], hour.unsigned_abs());
                 offset = set_one_byte(s, offset, b':');
                 offset += pg_ltostr_zeropad(&mut s[offset..], min, 2);
                 offset = set_one_byte(s, offset, b':');
@@ -729,7 +727,7 @@ fn format_interval(
                 );
                 Ok(offset)
             } else {
-                offset += pg_ltostr(&mut s[offset..], hour);
+                offset += pg_ultostr(&mut s[offset..], hour.unsigned_abs());
                 offset = set_one_byte(s, offset, b':');
                 offset += pg_ltostr_zeropad(&mut s[offset..], min, 2);
                 offset = set_one_byte(s, offset, b':');
@@ -810,7 +808,10 @@ fn format_interval(
                     offset = set_one_byte(s, offset, b'+');
                 }
 
-                offset += pg_ltostr_zeropad(&mut s[offset..], hour.abs(), 2);
+                if hour.unsigned_abs() < 10 {
+                    offset = set_one_byte(s, offset, b'0');
+                }
+                offset += pg_ultostr(&mut s[offset..], hour.unsigned_abs());
                 offset = set_one_byte(s, offset, b':');
                 offset += pg_ltostr_zeropad(&mut s[offset..], min.abs(), 2);
                 offset = set_one_byte(s, offset, b':');
@@ -954,9 +955,12 @@ fn add_verbose_int_part(
     // first nonzero value sets is_before.
     if *is_zero {
         *is_before = value < 0;
-        offset += pg_ltostr(&mut s[offset..], value.abs());
+        offset += pg_ultostr(&mut s[offset..], value.unsigned_abs());
     } else if *is_before {
-        offset += pg_ltostr(&mut s[offset..], -value);
+        if value > 0 {
+            offset = set_one_byte(s, offset, b'-');
+        }
+        offset += pg_ultostr(&mut s[offset..], value.unsigned_abs());
     } else {
         offset += pg_ltostr(&mut s[offset..], value);
     };
-- 
2.43.0


From 8c26699b1bb16e5976027536310e80dfffbdfb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 04/33] fix: read dates, times and timestamps stored as
 integers of another width

Self-describing binary formats (CBOR, MessagePack) hand integers over in
the width they were stored in, so what Serialize wrote could not be read
back.
---
 src/serde.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 880a96d..6b3fb67 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -15,9 +15,10 @@
 //! Impl the `serde::Serialize` and `serde::Deserialize` traits.
 
 use crate::{Date, DateOrder, DateStyle, Interval, IntervalStyle, Time, Timestamp};
-use serde::de::{MapAccess, SeqAccess, Visitor};
+use serde::de::{MapAccess, SeqAccess, Unexpected, Visitor};
 use serde::ser::SerializeStruct;
 use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
+use std::convert::TryFrom;
 use std::fmt;
 
 impl Serialize for Date {
@@ -61,6 +62,28 @@ impl<'de> Deserialize<'de> for Date {
                 Ok(Date::new(v))
             }
 
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                match i32::try_from(v) {
+                    Ok(v) => self.visit_i32(v),
+                    Err(_) => Err(E::invalid_value(Unexpected::Signed(v), &self)),
+                }
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                match i32::try_from(v) {
+                    Ok(v) => self.visit_i32(v),
+                    Err(_) => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
+                }
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -117,6 +140,17 @@ impl<'de> Deserialize<'de> for Time {
                 Ok(Time::from(v))
             }
 
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                match i64::try_from(v) {
+                    Ok(v) => self.visit_i64(v),
+                    Err(_) => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
+                }
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -175,6 +209,17 @@ impl<'de> Deserialize<'de> for Timestamp {
                 Ok(Timestamp::new(v))
             }
 
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                match i64::try_from(v) {
+                    Ok(v) => self.visit_i64(v),
+                    Err(_) => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
+                }
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
-- 
2.43.0


From ad4bbb54bed08df6b8b1df37ff9c29ed585115b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 05/33] fix: refuse dates, times and timestamps out of range
 when deserializing

The binary forms of damaged or foreign data were taken over unchecked,
giving values the rest of the crate cannot format or compute with.
---
 src/date.rs  |  2 +-
 src/serde.rs | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index 22f81d0..259d8cc 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -106,7 +106,7 @@ impl Date {
     }
 
     #[inline]
-    fn is_valid(self) -> bool {
+    pub(crate) fn is_valid(self) -> bool {
         is_valid_date(self.0)
     }
 
diff --git a/src/serde.rs b/src/serde.rs
index 6b3fb67..a410843 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -14,6 +14,7 @@
 
 //! Impl the `serde::Serialize` and `serde::Deserialize` traits.
 
+use crate::common::USECS_PER_DAY;
 use crate::{Date, DateOrder, DateStyle, Interval, IntervalStyle, Time, Timestamp};
 use serde::de::{MapAccess, SeqAccess, Unexpected, Visitor};
 use serde::ser::SerializeStruct;
@@ -59,7 +60,12 @@ impl<'de> Deserialize<'de> for Date {
             where
                 E: de::Error,
             {
-                Ok(Date::new(v))
+                let date = Date::new(v);
+                if date.is_valid() || date.is_begin() || date.is_end() {
+                    Ok(date)
+                } else {
+                    Err(E::invalid_value(Unexpected::Signed(v.into()), &self))
+                }
             }
 
             #[inline]
@@ -137,7 +143,11 @@ impl<'de> Deserialize<'de> for Time {
             where
                 E: de::Error,
             {
-                Ok(Time::from(v))
+                if v >= 0 && v <= USECS_PER_DAY {
+                    Ok(Time::from(v))
+                } else {
+                    Err(E::invalid_value(Unexpected::Signed(v), &self))
+                }
             }
 
             #[inline]
@@ -206,7 +216,12 @@ impl<'de> Deserialize<'de> for Timestamp {
             where
                 E: de::Error,
             {
-                Ok(Timestamp::new(v))
+                let timestamp = Timestamp::new(v);
+                if timestamp.is_valid() || timestamp.is_begin() || timestamp.is_end() {
+                    Ok(timestamp)
+                } else {
+                    Err(E::invalid_value(Unexpected::Signed(v), &self))
+                }
             }
 
             #[inline]
-- 
2.43.0


From 143ddbf4d8e878c60a323ad824b83f4a57d892db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 06/33] fix: refuse a date/time string longer than the parser's
 workspace instead of panicking

---
 src/parse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index ab73341..2af0f19 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -325,6 +325,18 @@ where
         ));
     }
 
+    // Only these characters are copied to the workspace, each at most once.
+    let copied = time_str
+        .iter()
+        .filter(|&&c| c.is_ascii_alphanumeric() || b"+-/_.:".contains(&c))
+        .count();
+    if copied > worker_buf.len() {
+        return Err(DateTimeError::invalid(format!(
+            "date time string is too long: {:?}",
+            time_str
+        )));
+    }
+
     let mut current_str = time_str;
     let mut current_buf = worker_buf;
 
-- 
2.43.0


From d651d1fb90f2c4ebe5e5a8d8999d6802473dc939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 07/33] fix: interval fields that overflow while being decoded

Fields were summed, scaled and negated unchecked: a panic with overflow
checks on, a silently wrong interval otherwise.
---
 src/parse.rs | 105 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 62 insertions(+), 43 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 2af0f19..66c64dc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2479,6 +2479,25 @@ fn adjust_fract_days(
     Ok(())
 }
 
+/// Adds `val * scale` to a field of an interval, watching for overflow.
+#[inline]
+fn add_scaled(field: &mut i32, val: i32, scale: i32) -> Result<(), DateTimeError> {
+    let sum = val.checked_mul(scale).and_then(|v| field.checked_add(v));
+    match sum {
+        Some(v) => {
+            *field = v;
+            Ok(())
+        }
+        None => Err(DateTimeError::overflow()),
+    }
+}
+
+/// Negates a field of an interval, watching for overflow.
+#[inline]
+fn negate(field: i32) -> Result<i32, DateTimeError> {
+    field.checked_neg().ok_or_else(DateTimeError::overflow)
+}
+
 fn decode_interval_number_field(
     field: &[u8],
     tm: &mut PgTime,
@@ -2569,14 +2588,14 @@ fn decode_interval_number_field(
         }
         TokenField::Millisec => {
             // avoid overflowing the fsec field.
-            tm.sec += val / 1000;
+            add_scaled(&mut tm.sec, val / 1000, 1)?;
             val -= (val / 1000) * 1000;
             *f_sec += ((val as f64 + *f_val) * 1000_f64).round() as i64;
             *t_mask = TokenType::MILLISECOND.mask();
         }
 
         TokenField::Second => {
-            tm.sec += val;
+            add_scaled(&mut tm.sec, val, 1)?;
             *f_sec += (*f_val * 1_000_000_f64).round() as i64;
 
             // If any subseconds were specified, consider this
@@ -2589,64 +2608,64 @@ fn decode_interval_number_field(
         }
 
         TokenField::Minute => {
-            tm.min += val;
+            add_scaled(&mut tm.min, val, 1)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_MINUTE)?;
             *t_mask = TokenType::MINUTE.mask();
         }
 
         TokenField::Hour => {
-            tm.hour += val;
+            add_scaled(&mut tm.hour, val, 1)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;
             *t_mask = TokenType::HOUR.mask();
             *ty = TokenField::Day.value(); /* set for next field */
         }
 
         TokenField::Day => {
-            tm.mday += val;
+            add_scaled(&mut tm.mday, val, 1)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_DAY)?;
             *t_mask = TokenType::DAY.mask();
         }
 
         TokenField::Week => {
-            tm.mday += val * 7;
+            add_scaled(&mut tm.mday, val, 7)?;
             adjust_fract_days(*f_val, tm, f_sec, 7)?;
             *t_mask = TokenType::WEEK.mask();
         }
 
         TokenField::Month => {
-            tm.mon += val;
+            add_scaled(&mut tm.mon, val, 1)?;
             adjust_fract_days(*f_val, tm, f_sec, DAYS_PER_MONTH)?;
             *t_mask = TokenType::MONTH.mask();
         }
 
         TokenField::Year => {
-            tm.year += val;
+            add_scaled(&mut tm.year, val, 1)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64) as i32;
+                add_scaled(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64) as i32, 1)?;
             }
             *t_mask = TokenType::YEAR.mask();
         }
 
         TokenField::Decade => {
-            tm.year += val * 10;
+            add_scaled(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                add_scaled(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32, 1)?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
 
         TokenField::Century => {
-            tm.year += val * 100;
+            add_scaled(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                add_scaled(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32, 1)?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
 
         TokenField::Millennium => {
-            tm.year += val * 1000;
+            add_scaled(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                add_scaled(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32, 1)?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
@@ -2833,7 +2852,7 @@ pub fn decode_interval(
     if *f_sec != 0 {
         let sec = *f_sec / USECS_PER_SEC;
         *f_sec -= sec * USECS_PER_SEC;
-        tm.sec += sec as i32;
+        add_scaled(&mut tm.sec, sec as i32, 1)?;
     }
 
     // The SQL standard defines the interval literal
@@ -2890,12 +2909,12 @@ pub fn decode_interval(
     // finally, AGO negates everything.
     if is_before {
         *f_sec = -(*f_sec);
-        tm.sec = -tm.sec;
-        tm.min = -tm.min;
-        tm.hour = -tm.hour;
-        tm.mday = -tm.mday;
-        tm.mon = -tm.mon;
-        tm.year = -tm.year;
+        tm.sec = negate(tm.sec)?;
+        tm.min = negate(tm.min)?;
+        tm.hour = negate(tm.hour)?;
+        tm.mday = negate(tm.mday)?;
+        tm.mon = negate(tm.mon)?;
+        tm.year = negate(tm.year)?;
     }
 
     Ok(())
@@ -2979,8 +2998,8 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     let mut s = s;
 
-    tm.year += *val;
-    tm.mon += (*fval * MONTHS_PER_YEAR as f64) as i32;
+    add_scaled(&mut tm.year, *val, 1)?;
+    add_scaled(&mut tm.mon, (*fval * MONTHS_PER_YEAR as f64) as i32, 1)?;
     if unit == b'\0' {
         return Ok((true, s));
     }
@@ -2991,7 +3010,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mon += *val;
+    add_scaled(&mut tm.mon, *val, 1)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
         None => return Ok((true, s)),
@@ -3012,7 +3031,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mday += *val;
+    add_scaled(&mut tm.mday, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
         None => Ok((true, s)),
@@ -3045,14 +3064,14 @@ fn decode_time_part_left(
         return Err(DateTimeError::invalid("have field is set".to_string()));
     }
 
-    tm.hour += *val;
+    add_scaled(&mut tm.hour, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_HOUR)?;
     if unit == b'\0' {
         return Ok(());
     }
 
     let mut s = parse_iso8601_number(s, val, fval)?;
-    tm.min += *val;
+    add_scaled(&mut tm.min, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
         None => return Ok(()),
@@ -3067,7 +3086,7 @@ fn decode_time_part_left(
     }
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.sec += *val;
+    add_scaled(&mut tm.sec, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
         None => Ok(()),
@@ -3140,19 +3159,19 @@ pub fn decode_iso8601_interval(
             match unit        // before T: Y M W D.
             {
                 b'Y' => {
-                    tm.year += val;
-                    tm.mon += (fval * MONTHS_PER_YEAR as f64) as i32;
+                    add_scaled(&mut tm.year, val, 1)?;
+                    add_scaled(&mut tm.mon, (fval * MONTHS_PER_YEAR as f64) as i32, 1)?;
                 }
                 b'M' => {
-                    tm.mon += val;
+                    add_scaled(&mut tm.mon, val, 1)?;
                     adjust_fract_days(fval, tm, fsec, DAYS_PER_MONTH)?;
                 }
                 b'W' => {
-                    tm.mday += val * 7;
+                    add_scaled(&mut tm.mday, val, 7)?;
                     adjust_fract_days(fval, tm, fsec, 7)?;
                 }
                 b'D' => {
-                    tm.mday += val;
+                    add_scaled(&mut tm.mday, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                 }
                 b'T' | b'\0' => {
@@ -3160,9 +3179,9 @@ pub fn decode_iso8601_interval(
                     let width = iso8601_integer_width(field_start);
                     if width == 8 && !havefield
                     {
-                        tm.year += val / 10000;
-                        tm.mon += (val / 100) % 100;
-                        tm.mday += val % 100;
+                        add_scaled(&mut tm.year, val / 10000, 1)?;
+                        add_scaled(&mut tm.mon, (val / 100) % 100, 1)?;
+                        add_scaled(&mut tm.mday, val % 100, 1)?;
                         adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                         if unit == b'\0' {
                             return Ok(());
@@ -3204,24 +3223,24 @@ pub fn decode_iso8601_interval(
             match unit        /* after T: H M S */
             {
                 b'H' => {
-                    tm.hour += val;
+                    add_scaled(&mut tm.hour, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_HOUR)?;
                 }
                 b'M' => {
-                    tm.min += val;
+                    add_scaled(&mut tm.min, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_MINUTE)?;
                 }
                 b'S' => {
-                    tm.sec += val;
+                    add_scaled(&mut tm.sec, val, 1)?;
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
                 b'\0' => { // ISO 8601 4.4.3.3 Alternative Format
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
                     {
-                        tm.hour += val / 10000;
-                        tm.min += (val / 100) % 100;
-                        tm.sec += val % 100;
+                        add_scaled(&mut tm.hour, val / 10000, 1)?;
+                        add_scaled(&mut tm.min, (val / 100) % 100, 1)?;
+                        add_scaled(&mut tm.sec, val % 100, 1)?;
                         adjust_fract_seconds(fval, tm, fsec, 1)?;
                         return Ok(());
                     }
-- 
2.43.0


From cc6f6bf1d91365731409306d11700462c67d6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 08/33] fix: refuse a date that ends in the ISO time marker
 instead of panicking

---
 src/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 66c64dc..864afb5 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1779,8 +1779,7 @@ impl DecodeDateTimeCtx {
                 {
                     return Err(DateTimeError::invalid(format!(
                         "the {:?} field's type: {:?} is unexpected",
-                        field_id,
-                        ftypes[field_id + 1]
+                        field_id, ftypes[field_id]
                     )));
                 }
                 self.p_type = TokenField::try_from(val)?;
-- 
2.43.0


From 91e2755148a4978a3562e0d14951734582070474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 09/33] fix: days of the year in years outside the Julian range
 overflow when parsed

---
 src/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 146e5b3..1584bf0 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -69,7 +69,7 @@ pub fn date2julian(y: i32, m: i32, d: i32) -> i32 {
 /// Converts julian to date.
 #[inline]
 pub fn julian2date(jd: i32) -> (i32, i32, i32) {
-    let mut julian = jd as u32 + 32044;
+    let mut julian = (jd as u32).wrapping_add(32044);
     let mut quad = julian / 146_097;
     let extra = (julian - quad * 146_097) * 4 + 3;
     julian += 60 + quad * 3 + extra / 146_097;
@@ -320,6 +320,10 @@ impl PgTime {
 
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
+            // Prevent overflow in Julian-day routines.
+            if self.year < JULIAN_MIN_YEAR || self.year >= JULIAN_MAX_YEAR {
+                return Err(DateTimeError::overflow());
+            }
             let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
             self.set_ymd(y, m, d);
         }
-- 
2.43.0


From 2d084fe0225e3ce614bcc631a420f951ed67459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 10/33] fix: refuse to format an interval whose hours cannot be
 read back

A magnitude of 2147483648 hours was written but is too large to parse.
---
 src/interval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interval.rs b/src/interval.rs
index 496490a..21ab281 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -600,6 +600,10 @@ impl Interval {
         let mut fsec = 0;
 
         self.to_pgtime(&mut tm, &mut fsec)?;
+        // Hours are written and read as a sign and an i32 magnitude.
+        if tm.hour == std::i32::MIN {
+            return Err(DateTimeError::overflow());
+        }
         let len = format_interval(buf.as_mut_slice(), &tm, fsec, interval_format)?;
         unsafe {
             buf.set_len(len);
-- 
2.43.0


From 90cc7b820747415514d39f87bd9cf201eed0fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 11/33] fix: refuse times past 24:00:00 such as 23:59:60.5 when
 parsing

---
 src/time.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index b6ed431..095f1da 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -125,8 +125,12 @@ impl Time {
             date_order,
         )?;
 
-        let time = Time::from_pgtime(&tm, fsec).adjust_by_typmod(type_mod);
-        Ok(time)
+        let time = Time::from_pgtime(&tm, fsec);
+        // The fields are in range one by one, but 60 seconds may carry past 24:00:00.
+        if time.value() > USECS_PER_DAY {
+            return Err(DateTimeError::overflow());
+        }
+        Ok(time.adjust_by_typmod(type_mod))
     }
 
     /// Converts `Time` to string.
-- 
2.43.0


From d2b6a1a7f783c465c9adea2363b038787ed50902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 12/33] fix: timestamps given with a huge number of hours
 overflow when parsed

---
 src/common.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 1584bf0..1e7f0f0 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -392,9 +392,8 @@ impl PgTime {
 
 #[inline]
 fn time2t(hour: i32, min: i32, sec: i32, fsec: i64) -> i64 {
-    (((((hour * MINS_PER_HOUR) + min) * SECS_PER_MINUTE) as i64 + sec as i64)
-        * USECS_PER_SEC as i64)
-        + fsec
+    let mins = hour as i64 * MINS_PER_HOUR as i64 + min as i64;
+    (mins * SECS_PER_MINUTE as i64 + sec as i64) * USECS_PER_SEC as i64 + fsec
 }
 
 #[inline]
-- 
2.43.0


From e49129438d5e84d4626ba90e4c05fe08311acec6 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 13/33] fix: the month abbreviation "feb", which formatting
 writes, is refused when parsed

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 532bb64..e1f6bcf 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -335,7 +335,7 @@ const DATE_TOKEN_TABLE: [DateToken; 280] = [
     DateToken::new(b"egt", TZ, -3600),     // East Greenland Time
     DateToken::new(EPOCH, RESERV, Epoch.value()), // "epoch" reserved for system epoch time
     DateToken::new(b"est", TZ, -18000),    // Eastern Standard Time
-    DateToken::new(b"fe", MONTH, 2),
+    DateToken::new(b"feb", MONTH, 2),
     DateToken::new(b"february", MONTH, 2),
     DateToken::new(b"fjst", DTZ, -46800), // Fiji Summer Time (13 hour offset!)
     DateToken::new(b"fjt", TZ, -43200),   // Fiji Time
-- 
2.43.0


From f6c25c1ac724f5c43d50c22b39ce8a1da6b7bffc Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 14/33] fix: dates in Postgres style and DMY order are written
 with mixed separators and cannot be read back

---
 src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 259d8cc..51cbd6e 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -343,7 +343,7 @@ fn format_date(
             // traditional date-only style for Postgres.
             if date_order == DateOrder::DMY {
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
-                offset = set_one_byte(s, offset, b'-');
+                offset = set_one_byte(s, offset, b'.');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
             } else {
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
-- 
2.43.0


From bf01f442f1768f849bb9cabc34aae26e6d201da1 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 15/33] fix: negative fields of ISO 8601 intervals, which
 formatting writes, are refused when parsed

---
 src/parse.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 864afb5..b44a88e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2926,17 +2926,22 @@ pub fn decode_interval(
 #[inline]
 fn parse_iso8601_number<'a, 'b, 'c>(
     s: &'a [u8],
+    allow_sign: bool,
     ipart: &'b mut i32,
     fpart: &'c mut f64,
 ) -> Result<&'a [u8], DateTimeError> {
-    match s.first() {
+    let digits = match s.first() {
+        Some(b'-') if allow_sign => &s[1..],
+        _ => s,
+    };
+    match digits.first() {
         None => {
             return Err(DateTimeError::invalid(
                 "str is empty for iso number".to_string(),
             ));
         }
         Some(c) => {
-            if !(c.is_ascii_digit() || c == &b'c' || c == &b'.') {
+            if !(c.is_ascii_digit() || c == &b'.') {
                 return Err(DateTimeError::invalid(format!(
                     "str: {:?} is invalid for iso number",
                     s
@@ -2957,7 +2962,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     if val >= 0.0 {
         *ipart = val.floor() as i32;
     } else {
-        *ipart = -val.floor() as i32;
+        *ipart = val.ceil() as i32;
     }
     *fpart = val - *ipart as f64;
     Ok(end)
@@ -3008,7 +3013,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
         return Ok((false, s));
     }
 
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_number(s, false, val, fval)?;
     add_scaled(&mut tm.mon, *val, 1)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
@@ -3029,7 +3034,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_number(s, false, val, fval)?;
     add_scaled(&mut tm.mday, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
@@ -3069,7 +3074,7 @@ fn decode_time_part_left(
         return Ok(());
     }
 
-    let mut s = parse_iso8601_number(s, val, fval)?;
+    let mut s = parse_iso8601_number(s, false, val, fval)?;
     add_scaled(&mut tm.min, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
@@ -3084,7 +3089,7 @@ fn decode_time_part_left(
         }
     }
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_number(s, false, val, fval)?;
     add_scaled(&mut tm.sec, *val, 1)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
@@ -3143,7 +3148,8 @@ pub fn decode_iso8601_interval(
         }
 
         let field_start = s;
-        s = parse_iso8601_number(s, &mut val, &mut fval)?;
+        let negative = s[0] == b'-';
+        s = parse_iso8601_number(s, true, &mut val, &mut fval)?;
 
         // Note: we could step off the end of the string here.  Code below
         //must* exit the loop if unit == '\0'.
@@ -3154,6 +3160,13 @@ pub fn decode_iso8601_interval(
         } else {
             b'\0'
         };
+        // Only numbers with a designator may have a sign.
+        if negative && (unit == b'T' || !unit.is_ascii_uppercase()) {
+            return Err(DateTimeError::invalid(format!(
+                "str: {:?} is invalid for iso number",
+                field_start
+            )));
+        }
         if datepart {
             match unit        // before T: Y M W D.
             {
-- 
2.43.0


From f37282e79fb492c104b5cac35db9e18cc51bdbc1 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 16/33] fix: truncating the last days of December to the week
 goes back two years

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 1e7f0f0..dc13302 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -147,7 +147,7 @@ impl PgTime {
             self.year -= 1;
         }
         if woy <= 1 && self.mon == MONTHS_PER_YEAR {
-            self.year -= 1;
+            self.year += 1;
         }
         iso_week_to_date(woy, self);
         self.hour = 0;
-- 
2.43.0


From 4ca893a01e9d8a6889e69e34103ab195ce132ac4 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 17/33] fix: intervals that compare as equal, such as 1 month
 and 30 days, are not equal and hash differently

---
 src/interval.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index 21ab281..85b9ae1 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,6 +20,7 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
+use std::hash::{Hash, Hasher};
 use std::mem::MaybeUninit;
 use std::ops::Add;
 
@@ -70,7 +71,7 @@ const fn interval_precision(t: i32) -> i32 {
 }
 
 /// Interval represents delta time.
-#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Debug, Eq)]
 #[repr(C)]
 pub struct Interval {
     /// All time units other than days, months and years.
@@ -1005,6 +1006,21 @@ impl Add<Interval> for Interval {
     }
 }
 
+// Equality and hashing follow the ordering: '1 mon' equals '30 days'.
+impl PartialEq for Interval {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other) == Ordering::Equal
+    }
+}
+
+impl Hash for Interval {
+    #[inline]
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        i128::from(*self).hash(state);
+    }
+}
+
 impl PartialOrd for Interval {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-- 
2.43.0


From ce36cef36f428c5e670793bb166a7646829b3572 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 18/33] fix: truncating an infinite timestamp or date gives a
 finite one

---
 src/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 0ed9903..5f2751a 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -874,6 +874,9 @@ impl DateTime for Timestamp {
     /// Truncates `Timestamp` to specified units.
     #[inline]
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
+        if self.is_infinite() {
+            return Ok(*self);
+        }
         match ty {
             FieldType::Unit => {
                 let mut tm = PgTime::new();
-- 
2.43.0


From 24f9fb3411526513219a5ebb4c94dbbcb3e9967b Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 19/33] fix: the age of infinite timestamps is finite

---
 src/timestamp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 5f2751a..9a626d8 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -382,6 +382,13 @@ impl Timestamp {
     /// is done.
     #[inline]
     pub fn age(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {
+        if self.is_infinite() || timestamp.is_infinite() {
+            return Err(DateTimeError::invalid(format!(
+                "age have infinite, left: {:?}, right: {:?}",
+                self, timestamp
+            )));
+        }
+
         let mut tm: PgTime = PgTime::new();
         let mut tm1: PgTime = PgTime::new();
         let mut tm2: PgTime = PgTime::new();
-- 
2.43.0


From 7d1c73a2e526459d2c9c37ddd8216e93dd159243 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 20/33] fix: ISO years before Christ are numbered with a year
 zero

---
 src/timestamp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 9a626d8..297c8ba 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -826,7 +826,15 @@ impl DateTime for Timestamp {
                         Ok(result)
                     }
 
-                    DateUnit::IsoYear => Ok(date_to_iso_year(tm.year, tm.mon, tm.mday) as f64),
+                    DateUnit::IsoYear => {
+                        let year = date_to_iso_year(tm.year, tm.mon, tm.mday);
+                        if year > 0 {
+                            Ok(year as f64)
+                        } else {
+                            // there is no year 0, just 1 BC and 1 AD.
+                            Ok((year - 1) as f64)
+                        }
+                    }
                     DateUnit::Dow | DateUnit::IsoDow => {
                         let mut tm = PgTime::new();
                         let mut fsec = 0;
-- 
2.43.0


From cee01c8849b8fb97bc17acf841722ab57078ce2e Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 21/33] fix: adding an interval to a timestamp wraps around
 into the valid range

---
 src/timestamp.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 297c8ba..df0b600 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -288,13 +288,19 @@ impl Timestamp {
                 let mut fsec = 0;
                 timestamp2time(timestamp, &None, &mut tm, &mut fsec, &mut None, &None)?;
                 // Add days by converting to and from Julian
-                let julian = date2julian(tm.year, tm.mon, tm.mday).wrapping_add(span.day());
-                let (y, m, d) = julian2date(julian);
+                let julian = date2julian(tm.year, tm.mon, tm.mday).checked_add(span.day());
+                let (y, m, d) = match julian {
+                    Some(j) if j >= 0 => julian2date(j),
+                    _ => return Err(DateTimeError::overflow()),
+                };
                 tm.set_ymd(y, m, d);
                 timestamp = tm.to_timestamp(fsec, None)?;
             }
 
-            timestamp = timestamp.wrapping_add(span.time());
+            timestamp = match timestamp.checked_add(span.time()) {
+                Some(t) => t,
+                None => return Err(DateTimeError::overflow()),
+            };
 
             if !is_valid_timestamp(timestamp) {
                 return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From a31136c6b220e89c40f118470bf25b2a292971dd Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 22/33] fix: the difference of timestamps far apart overflows

---
 src/timestamp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index df0b600..8f94c25 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -351,7 +351,10 @@ impl Timestamp {
             )));
         }
 
-        let time = self.value() - timestamp.value();
+        let time = match self.value().checked_sub(timestamp.value()) {
+            Some(t) => t,
+            None => return Err(DateTimeError::overflow()),
+        };
 
         //	This is wrong, but removing it breaks a lot of regression tests.
         // For example:
-- 
2.43.0


From 1f5a9e505e5d48a519dcb0dbd99b35a90e471d3d Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 23/33] fix: adding a very long interval to a time wraps around
 and gives another time of day

---
 src/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 095f1da..27d7975 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -151,7 +151,7 @@ impl Time {
     /// `Time` Adds `Interval`.
     #[inline]
     pub fn add_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_add(span.time());
+        let mut result = self.value().wrapping_add(span.time() % USECS_PER_DAY);
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
@@ -169,7 +169,7 @@ impl Time {
     /// `Time` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_sub(span.time());
+        let mut result = self.value().wrapping_sub(span.time() % USECS_PER_DAY);
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
-- 
2.43.0


From e0865ffde38729dc050f03f7c5116ffda39e8310 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 24/33] fix: converting an interval close to i64::MIN
 microseconds to a time overflows

---
 src/time.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 27d7975..3ef0ea4 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -266,15 +266,7 @@ impl TryFrom<Timestamp> for Option<Time> {
 impl From<Interval> for Time {
     #[inline]
     fn from(value: Interval) -> Self {
-        let mut result = value.time();
-        if result >= USECS_PER_DAY {
-            let days = result / USECS_PER_DAY;
-            result -= days * USECS_PER_DAY;
-        } else if result < 0 {
-            let days = (-result + USECS_PER_DAY - 1) / USECS_PER_DAY;
-            result += days * USECS_PER_DAY;
-        }
-        Time::from(result)
+        Time::from(value.time().rem_euclid(USECS_PER_DAY))
     }
 }
 
-- 
2.43.0


From 0e06395786b110734119efefc271c3ac8728d048 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 25/33] fix: a time with NaN seconds is accepted

---
 src/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time.rs b/src/time.rs
index 3ef0ea4..6bec298 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -55,6 +55,7 @@ impl Time {
         if h < 0
             || m < 0
             || m > MINS_PER_HOUR - 1
+            || s.is_nan()
             || s < 0.0
             || s > SECS_PER_MINUTE as f64
             || h > HOURS_PER_DAY
-- 
2.43.0


From dec8946b9141b95dc63d5eda647cd20262c62a43 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 26/33] fix: a date in year i32::MIN overflows instead of being
 refused

---
 src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 51cbd6e..666d548 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -75,7 +75,7 @@ impl Date {
         // Handle negative years as BC
         if tm.year < 0 {
             bc = true;
-            tm.year = -tm.year;
+            tm.year = tm.year.wrapping_neg();
         }
 
         tm.validate_date(DTK_DATE_M, false, false, bc)?;
-- 
2.43.0


From 2c31ab41e534f01a43a48ad84a5e3945611ebf6c Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 27/33] fix: rounding the last timestamps gives one out of
 range

---
 src/timestamp.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 8f94c25..f42cb57 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -231,17 +231,20 @@ impl Timestamp {
                 )));
             }
 
-            if self.value() >= 0 {
-                let v = ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
+            let v = if self.value() >= 0 {
+                ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
-                    * TIMESTAMP_SCALES[typmod as usize];
-                Ok(Timestamp::new(v))
+                    * TIMESTAMP_SCALES[typmod as usize]
             } else {
-                let v = -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
+                -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
-                    * TIMESTAMP_SCALES[typmod as usize]);
-                Ok(Timestamp::new(v))
+                    * TIMESTAMP_SCALES[typmod as usize])
+            };
+            // rounding up may reach the end of the range.
+            if !is_valid_timestamp(v) {
+                return Err(DateTimeError::overflow());
             }
+            Ok(Timestamp::new(v))
         } else {
             Ok(self)
         }
-- 
2.43.0


From 8b906efeeddbaa6e4fc9d41dd53b67c5a4e402f1 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 28/33] fix: dividing an interval overflows silently,
 multiplying one overflows in the days

---
 src/interval.rs | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 85b9ae1..e8b9c86 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -333,13 +333,17 @@ impl Interval {
         // Might have 24:00:00 hours due to rounding, or >24 hours because of time
         // cascade from months and days.  It might still be >24 if the combination
         // of cascade and the seconds factor operation itself.
+        let mut whole_days = month_remainder_days as i32;
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            whole_days += (sec_remainder / SECS_PER_DAY as f64) as i32;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
+        result.day = match result.day.checked_add(whole_days) {
+            Some(d) => d,
+            None => return Err(DateTimeError::overflow()),
+        };
         let result_time =
             (self.time as f64 * factor + sec_remainder * USECS_PER_SEC as f64).round();
         if result_time > std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
@@ -362,10 +366,23 @@ impl Interval {
                 self
             )));
         }
-        let month = (self.month as f64 / factor) as i32;
-        let day = (self.day as f64 / factor) as i32;
+        let result_month = self.month as f64 / factor;
+        if result_month.is_nan()
+            || result_month > std::i32::MAX as f64
+            || result_month < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
 
-        let mut result = Interval::from_mdt(month, day, 0);
+        let result_day = self.day as f64 / factor;
+        if result_day.is_nan()
+            || result_day > std::i32::MAX as f64
+            || result_day < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        let mut result = Interval::from_mdt(result_month as i32, result_day as i32, 0);
         // Fractional months full days into days.  See comment in interval_mul().
 
         let mut month_remainder_days =
@@ -376,15 +393,25 @@ impl Interval {
             - month_remainder_days as i32 as f64)
             * SECS_PER_DAY as f64;
         sec_remainder = timestamp_round(sec_remainder);
+        let mut whole_days = month_remainder_days as i32;
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            whole_days += (sec_remainder / SECS_PER_DAY as f64) as i32;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
-        result.time =
-            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round() as i64;
+        result.day = match result.day.checked_add(whole_days) {
+            Some(d) => d,
+            None => return Err(DateTimeError::overflow()),
+        };
+        let result_time =
+            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round();
+        if result_time > std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+            return Err(DateTimeError::overflow());
+        }
+
+        result.time = result_time as i64;
+
         Ok(result)
     }
 
-- 
2.43.0


From 96b6c64fa4f034cdd9504ed8f8547a356a569f94 Mon Sep 17 00:00:00 2001
From: sim <sim@localhost>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 29/33] fix: rounding the longest intervals to a precision
 overflows

---
 src/interval.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index e8b9c86..a7bc588 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -549,15 +549,18 @@ impl Interval {
                     return Err(DateTimeError::overflow());
                 }
 
-                if self.time >= 0 {
-                    self.time = ((self.time + INTERVAL_OFFSETS[precision as usize])
-                        / INTERVAL_SCALES[precision as usize])
-                        * INTERVAL_SCALES[precision as usize];
+                let offset = INTERVAL_OFFSETS[precision as usize];
+                let rounded = if self.time >= 0 {
+                    self.time.checked_add(offset)
                 } else {
-                    self.time = -(((-self.time + INTERVAL_OFFSETS[precision as usize])
-                        / INTERVAL_SCALES[precision as usize])
-                        * INTERVAL_SCALES[precision as usize]);
-                }
+                    self.time.checked_sub(offset)
+                };
+                let rounded = match rounded {
+                    Some(t) => t,
+                    None => return Err(DateTimeError::overflow()),
+                };
+                let scale = INTERVAL_SCALES[precision as usize];
+                self.time = (rounded / scale) * scale;
             }
         }
 
-- 
2.43.0


From dab12194724762a44963890123195f8c8ed45164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 30/33] fix: "1 days ago" in the verbose interval style

---
 src/interval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index a7bc588..a0943e5 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -1001,7 +1001,8 @@ fn add_verbose_int_part(
     };
     offset = set_one_byte(s, offset, b' ');
     offset = copy_slice(s, offset, units);
-    if value != 1 {
+    // The number shown has its sign turned around if the whole is "ago".
+    if value != if *is_before { -1 } else { 1 } {
         offset = set_one_byte(s, offset, b's');
     }
     *is_zero = false;
-- 
2.43.0


From 01013963bb381955e9cc8b777da2115d5c126087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 31/33] fix: "08 Jan 1999" under the YMD order

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index b44a88e..922fc8e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1620,7 +1620,7 @@ impl DecodeDateTimeCtx {
             else {
                 decode_number(
                     str,
-                    false,
+                    self.have_text_month,
                     self.f_mask,
                     &mut self.t_mask,
                     tm,
-- 
2.43.0


From ceff2995af7cc859a4974999438a28a6d7ba3f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:32 +0000
Subject: [PATCH 32/33] fix: a time of day with part of a date is taken for a
 date

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 922fc8e..78759a7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1894,7 +1894,8 @@ pub fn decode_date_time(
 
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
-        if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
+        // A time of day without any date is left to the caller, part of a date is not.
+        if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M && (ctx.f_mask & DTK_DATE_M) == 0 {
             return Ok((1, ctx.d_type, ctx.f_sec));
         }
         return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From 47a6b1ec72e9a7529eb8b78e3c2034a1bb06d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:04 +0000
Subject: [PATCH 33/33] fix: intervals with many long fields are refused as too
 long

---
 src/common.rs   | 1 +
 src/interval.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index dc13302..cb8914c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -642,6 +642,7 @@ pub const USECS_PER_SEC: i64 = 1_000_000i64;
 #[allow(dead_code)]
 pub const MAX_TZDISP_HOUR: i32 = 15;
 pub const MAX_DATE_LEN: usize = 128;
+pub const MAX_INTERVAL_LEN: usize = 256;
 pub const MAX_TIME_PRECISION: i32 = 6;
 
 // Limits on the "precision" option (typmod) for these data types.
diff --git a/src/interval.rs b/src/interval.rs
index a0943e5..d0ad2d4 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -576,7 +576,7 @@ impl Interval {
     ) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
         let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
+        let mut work_buf: [u8; MAX_INTERVAL_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
         let mut f_types: [TokenField; MAX_DATE_FIELDS] =
             unsafe { MaybeUninit::uninit().assume_init() };
         let mut d_type = TokenField::Number;
-- 
2.43.0

