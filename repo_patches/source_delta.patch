From 19b3f46c0d92dcc41b7c013c0ffcf4fa1fe990a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:36 +0000
Subject: [PATCH 01/56] fix: escape enum names in type names, and read escaped
 control characters back

---
 src/types/column/factory.rs | 11 ++++++++++-
 src/types/mod.rs            | 22 ++++++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 274eca3..7356e00 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -427,7 +427,16 @@ fn parse_enum(size: EnumSize, input: &str) -> Option<Vec<(String, i16)>> {
                 .map_err(|_| StringStreamError::UnexpectedParse)
         });
 
-    let word_syms = token('\\').with(any()).or(none_of("'".chars()));
+    let escaped = token('\\').with(any()).map(|ch| match ch {
+        'b' => '\u{8}',
+        'f' => '\u{c}',
+        'n' => '\n',
+        'r' => '\r',
+        't' => '\t',
+        '0' => '\0',
+        ch => ch,
+    });
+    let word_syms = escaped.or(none_of("'".chars()));
     let word = token('\'').with(many(word_syms)).skip(token('\''));
 
     let pair = spaces()
diff --git a/src/types/mod.rs b/src/types/mod.rs
index 83ff796..38adc6c 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -429,14 +429,14 @@ impl SqlType {
             SqlType::Enum8(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape_enum_name(name)))
                     .collect();
                 format!("Enum8({})", a.join(",")).into()
             }
             SqlType::Enum16(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape_enum_name(name)))
                     .collect();
                 format!("Enum16({})", a.join(",")).into()
             }
@@ -464,6 +464,24 @@ impl SqlType {
     }
 }
 
+fn escape_enum_name(name: &str) -> String {
+    let mut escaped = String::with_capacity(name.len());
+    for ch in name.chars() {
+        match ch {
+            '\'' => escaped.push_str("\\'"),
+            '\\' => escaped.push_str("\\\\"),
+            '\u{8}' => escaped.push_str("\\b"),
+            '\u{c}' => escaped.push_str("\\f"),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            '\0' => escaped.push_str("\\0"),
+            ch => escaped.push(ch),
+        }
+    }
+    escaped
+}
+
 impl fmt::Display for SqlType {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{}", Self::to_string(self))
-- 
2.43.0


From 61fb8b0c1f42ec1b0664964177274b93639522d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 02/56] fix: parse nested type names (aggregate functions, map
 keys) and reject malformed ones without panicking

---
 src/types/column/factory.rs | 93 ++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 52 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 7356e00..0beac4d 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -242,24 +242,20 @@ impl dyn ColumnData {
     }
 }
 
-fn parse_fixed_string(source: &str) -> Option<usize> {
-    if !source.starts_with("FixedString") {
-        return None;
-    }
+/// Returns what stands between the parentheses of `name(...)`.
+fn type_args<'a>(source: &'a str, name: &str) -> Option<&'a str> {
+    source
+        .strip_prefix(name)?
+        .strip_prefix('(')?
+        .strip_suffix(')')
+}
 
-    let inner_size = &source[12..source.len() - 1];
-    match inner_size.parse::<usize>() {
-        Err(_) => None,
-        Ok(value) => Some(value),
-    }
+fn parse_fixed_string(source: &str) -> Option<usize> {
+    type_args(source, "FixedString")?.parse::<usize>().ok()
 }
 
 fn parse_nullable_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Nullable") {
-        return None;
-    }
-
-    let inner_type = &source[9..source.len() - 1];
+    let inner_type = type_args(source, "Nullable")?;
 
     if inner_type.starts_with("Nullable") {
         return None;
@@ -269,21 +265,28 @@ fn parse_nullable_type(source: &str) -> Option<&str> {
 }
 
 fn parse_array_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Array") {
-        return None;
-    }
-
-    let inner_type = &source[6..source.len() - 1];
-    Some(inner_type)
+    type_args(source, "Array")
 }
 
 fn parse_map_type(source: &str) -> Option<(&str, &str)> {
-    if !source.starts_with("Map") {
-        return None;
-    }
-
-    let body = &source[4..source.len() - 1];
-    let comma_pos = body.chars().position(|c| c == ',')?;
+    let body = type_args(source, "Map")?;
+
+    // the comma that separates the key from the value is the first one
+    // outside of parentheses and quotes
+    let (mut depth, mut quoted, mut escaped) = (0_usize, false, false);
+    let comma_pos = body.bytes().position(|byte| {
+        match byte {
+            _ if escaped => escaped = false,
+            b'\\' if quoted => escaped = true,
+            b'\'' => quoted = !quoted,
+            _ if quoted => {}
+            b'(' => depth += 1,
+            b')' => depth = depth.saturating_sub(1),
+            b',' => return depth == 0,
+            _ => {}
+        }
+        false
+    })?;
 
     let key = body[0..comma_pos].trim();
     let value = body[comma_pos + 1..].trim();
@@ -292,11 +295,7 @@ fn parse_map_type(source: &str) -> Option<(&str, &str)> {
 }
 
 fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
-    if !source.starts_with("SimpleAggregateFunction(") || !source.ends_with(')') {
-        return None;
-    }
-
-    let args = source[23..].trim_matches(|c| c == '(' || c == ')');
+    let args = type_args(source, "SimpleAggregateFunction")?;
     let sep_index = args.find(',')?;
 
     let agg_func = args[..sep_index].trim();
@@ -383,6 +382,9 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
                 NoBits::N32 => 9,
                 NoBits::N64 => 18,
             };
+            if scale > precision {
+                return None;
+            }
             Some((precision, scale, bits))
         }
         _ => None,
@@ -395,16 +397,10 @@ enum EnumSize {
 }
 
 fn parse_enum8(input: &str) -> Option<Vec<(String, i8)>> {
-    match parse_enum(EnumSize::Enum8, input) {
-        Some(result) => {
-            let res: Vec<(String, i8)> = result
-                .iter()
-                .map(|(key, val)| (key.clone(), *val as i8))
-                .collect();
-            Some(res)
-        }
-        None => None,
-    }
+    parse_enum(EnumSize::Enum8, input)?
+        .into_iter()
+        .map(|(key, val)| Some((key, i8::try_from(val).ok()?)))
+        .collect()
 }
 fn parse_enum16(input: &str) -> Option<Vec<(String, i16)>> {
     parse_enum(EnumSize::Enum16, input)
@@ -520,7 +516,8 @@ fn parse_date_time64(source: &str) -> Option<(u32, Option<String>)> {
         .skip(token(')'));
 
     match parser.parse(source) {
-        Ok((pair, remain)) if remain.is_empty() => Some(pair),
+        // ClickHouse has no more than nine sub-second digits
+        Ok((pair, remain)) if remain.is_empty() && pair.0 <= 9 => Some(pair),
         _ => None,
     }
 }
@@ -530,16 +527,8 @@ fn parse_low_cardinality(source: &str) -> Option<&str> {
         return None;
     }
 
-    let mut lo = 14;
-    let mut hi = source.len() - 1;
-
-    while lo < source.len() && &source[lo..lo + 1] != "(" {
-        lo += 1;
-    }
-
-    while hi > lo && &source[hi..hi + 1] != ")" {
-        hi -= 1;
-    }
+    let lo = source.find('(')?;
+    let hi = source.rfind(')')?;
 
     if lo >= hi {
         return None;
-- 
2.43.0


From d54066080df55c29a57f6e2f69f3048a07424e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 03/56] fix: save DateTime64 columns, and convert DateTime64
 values before the epoch or far from it

---
 src/types/column/datetime64.rs | 49 ++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 7aa80d4..9b387c6 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -56,8 +56,10 @@ impl ColumnData for DateTime64ColumnData {
         SqlType::DateTime(DateTimeType::DateTime64(precision, tz))
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        for index in start..end {
+            encoder.write(self.data.at(index));
+        }
     }
 
     fn len(&self) -> usize {
@@ -118,8 +120,8 @@ impl ColumnData for DateTime64ColumnData {
 
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
     let base10: i64 = 10;
-    let timestamp = time.timestamp_nanos_opt().unwrap();
-    timestamp / base10.pow(9 - precision)
+    let subsec = i64::from(time.timestamp_subsec_nanos()) / base10.pow(9 - precision);
+    time.timestamp() * base10.pow(precision) + subsec
 }
 
 #[inline(always)]
@@ -129,34 +131,35 @@ pub(crate) fn to_datetime(value: i64, precision: u32, tz: Tz) -> DateTime<Tz> {
 
 #[inline(always)]
 pub(crate) fn to_datetime_opt(value: i64, precision: u32, tz: Tz) -> LocalResult<DateTime<Tz>> {
-    let base10: i64 = 10;
-
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
-
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    tz.timestamp_opt(sec, nsec as u32)
+    let (sec, nsec) = to_timestamp(value, precision);
+    tz.timestamp_opt(sec, nsec)
 }
 
 #[inline(always)]
 pub(crate) fn to_native_datetime_opt(value: i64, precision: u32) -> Option<NaiveDateTime> {
+    let (sec, nsec) = to_timestamp(value, precision);
+    NaiveDateTime::from_timestamp_opt(sec, nsec)
+}
+
+/// Seconds since the epoch (rounded down) and nanoseconds of that second.
+#[inline(always)]
+fn to_timestamp(value: i64, precision: u32) -> (i64, u32) {
+    if precision >= 19 {
+        return (0, 0);
+    }
+
     let base10: i64 = 10;
+    let units = base10.pow(precision);
 
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
+    let sec = value.div_euclid(units);
+    let rest = value.rem_euclid(units);
+    let nsec = if precision > 9 {
+        rest / base10.pow(precision - 9)
     } else {
-        0_i64
+        rest * base10.pow(9 - precision)
     };
 
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    NaiveDateTime::from_timestamp_opt(sec, nsec as u32)
+    (sec, nsec as u32)
 }
 
 #[cfg(test)]
-- 
2.43.0


From f40be60c8b7f7a909eb7d605da336d13ebc6746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:54 +0000
Subject: [PATCH 04/56] fix: complete and align equality and hashing of Value,
 ValueRef and Decimal

---
 src/types/decimal.rs   | 20 +++++++++-------
 src/types/value.rs     | 53 +++++++++++++++++++++---------------------
 src/types/value_ref.rs | 25 +++++++++++++++++---
 3 files changed, 61 insertions(+), 37 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 800ca1b..eb8e4de 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -62,10 +62,14 @@ impl Default for Decimal {
 
 impl Hash for Decimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.underlying.hash(state);
-        self.nobits.hash(state);
-        self.precision.hash(state);
-        self.scale.hash(state);
+        // decimals of different scales are equal when they denote the same number
+        let (mut underlying, mut scale) = (self.underlying, self.scale);
+        while scale > 0 && underlying % 10 == 0 {
+            underlying /= 10;
+            scale -= 1;
+        }
+        underlying.hash(state);
+        scale.hash(state);
     }
 }
 
@@ -125,14 +129,14 @@ impl PartialEq for Decimal {
         match self.scale.cmp(&other.scale) {
             Ordering::Less => {
                 let delta = other.scale() - self.scale();
-                let underlying = self.underlying * FACTORS10[delta];
-                other.underlying == underlying
+                let underlying = i128::from(self.underlying) * i128::from(FACTORS10[delta]);
+                i128::from(other.underlying) == underlying
             }
             Ordering::Equal => self.underlying == other.underlying,
             Ordering::Greater => {
                 let delta = self.scale() - other.scale();
-                let underlying = other.underlying * FACTORS10[delta];
-                self.underlying == underlying
+                let underlying = i128::from(other.underlying) * i128::from(FACTORS10[delta]);
+                i128::from(self.underlying) == underlying
             }
         }
     }
diff --git a/src/types/value.rs b/src/types/value.rs
index 9b38b41..451182e 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -75,11 +75,30 @@ impl Hash for Value {
             Self::Date(d) => d.hash(state),
             Self::DateTime(t, _) => t.hash(state),
             Self::DateTime64(t, (prec_a, _)) => (*t, *prec_a).hash(state),
-            _ => unimplemented!(),
+            Self::Bool(b) => b.hash(state),
+            Self::Float32(f) => hash_float(f64::from(*f), state),
+            Self::Float64(f) => hash_float(*f, state),
+            Self::ChronoDateTime(t) => t.hash(state),
+            Self::Ipv4(v) => v.hash(state),
+            Self::Ipv6(v) => v.hash(state),
+            Self::Uuid(v) => v.hash(state),
+            Self::Nullable(Either::Left(_)) => (),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            Self::Decimal(d) => d.hash(state),
+            Self::Enum8(_, v) => v.internal().hash(state),
+            Self::Enum16(_, v) => v.internal().hash(state),
+            Self::Map(_, _, vs) => vs.len().hash(state),
         }
     }
 }
 
+/// `0.0` and `-0.0` are equal, so they must have the same hash.
+pub(crate) fn hash_float<H: Hasher>(value: f64, state: &mut H) {
+    let value = if value == 0.0 { 0.0 } else { value };
+    value.to_bits().hash(state)
+}
+
 impl Eq for Value {}
 
 impl PartialEq for Value {
@@ -118,29 +137,11 @@ impl PartialEq for Value {
             (Value::Ipv4(a), Value::Ipv4(b)) => *a == *b,
             (Value::Ipv6(a), Value::Ipv6(b)) => *a == *b,
             (Value::Uuid(a), Value::Uuid(b)) => *a == *b,
-            (Value::DateTime64(a, (prec_a, tz_a)), Value::DateTime64(b, (prec_b, tz_b))) => {
-                // chrono has no "variable-precision" offset method. As a
-                // fallback, we always use `timestamp_nanos` and multiply by
-                // the correct value.
-                #[rustfmt::skip]
-                const MULTIPLIERS: [i64; 10] = [
-                    1_000_000_000, // 1 s  is 10^9 nanos
-                      100_000_000,
-                       10_000_000,
-                        1_000_000, // 1 ms is 10^6 nanos
-                          100_000,
-                           10_000,
-                            1_000, // 1 µs is 10^3 nanos
-                              100,
-                               10,
-                                1, // 1 ns is 1 nanos!
-                ];
-
-                // The precision must be in the [0 - 9] range. As such, the
-                // following indexing can not fail.
-                prec_a == prec_b
-                    && tz_a.timestamp_nanos(a * MULTIPLIERS[*prec_a as usize])
-                        == tz_b.timestamp_nanos(b * MULTIPLIERS[*prec_b as usize])
+            (Value::DateTime64(a, (prec_a, _)), Value::DateTime64(b, (prec_b, _))) => {
+                prec_a == prec_b && *a == *b
+            }
+            (Value::Map(ka, va, a), Value::Map(kb, vb, b)) => {
+                *ka == *kb && *va == *vb && *a == *b
             }
 
             _ => false,
@@ -168,8 +169,8 @@ impl Value {
             SqlType::Float32 => Value::Float32(0.0),
             SqlType::Float64 => Value::Float64(0.0),
             SqlType::Date => 0_u16.to_date(*DEFAULT_TZ).into(),
-            SqlType::DateTime(DateTimeType::DateTime64(_, _)) => {
-                Value::DateTime64(0, (1, *DEFAULT_TZ))
+            SqlType::DateTime(DateTimeType::DateTime64(precision, tz)) => {
+                Value::DateTime64(0, (precision, tz))
             }
             SqlType::SimpleAggregateFunction(_, nested) => Value::default(nested.clone()),
             SqlType::DateTime(_) => 0_u32.to_date(*DEFAULT_TZ).into(),
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index 081c0b2..a875e6a 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -16,7 +16,7 @@ use crate::{
     types::{
         column::datetime64::to_datetime,
         decimal::Decimal,
-        value::{decode_ipv4, decode_ipv6, AppDate, AppDateTime},
+        value::{decode_ipv4, decode_ipv6, hash_float, AppDate, AppDateTime},
         DateTimeType, Enum16, Enum8, SqlType, Value,
     },
 };
@@ -69,7 +69,22 @@ impl<'a> Hash for ValueRef<'a> {
             Self::UInt32(i) => i.hash(state),
             Self::UInt64(i) => i.hash(state),
             Self::UInt128(i) => i.hash(state),
-            _ => unimplemented!(),
+            Self::Bool(b) => b.hash(state),
+            Self::Float32(f) => hash_float(f64::from(*f), state),
+            Self::Float64(f) => hash_float(*f, state),
+            Self::Date(d) => d.hash(state),
+            Self::DateTime(t, _) => t.hash(state),
+            Self::DateTime64(t, (precision, tz)) => to_datetime(*t, *precision, *tz).hash(state),
+            Self::Nullable(Either::Left(_)) => (),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            Self::Decimal(d) => d.hash(state),
+            Self::Ipv4(v) => v.hash(state),
+            Self::Ipv6(v) => v.hash(state),
+            Self::Uuid(v) => v.hash(state),
+            Self::Enum8(_, v) => v.internal().hash(state),
+            Self::Enum16(_, v) => v.internal().hash(state),
+            Self::Map(_, _, vs) => vs.len().hash(state),
         }
     }
 }
@@ -79,6 +94,7 @@ impl<'a> Eq for ValueRef<'a> {}
 impl<'a> PartialEq for ValueRef<'a> {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
+            (ValueRef::Bool(a), ValueRef::Bool(b)) => *a == *b,
             (ValueRef::UInt8(a), ValueRef::UInt8(b)) => *a == *b,
             (ValueRef::UInt16(a), ValueRef::UInt16(b)) => *a == *b,
             (ValueRef::UInt32(a), ValueRef::UInt32(b)) => *a == *b,
@@ -103,6 +119,9 @@ impl<'a> PartialEq for ValueRef<'a> {
             (ValueRef::Decimal(a), ValueRef::Decimal(b)) => *a == *b,
             (ValueRef::Enum8(a0, a1), ValueRef::Enum8(b0, b1)) => *a1 == *b1 && *a0 == *b0,
             (ValueRef::Enum16(a0, a1), ValueRef::Enum16(b0, b1)) => *a1 == *b1 && *a0 == *b0,
+            (ValueRef::Ipv4(a), ValueRef::Ipv4(b)) => *a == *b,
+            (ValueRef::Ipv6(a), ValueRef::Ipv6(b)) => *a == *b,
+            (ValueRef::Uuid(a), ValueRef::Uuid(b)) => *a == *b,
             (ValueRef::DateTime64(this, this_params), ValueRef::DateTime64(that, that_params)) => {
                 let (this_precision, this_tz) = **this_params;
                 let (that_precision2, that_tz) = **that_params;
@@ -408,7 +427,7 @@ impl<'a> From<&'a Value> for ValueRef<'a> {
             Value::Ipv4(v) => ValueRef::Ipv4(*v),
             Value::Ipv6(v) => ValueRef::Ipv6(*v),
             Value::Uuid(v) => ValueRef::Uuid(*v),
-            Value::ChronoDateTime(_) => unimplemented!(),
+            Value::ChronoDateTime(v) => ValueRef::DateTime(v.timestamp() as u32, v.timezone()),
             Value::Map(k, v, vs) => {
                 let mut ref_map = HashMap::with_capacity(vs.len());
                 for (k, v) in vs.iter() {
-- 
2.43.0


From 4b0a366d4887cefcfd49656c8269314fe691b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:59 +0000
Subject: [PATCH 05/56] fix: scale integers of every width into Decimal, and
 print negative and integral decimals

---
 src/types/decimal.rs | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index eb8e4de..369470c 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -74,30 +74,34 @@ impl Hash for Decimal {
 }
 
 macro_rules! base_for {
-    ( $( $t:ty: $cast:expr ),* ) => {
+    ( $( $t:ty ),* ) => {
         $(
             impl Base for $t {
                 fn scale(self, scale: i64) -> i64 {
-                    $cast(self * (scale as $t)) as i64
+                    let value = i128::from(self) * i128::from(scale);
+                    value.clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64
                 }
             }
         )*
     };
 }
 
-base_for! {
-    f32: std::convert::identity,
-    f64: std::convert::identity,
-    i8: i64::from,
-    i16: i64::from,
-    i32: i64::from,
-    i64: std::convert::identity,
-    u8: i64::from,
-    u16: i64::from,
-    u32: i64::from,
-    u64 : std::convert::identity
+macro_rules! base_for_float {
+    ( $( $t:ty ),* ) => {
+        $(
+            impl Base for $t {
+                fn scale(self, scale: i64) -> i64 {
+                    (self * (scale as $t)) as i64
+                }
+            }
+        )*
+    };
 }
 
+base_for_float! { f32, f64 }
+
+base_for! { i8, i16, i32, i64, u8, u16, u32, u64 }
+
 impl InternalResult for i32 {
     #[inline(always)]
     fn get(underlying: i64) -> Self {
@@ -143,15 +147,20 @@ impl PartialEq for Decimal {
 }
 
 fn decimal2str(decimal: &Decimal) -> String {
-    let mut r = format!("{}", decimal.underlying);
+    let mut r = format!("{}", decimal.underlying.unsigned_abs());
     while r.len() < decimal.scale() {
         r.insert(0, '0');
     }
     let pos = r.len() - decimal.scale();
-    r.insert(pos, '.');
+    if decimal.scale() > 0 {
+        r.insert(pos, '.');
+    }
     if r.starts_with('.') {
         r.insert(0, '0');
     }
+    if decimal.underlying < 0 {
+        r.insert(0, '-');
+    }
     r
 }
 
@@ -205,6 +214,9 @@ impl Decimal {
         if underlying > FACTORS10[precision as usize] {
             panic!("{} > {}", underlying, FACTORS10[precision as usize]);
         }
+        if underlying < -FACTORS10[precision as usize] {
+            panic!("{} < -{}", underlying, FACTORS10[precision as usize]);
+        }
 
         Decimal {
             underlying,
-- 
2.43.0


From 14c90176dd5034ad3d4baa94504b90ec511c3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 06/56] fix: pushing rows into a block whose nested columns are
 shared with a clone

---
 src/types/column/array.rs           | 4 ++--
 src/types/column/column_data.rs     | 8 ++++++++
 src/types/column/low_cardinality.rs | 8 +++-----
 src/types/column/map.rs             | 6 +++---
 src/types/column/nullable.rs        | 4 ++--
 src/types/column/simple_agg_func.rs | 4 ++--
 6 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index b083012..5a04f1c 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -7,7 +7,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData,
         },
@@ -72,7 +72,7 @@ impl ColumnData for ArrayColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let inner_column = Arc::get_mut(&mut self.inner).unwrap();
+            let inner_column = make_mut(&mut self.inner);
             self.offsets.push((prev + vs.len()) as u64);
             for v in vs.iter() {
                 inner_column.push(v.clone());
diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index 9712ae8..65fed73 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -50,6 +50,14 @@ pub trait ColumnData {
     }
 }
 
+/// Returns a mutable reference to the column, which is cloned first if it is shared.
+pub(crate) fn make_mut(data: &mut ArcColumnData) -> &mut (dyn ColumnData + Send + Sync) {
+    if Arc::get_mut(data).is_none() {
+        *data = Arc::from(data.clone_instance());
+    }
+    Arc::get_mut(data).expect("Column shouldn't be shared")
+}
+
 pub(crate) trait ColumnDataExt {
     fn append<T: Into<Value>>(&mut self, value: T);
 }
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index a69eac9..da614ef 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -1,12 +1,12 @@
 use chrono_tz::Tz;
-use std::{borrow::Cow, collections::HashMap, mem, ptr, sync::Arc};
+use std::{borrow::Cow, collections::HashMap, mem, ptr};
 
 use crate::{
     binary::{Encoder, ReadEx},
     errors::{DriverError, Error, FromSqlError, Result},
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            column_data::{make_mut, ArcColumnData, BoxColumnData, LowCardinalityAccessor},
             ArcColumnWrapper, ColumnData, VectorColumnData,
         },
         SqlType, Value, ValueRef,
@@ -318,9 +318,7 @@ impl ColumnData for LowCardinalityColumnData {
         match value_map.get_mut(&value) {
             None => {
                 let new_index = self.inner.len();
-                Arc::get_mut(&mut self.inner)
-                    .expect("Column shouldn't be shared")
-                    .push(value.clone());
+                make_mut(&mut self.inner).push(value.clone());
                 value_map.insert(value, new_index);
                 self.index.push(new_index);
             }
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 73e014a..a0efc75 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
         },
@@ -78,8 +78,8 @@ impl ColumnData for MapColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let key_column = Arc::get_mut(&mut self.keys).unwrap();
-            let value_column = Arc::get_mut(&mut self.values).unwrap();
+            let key_column = make_mut(&mut self.keys);
+            let value_column = make_mut(&mut self.values);
 
             self.offsets.push((prev + vs.len()) as u64);
             for (k, v) in vs.iter() {
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index d9b2b6e..bbeba6b 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -5,7 +5,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SqlType, Value, ValueRef,
@@ -53,7 +53,7 @@ impl ColumnData for NullableColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
+        let inner_column: &mut dyn ColumnData = make_mut(&mut self.inner);
 
         if let Value::Nullable(e) = value {
             match e {
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index dfe24c3..514ce53 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SimpleAggFunc, SqlType, Value, ValueRef,
@@ -47,7 +47,7 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
+        let inner_column: &mut dyn ColumnData = make_mut(&mut self.inner);
         inner_column.push(value);
     }
 
-- 
2.43.0


From 7fe5de7239f0374230fab30dc9b336de58dbe272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 07/56] fix: save Array and Map columns from the first row of
 the requested range

---
 src/types/column/array.rs | 11 ++++++++---
 src/types/column/map.rs   | 13 +++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 5a04f1c..5c3b913 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -49,14 +49,19 @@ impl ColumnData for ArrayColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        // the rows before `start` are not sent, so the offsets are relative to them
+        let first = match start {
+            0 => 0_u64,
+            _ => self.offsets.at(start - 1),
+        };
+        let mut offset = first;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - first);
         }
 
-        self.inner.save(encoder, 0, offset as usize);
+        self.inner.save(encoder, first as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index a0efc75..31799f9 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -54,15 +54,20 @@ impl ColumnData for MapColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        // the rows before `start` are not sent, so the offsets are relative to them
+        let first = match start {
+            0 => 0_u64,
+            _ => self.offsets.at(start - 1),
+        };
+        let mut offset = first;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - first);
         }
 
-        self.keys.save(encoder, 0, offset as usize);
-        self.values.save(encoder, 0, offset as usize);
+        self.keys.save(encoder, first as usize, offset as usize);
+        self.values.save(encoder, first as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From a38b30f96cdfa19f8f99b13e0f1653d19e18b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:11 +0000
Subject: [PATCH 08/56] fix: cast nested columns of which a part already has
 the target type

---
 src/types/column/array.rs           | 4 ++--
 src/types/column/column_data.rs     | 8 ++++++++
 src/types/column/map.rs             | 6 +++---
 src/types/column/nullable.rs        | 4 ++--
 src/types/column/simple_agg_func.rs | 4 ++--
 5 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 5c3b913..cc12b9a 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -7,7 +7,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{make_mut, ArcColumnData, BoxColumnData},
+            column_data::{cast_nested, make_mut, ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData,
         },
@@ -128,7 +128,7 @@ impl ColumnData for ArrayColumnData {
 
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Array(inner_target) = target {
-            if let Some(inner) = self.inner.cast_to(&self.inner, inner_target) {
+            if let Some(inner) = cast_nested(&self.inner, inner_target) {
                 return Some(Arc::new(ArrayColumnData {
                     inner,
                     offsets: self.offsets.clone(),
diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index 65fed73..2d6ae5d 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -50,6 +50,14 @@ pub trait ColumnData {
     }
 }
 
+/// Casts a nested column; a column which already has the target type is returned as is.
+pub(crate) fn cast_nested(data: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
+    if data.sql_type() == *target {
+        return Some(data.clone());
+    }
+    data.cast_to(data, target)
+}
+
 /// Returns a mutable reference to the column, which is cloned first if it is shared.
 pub(crate) fn make_mut(data: &mut ArcColumnData) -> &mut (dyn ColumnData + Send + Sync) {
     if Arc::get_mut(data).is_none() {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 31799f9..a7ee02f 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{make_mut, ArcColumnData, BoxColumnData},
+            column_data::{cast_nested, make_mut, ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
         },
@@ -147,8 +147,8 @@ impl ColumnData for MapColumnData {
 
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Map(key, value) = target {
-            let keys = self.keys.cast_to(&self.keys, key)?;
-            let values = self.values.cast_to(&self.values, value)?;
+            let keys = cast_nested(&self.keys, key)?;
+            let values = cast_nested(&self.values, value)?;
             Some(Arc::new(Self {
                 keys,
                 values,
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index bbeba6b..2a8a44c 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -5,7 +5,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{make_mut, ArcColumnData, BoxColumnData},
+            column_data::{cast_nested, make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SqlType, Value, ValueRef,
@@ -107,7 +107,7 @@ impl ColumnData for NullableColumnData {
 
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Nullable(inner_target) = target {
-            if let Some(inner) = self.inner.cast_to(&self.inner, inner_target) {
+            if let Some(inner) = cast_nested(&self.inner, inner_target) {
                 return Some(Arc::new(NullableColumnData {
                     inner,
                     nulls: self.nulls.clone(),
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index 514ce53..fcb1207 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{make_mut, ArcColumnData, BoxColumnData},
+            column_data::{cast_nested, make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SimpleAggFunc, SqlType, Value, ValueRef,
@@ -73,7 +73,7 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
 
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::SimpleAggregateFunction(func, inner_target) = target {
-            if let Some(inner) = self.inner.cast_to(&self.inner, inner_target) {
+            if let Some(inner) = cast_nested(&self.inner, inner_target) {
                 return Some(Arc::new(SimpleAggregateFunctionColumnData {
                     inner,
                     func: *func,
-- 
2.43.0


From bb1ece654f859d9b3eedbb1c561ac3d9a687455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 09/56] fix: treat every non-zero byte of a null map as NULL,
 as the iterators do

---
 src/types/column/nullable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 2a8a44c..36def22 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -74,7 +74,7 @@ impl ColumnData for NullableColumnData {
     }
 
     fn at(&self, index: usize) -> ValueRef {
-        if self.nulls[index] == 1 {
+        if self.nulls[index] != 0 {
             let sql_type = self.inner.sql_type();
             ValueRef::Nullable(Either::Left(sql_type.into()))
         } else {
-- 
2.43.0


From ad8748f16c80b7b0cd82c195f00bfb1ccbb3e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:43 +0000
Subject: [PATCH 10/56] fix: report a connection closed by the server as an
 error instead of panicking

---
 src/io/transport.rs | 7 ++++---
 src/lib.rs          | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 75f8f0e..bef2bff 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -18,7 +18,7 @@ use pin_project::pin_project;
 
 use crate::{
     binary::Parser,
-    errors::{DriverError, Error, Result},
+    errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
     pool::{Inner, Pool},
     types::{Block, Cmd, Packet},
@@ -119,7 +119,7 @@ impl ClickhouseTransport {
             }
         }
 
-        let mut transport = h.unwrap();
+        let mut transport = h.ok_or(Error::Connection(ConnectionError::Broken))?;
         transport.inconsistent = false;
         Ok(transport)
     }
@@ -316,7 +316,8 @@ impl PacketStream {
             }
         }
 
-        Ok((h.unwrap(), b))
+        let transport = h.ok_or(Error::Connection(ConnectionError::Broken))?;
+        Ok((transport, b))
     }
 
     pub(crate) fn take_transport(&mut self) -> Option<ClickhouseTransport> {
diff --git a/src/lib.rs b/src/lib.rs
index c475868..4c276a8 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -324,7 +324,7 @@ impl ClientHandle {
         }
 
         self.inner = h;
-        self.context.server_info = info.unwrap();
+        self.context.server_info = info.ok_or(Error::Connection(ConnectionError::Broken))?;
         Ok(())
     }
 
@@ -422,7 +422,7 @@ impl ClientHandle {
                             }
                         }
 
-                        Ok(h.unwrap())
+                        h.ok_or(Error::Connection(ConnectionError::Broken))
                     }
                 })
                 .await
@@ -498,7 +498,7 @@ impl ClientHandle {
     ) -> Result<(ClickhouseTransport, Block)> {
         let stream = transport.call(Cmd::SendQuery(query, context));
         let (transport, b) = stream.read_block().await?;
-        let dst_block = b.unwrap();
+        let dst_block = b.ok_or(Error::Driver(DriverError::UnexpectedPacket))?;
         Ok((transport, dst_block))
     }
 
-- 
2.43.0


From 366f7fb6f4e5742ebb7f8982d51de7509a481f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 11/56] fix: deliver the packets received before the connection
 was closed

---
 src/io/transport.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index bef2bff..eaceb01 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -274,6 +274,7 @@ impl Stream for ClickhouseTransport {
         }
 
         // Fill the buffer!
+        let mut failure = None;
         while !*this.done {
             match read_to_end(this.inner.as_mut(), cx, this.rd) {
                 Poll::Ready(Ok(0)) => {
@@ -281,20 +282,29 @@ impl Stream for ClickhouseTransport {
                     break;
                 }
                 Poll::Ready(Ok(_)) => {}
-                Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e))),
+                Poll::Ready(Err(e)) => {
+                    failure = Some(e);
+                    break;
+                }
                 Poll::Pending => break,
             }
         }
 
-        if *this.done {
-            return Poll::Ready(None);
-        }
-
         // Try to parse the new data!
         let ret = this.try_parse_msg();
 
         *this.buf_is_incomplete = matches!(ret, Poll::Pending);
 
+        // The packets received before the connection was lost come first
+        if *this.buf_is_incomplete {
+            if let Some(e) = failure {
+                return Poll::Ready(Some(Err(e)));
+            }
+            if *this.done {
+                return Poll::Ready(None);
+            }
+        }
+
         ret
     }
 }
-- 
2.43.0


From 84a8aa55f757764783155f02e78ee15f4b50c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:53 +0000
Subject: [PATCH 12/56] fix: end an insert without rows only once

---
 src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4c276a8..d175232 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -507,10 +507,15 @@ impl ClientHandle {
         context: Context,
         block: Block,
     ) -> Result<ClickhouseTransport> {
-        let send_cmd = Cmd::Union(
-            Box::new(Cmd::SendData(block, context.clone())),
-            Box::new(Cmd::SendData(Block::default(), context)),
-        );
+        // an empty block ends the data, so it must be sent only once
+        let send_cmd = if block.is_empty() {
+            Cmd::SendData(block, context)
+        } else {
+            Cmd::Union(
+                Box::new(Cmd::SendData(block, context.clone())),
+                Box::new(Cmd::SendData(Block::default(), context)),
+            )
+        };
         let (transport, _) = transport.call(send_cmd).read_block().await?;
         Ok(transport)
     }
-- 
2.43.0


From 53ea6cfb944d3d3e58d18679ae9281fabcc876dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:58 +0000
Subject: [PATCH 13/56] fix: using a handle again after a failed query, and
 handles without a pool

---
 src/pool/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 5d94fa0..d93a952 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -83,15 +83,19 @@ impl PoolBinding {
 
     pub(crate) fn attach(&mut self) {
         match self.take() {
-            PoolBinding::Detached(pool) => *self = PoolBinding::Attached(pool),
-            _ => unreachable!(),
+            PoolBinding::None => (),
+            PoolBinding::Attached(pool) | PoolBinding::Detached(pool) => {
+                *self = PoolBinding::Attached(pool)
+            }
         }
     }
 
     pub(crate) fn detach(&mut self) {
         match self.take() {
-            PoolBinding::Attached(pool) => *self = PoolBinding::Detached(pool),
-            _ => unreachable!(),
+            PoolBinding::None => (),
+            PoolBinding::Attached(pool) | PoolBinding::Detached(pool) => {
+                *self = PoolBinding::Detached(pool)
+            }
         }
     }
 }
-- 
2.43.0


From ced4b6dc6a6482896ccac37c9e4e382d7d4888f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:02 +0000
Subject: [PATCH 14/56] fix: never return a connection to the pool after a
 malformed or unexpected packet

---
 src/types/query_result/stream_blocks.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 83f6103..4e800b0 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -86,7 +86,10 @@ impl<'a> Stream for BlockStream<'a> {
             };
 
             let packet = match self.inner.poll_next_unpin(cx) {
-                Poll::Ready(Some(Err(err))) => return Poll::Ready(Some(Err(err.into()))),
+                Poll::Ready(Some(Err(err))) => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(err.into())));
+                }
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(None) => {
                     self.state = BlockStreamState::Error;
@@ -116,7 +119,10 @@ impl<'a> Stream for BlockStream<'a> {
                         return Poll::Ready(Some(Ok(block)));
                     }
                 }
-                _ => return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket)))),
+                _ => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket))));
+                }
             }
         }
     }
-- 
2.43.0


From cf03879d90aff23df2823f0acc2ff28b8298be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:26 +0000
Subject: [PATCH 15/56] fix: skip the rest of an abandoned query before the
 next one, whether it fails or not

---
 src/binary/parser.rs |  5 +++++
 src/io/transport.rs  |  3 ++-
 src/lib.rs           | 39 ++++++++++++++++++++++-----------------
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/binary/parser.rs b/src/binary/parser.rs
index 0209f80..92ad480 100644
--- a/src/binary/parser.rs
+++ b/src/binary/parser.rs
@@ -170,6 +170,11 @@ impl<'i, T: Read> Parser<'i, T> {
             stack_trace: self.reader.read_string()?,
         };
 
+        let has_nested: bool = self.reader.read_scalar()?;
+        if has_nested {
+            self.parse_exception()?;
+        }
+
         warn!("server exception: {:?}", exception);
         Ok(Packet::Exception(exception))
     }
diff --git a/src/io/transport.rs b/src/io/transport.rs
index eaceb01..8bc5186 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -113,7 +113,8 @@ impl ClickhouseTransport {
                     h = Some(inner);
                 }
                 Ok(Packet::Eof(inner)) => h = Some(inner),
-                Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
+                // the abandoned query has failed, so it is over
+                Ok(Packet::Exception(_)) => h = stream.take_transport(),
                 Err(e) => return Err(Error::Io(e)),
                 _ => {}
             }
diff --git a/src/lib.rs b/src/lib.rs
index d175232..65edd77 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -555,25 +555,30 @@ impl ClientHandle {
             Err(err) => return Box::pin(stream::once(future::err(err))),
         };
 
-        if ping_before_query {
-            let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
-                let inner: BoxStream<'a, Result<Block>> = match self.check_connection().await {
-                    Ok(_) => match f(self) {
-                        Ok(s) => Box::pin(s),
-                        Err(err) => Box::pin(stream::once(future::err(err))),
-                    },
+        let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
+            let ready = if ping_before_query {
+                self.check_connection().await
+            } else {
+                self.clear().await
+            };
+            let inner: BoxStream<'a, Result<Block>> = match ready {
+                Ok(_) => match f(self) {
+                    Ok(s) => Box::pin(s),
                     Err(err) => Box::pin(stream::once(future::err(err))),
-                };
-                inner
-            });
-
-            Box::pin(fut.flatten_stream())
-        } else {
-            match f(self) {
-                Ok(s) => Box::pin(s),
+                },
                 Err(err) => Box::pin(stream::once(future::err(err))),
-            }
-        }
+            };
+            inner
+        });
+
+        Box::pin(fut.flatten_stream())
+    }
+
+    /// Skips the packets left unread by a previous query.
+    async fn clear(&mut self) -> Result<()> {
+        let transport = self.get_inner()?.clear().await?;
+        self.inner = Some(transport);
+        Ok(())
     }
 
     /// Check connection and try to reconnect if necessary.
-- 
2.43.0


From dbcb7a2b1c2207e6320f22034e881e4642bbe75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:30 +0000
Subject: [PATCH 16/56] fix: count reconnections which are accepted but
 unusable as attempts

---
 src/retry_guard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 6d68962..76eb2f2 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -29,7 +29,7 @@ pub(crate) async fn retry_guard(
         }
 
         match reconnect(handle, source, pool.clone()).await {
-            Ok(()) => continue,
+            Ok(()) => (),
             Err(err) => {
                 skip_check = true;
                 if attempt >= max_attempt {
-- 
2.43.0


From 066b5151539a53a456ed7fd2245ac67bddc76e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:46 +0000
Subject: [PATCH 17/56] fix: no insert_timeout or execute_timeout means no
 limit, not an immediate timeout

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 65edd77..c8975a5 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -393,7 +393,7 @@ impl ClientHandle {
     {
         let timeout = try_opt!(self.context.options.get())
             .execute_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+            .unwrap_or(Duration::MAX);
         let context = self.context.clone();
         let query = Query::from(sql);
         with_timeout(
@@ -447,7 +447,7 @@ impl ClientHandle {
     async fn insert_(&mut self, query: Query, block: &Block) -> Result<ClickhouseTransport> {
         let timeout = try_opt!(self.context.options.get())
             .insert_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+            .unwrap_or(Duration::MAX);
 
         let context = self.context.clone();
 
-- 
2.43.0


From b4965af5ad726353e15327203f05497726f9b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:32 +0000
Subject: [PATCH 18/56] fix: decode the database name of a URL, and give
 alt_hosts the default port

---
 src/types/options.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 5f02fb2..c559bb9 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -525,7 +525,9 @@ fn from_url(url_str: &str) -> Result<Options> {
     options.addr = addr;
 
     if let Some(database) = get_database_from_url(&url)? {
-        options.database = database.into();
+        options.database = percent_decode(database.as_bytes())
+            .decode_utf8_lossy()
+            .into();
     }
 
     set_params(&mut options, url.query_pairs())?;
@@ -669,7 +671,12 @@ fn parse_hosts(source: &str) -> std::result::Result<Vec<Url>, ()> {
     let mut result = Vec::new();
     for host in source.split(',') {
         match Url::from_str(&format!("tcp://{host}")) {
-            Ok(url) => result.push(url),
+            Ok(mut url) => {
+                if url.port().is_none() {
+                    url.set_port(Some(9000))?;
+                }
+                result.push(url)
+            }
             Err(_) => return Err(()),
         }
     }
-- 
2.43.0


From 1247c0800e81394a27a93f3dbb482a56b58a4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:03 +0000
Subject: [PATCH 19/56] fix: keep the pool within its bound and wake every task
 which can proceed

---
 src/pool/futures/get_handle.rs | 27 +++++++++++---
 src/pool/mod.rs                | 64 +++++++++++++++++++++++++++++-----
 2 files changed, 78 insertions(+), 13 deletions(-)

diff --git a/src/pool/futures/get_handle.rs b/src/pool/futures/get_handle.rs
index df584e8..3e831a0 100644
--- a/src/pool/futures/get_handle.rs
+++ b/src/pool/futures/get_handle.rs
@@ -1,23 +1,28 @@
 use std::{
     future::Future,
     pin::Pin,
+    sync::atomic::Ordering,
     task::{Context, Poll},
 };
 
-use pin_project::pin_project;
+use pin_project::{pin_project, pinned_drop};
 
 use crate::{errors::Result, pool::Pool, ClientHandle};
 
 /// Future that resolves to a `ClientHandle`.
-#[pin_project]
+#[pin_project(PinnedDrop)]
 pub struct GetHandle {
     #[pin]
     pool: Pool,
+    waiting: bool,
 }
 
 impl GetHandle {
     pub(crate) fn new(pool: &Pool) -> Self {
-        Self { pool: pool.clone() }
+        Self {
+            pool: pool.clone(),
+            waiting: false,
+        }
     }
 }
 
@@ -25,6 +30,20 @@ impl Future for GetHandle {
     type Output = Result<ClientHandle>;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        self.project().pool.poll(cx)
+        let this = self.project();
+        if !*this.waiting {
+            *this.waiting = true;
+            this.pool.inner.waiting.fetch_add(1, Ordering::AcqRel);
+        }
+        this.pool.poll(cx)
+    }
+}
+
+#[pinned_drop]
+impl PinnedDrop for GetHandle {
+    fn drop(self: Pin<&mut Self>) {
+        if self.waiting {
+            self.pool.inner.stop_waiting();
+        }
     }
 }
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index d93a952..54ca405 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -2,7 +2,7 @@ use std::{
     fmt, mem,
     pin::Pin,
     sync::atomic::{self, Ordering},
-    sync::Arc,
+    sync::{Arc, Mutex, MutexGuard},
     task::{Context, Poll, Waker},
 };
 
@@ -28,16 +28,44 @@ pub(crate) struct Inner {
     ongoing: atomic::AtomicUsize,
     hosts: Vec<Url>,
     connections_num: atomic::AtomicUsize,
+    // Guards the decisions which depend on several of the fields above
+    lock: Mutex<()>,
+    // The number of pending `GetHandle` futures
+    waiting: atomic::AtomicUsize,
 }
 
 impl Inner {
     pub(crate) fn release_conn(&self) {
-        self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        {
+            let _guard = self.lock();
+            self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        }
+        self.wake_tasks()
+    }
+
+    fn lock(&self) -> MutexGuard<()> {
+        self.lock.lock().unwrap_or_else(|err| err.into_inner())
+    }
+
+    fn wake_tasks(&self) {
         while let Some(task) = self.tasks.pop() {
             task.wake()
         }
     }
 
+    /// A pending `GetHandle` has been dropped: another one has to drive the new connection.
+    fn stop_waiting(&self) {
+        let abandoned = {
+            let _guard = self.lock();
+            match self.waiting.fetch_sub(1, Ordering::AcqRel) {
+                1 => self.new.pop(),
+                _ => None,
+            }
+        };
+        drop(abandoned);
+        self.wake_tasks()
+    }
+
     fn conn_count(&self) -> usize {
         let is_new_some = self.new.len();
         let ongoing = self.ongoing.load(Ordering::Acquire);
@@ -168,6 +196,8 @@ impl Pool {
             tasks: crossbeam::queue::SegQueue::new(),
             ongoing: atomic::AtomicUsize::new(0),
             connections_num: atomic::AtomicUsize::new(0),
+            lock: Mutex::new(()),
+            waiting: atomic::AtomicUsize::new(0),
             hosts,
         });
 
@@ -194,6 +224,19 @@ impl Pool {
     }
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
+        let inner = self.inner.clone();
+        let result = {
+            let _guard = inner.lock();
+            self.poll_conn(cx)
+        };
+        if result.is_ready() {
+            // the others may be able to open a connection now
+            inner.wake_tasks();
+        }
+        result
+    }
+
+    fn poll_conn(&mut self, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
         self.handle_futures(cx)?;
 
         match self.take_conn() {
@@ -210,7 +253,7 @@ impl Pool {
                     }
                 };
                 if new_conn_created {
-                    self.poll(cx)
+                    self.poll_conn(cx)
                 } else {
                     Poll::Pending
                 }
@@ -263,14 +306,17 @@ impl Pool {
         client.pool = PoolBinding::None;
         client.set_inside(true);
 
-        if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
-            let _ = self.inner.idle.push(client);
+        {
+            let _guard = self.inner.lock();
+            if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
+                let _ = self.inner.idle.push(client);
+            } else {
+                drop(client);
+            }
+            self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
         }
-        self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
 
-        while let Some(task) = self.inner.tasks.pop() {
-            task.wake()
-        }
+        self.inner.wake_tasks()
     }
 
     pub(crate) fn get_addr(&self) -> &Url {
-- 
2.43.0


From f067df453ee97be0b90a8657fa4d8e1871d2ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:49 +0000
Subject: [PATCH 20/56] fix: malformed columns must not cause huge allocations,
 panics or invalid values

---
 src/binary/mod.rs                   |  7 +++++-
 src/binary/read_ex.rs               | 37 ++++++++++++++++++++++-------
 src/types/column/array.rs           | 21 ++++++++++++----
 src/types/column/date.rs            |  6 +----
 src/types/column/datetime64.rs      |  6 +----
 src/types/column/factory.rs         |  7 ++++--
 src/types/column/fixed_string.rs    | 11 ++-------
 src/types/column/ip.rs              |  3 +--
 src/types/column/list.rs            | 26 +++++++++++++-------
 src/types/column/low_cardinality.rs |  7 +++++-
 src/types/column/map.rs             |  5 ++--
 src/types/column/nullable.rs        |  3 +--
 src/types/column/numeric.rs         |  6 +----
 src/types/column/string.rs          |  4 ++--
 14 files changed, 91 insertions(+), 58 deletions(-)

diff --git a/src/binary/mod.rs b/src/binary/mod.rs
index f128314..b84ae1d 100644
--- a/src/binary/mod.rs
+++ b/src/binary/mod.rs
@@ -1,4 +1,9 @@
-pub(crate) use self::{encoder::Encoder, parser::Parser, read_ex::ReadEx, uvarint::put_uvarint};
+pub(crate) use self::{
+    encoder::Encoder,
+    parser::Parser,
+    read_ex::{ReadEx, MAX_PREALLOCATED},
+    uvarint::put_uvarint,
+};
 
 mod encoder;
 mod parser;
diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index cb47f22..ff5bb59 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -1,4 +1,4 @@
-use std::{io, mem::MaybeUninit};
+use std::{cmp, io, mem::MaybeUninit};
 
 use crate::{
     errors::{DriverError, Error, Result},
@@ -10,6 +10,7 @@ pub(crate) trait ReadEx {
     fn read_scalar<V>(&mut self) -> Result<V>
     where
         V: Copy + Unmarshal<V> + StatBuffer;
+    fn read_vec(&mut self, len: usize) -> Result<Vec<u8>>;
     fn read_string(&mut self) -> Result<String>;
     fn skip_string(&mut self) -> Result<()>;
     fn read_uvarint(&mut self) -> Result<u64>;
@@ -18,6 +19,9 @@ pub(crate) trait ReadEx {
 
 const MAX_STACK_BUFFER_LEN: usize = 1024;
 
+/// The sizes come from the server, so no more than this is allocated before the data arrives.
+pub(crate) const MAX_PREALLOCATED: usize = 1 << 16;
+
 impl<T> ReadEx for T
 where
     T: io::Read,
@@ -50,10 +54,20 @@ where
         Ok(V::unmarshal(buffer.as_ref()))
     }
 
+    fn read_vec(&mut self, len: usize) -> Result<Vec<u8>> {
+        let mut buffer = Vec::new();
+        while buffer.len() < len {
+            let start = buffer.len();
+            let step = cmp::min(len - start, cmp::max(start, MAX_PREALLOCATED));
+            buffer.resize(start + step, 0_u8);
+            self.read_bytes(&mut buffer[start..])?;
+        }
+        Ok(buffer)
+    }
+
     fn read_string(&mut self) -> Result<String> {
         let str_len = self.read_uvarint()? as usize;
-        let mut buffer = vec![0_u8; str_len];
-        self.read_bytes(buffer.as_mut())?;
+        let buffer = self.read_vec(str_len)?;
         Ok(String::from_utf8(buffer)?)
     }
 
@@ -69,8 +83,7 @@ where
                 )?;
             }
         } else {
-            let mut buffer = vec![0_u8; str_len];
-            self.read_bytes(buffer.as_mut())?;
+            self.read_vec(str_len)?;
         }
 
         Ok(())
@@ -84,12 +97,16 @@ where
             let b: u8 = self.read_scalar()?;
 
             if b < 0x80 {
-                if i > 9 || i == 9 && b > 1 {
+                if i == 9 && b > 1 {
                     return Err(Error::Driver(DriverError::Overflow));
                 }
                 return Ok(x | (u64::from(b) << s));
             }
 
+            if i >= 9 {
+                return Err(Error::Driver(DriverError::Overflow));
+            }
+
             x |= u64::from(b & 0x7f) << s;
             s += 7;
 
@@ -99,8 +116,12 @@ where
 
     fn read_str_into_buffer(&mut self, pool: &mut StringPool) -> Result<()> {
         let str_len = self.read_uvarint()? as usize;
-        let buffer = pool.allocate(str_len);
-        self.read_bytes(buffer)?;
+        if str_len > MAX_PREALLOCATED {
+            let buffer = self.read_vec(str_len)?;
+            pool.allocate(str_len).copy_from_slice(&buffer);
+        } else {
+            self.read_bytes(pool.allocate(str_len))?;
+        }
         Ok(())
     }
 }
diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index cc12b9a..450e183 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -1,10 +1,10 @@
-use std::sync::Arc;
+use std::{borrow::Cow, sync::Arc};
 
 use chrono_tz::Tz;
 
 use crate::{
     binary::{Encoder, ReadEx},
-    errors::Result,
+    errors::{DriverError, Error, Result},
     types::{
         column::{
             column_data::{cast_nested, make_mut, ArcColumnData, BoxColumnData},
@@ -20,6 +20,19 @@ pub(crate) struct ArrayColumnData {
     pub(crate) offsets: List<u64>,
 }
 
+/// Reads the ends of the rows, none of which may precede the end of the row before it.
+pub(crate) fn read_offsets<R: ReadEx>(reader: &mut R, rows: usize) -> Result<List<u64>> {
+    let offsets = List::<u64>::read(reader, rows)?;
+    for i in 1..rows {
+        if offsets.at(i) < offsets.at(i - 1) {
+            return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+                "Invalid array offsets",
+            ))));
+        }
+    }
+    Ok(offsets)
+}
+
 impl ArrayColumnData {
     pub(crate) fn load<R: ReadEx>(
         reader: &mut R,
@@ -27,9 +40,7 @@ impl ArrayColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
+        let offsets = read_offsets(reader, rows)?;
 
         let size = match rows {
             0 => 0,
diff --git a/src/types/column/date.rs b/src/types/column/date.rs
index 534ee44..3832e71 100644
--- a/src/types/column/date.rs
+++ b/src/types/column/date.rs
@@ -63,11 +63,7 @@ where
         size: usize,
         tz: Tz,
     ) -> Result<DateColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::read(reader, size)?;
         Ok(DateColumnData { data, tz })
     }
 }
diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 9b387c6..8a6fbcb 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -31,11 +31,7 @@ impl DateTime64ColumnData {
         precision: u32,
         tz: Tz,
     ) -> Result<DateTime64ColumnData> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::read(reader, size)?;
         Ok(DateTime64ColumnData {
             data,
             params: (precision, tz),
diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 0beac4d..c71634f 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -62,7 +62,9 @@ impl dyn ColumnData {
         tz: Tz,
     ) -> Result<W::Wrapper> {
         Ok(match_str!(type_name, {
-            "Bool" => W::wrap(VectorColumnData::<bool>::load(reader, size)?),
+            "Bool" => W::wrap(VectorColumnData {
+                data: VectorColumnData::<u8>::load(reader, size)?.data.map(|v| v != 0),
+            }),
             "UInt8" => W::wrap(VectorColumnData::<u8>::load(reader, size)?),
             "UInt16" => W::wrap(VectorColumnData::<u16>::load(reader, size)?),
             "UInt32" => W::wrap(VectorColumnData::<u32>::load(reader, size)?),
@@ -251,7 +253,8 @@ fn type_args<'a>(source: &'a str, name: &str) -> Option<&'a str> {
 }
 
 fn parse_fixed_string(source: &str) -> Option<usize> {
-    type_args(source, "FixedString")?.parse::<usize>().ok()
+    let str_len = type_args(source, "FixedString")?.parse::<usize>().ok()?;
+    (str_len > 0).then_some(str_len)
 }
 
 fn parse_nullable_type(source: &str) -> Option<&str> {
diff --git a/src/types/column/fixed_string.rs b/src/types/column/fixed_string.rs
index 024c433..9e992e5 100644
--- a/src/types/column/fixed_string.rs
+++ b/src/types/column/fixed_string.rs
@@ -40,15 +40,8 @@ impl FixedStringColumnData {
     }
 
     pub(crate) fn load<T: ReadEx>(reader: &mut T, size: usize, str_len: usize) -> Result<Self> {
-        let mut instance = Self::with_capacity(size, str_len);
-
-        for _ in 0..size {
-            let old_len = instance.buffer.len();
-            instance.buffer.resize(old_len + str_len, 0_u8);
-            reader.read_bytes(&mut instance.buffer[old_len..old_len + str_len])?;
-        }
-
-        Ok(instance)
+        let buffer = reader.read_vec(size.saturating_mul(str_len))?;
+        Ok(Self { buffer, str_len })
     }
 }
 
diff --git a/src/types/column/ip.rs b/src/types/column/ip.rs
index 3d66239..57514e9 100644
--- a/src/types/column/ip.rs
+++ b/src/types/column/ip.rs
@@ -272,8 +272,7 @@ impl<V: IpVersion> IpColumnData<V> {
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<Self> {
-        let mut inner = vec![0; size * V::size()];
-        reader.read_bytes(inner.as_mut())?;
+        let inner = reader.read_vec(size.saturating_mul(V::size()))?;
 
         Ok(Self {
             inner,
diff --git a/src/types/column/list.rs b/src/types/column/list.rs
index a873be9..27f120b 100644
--- a/src/types/column/list.rs
+++ b/src/types/column/list.rs
@@ -1,6 +1,10 @@
-use std::{fmt, mem, slice};
+use std::{cmp, fmt, mem, slice};
 
-use crate::types::{Marshal, StatBuffer, Unmarshal};
+use crate::{
+    binary::{ReadEx, MAX_PREALLOCATED},
+    errors::Result,
+    types::{Marshal, StatBuffer, Unmarshal},
+};
 
 #[derive(Clone)]
 pub struct List<T>
@@ -37,12 +41,18 @@ where
         }
     }
 
-    pub fn resize(&mut self, new_len: usize, value: T) {
-        self.data.resize(new_len, value);
-    }
-
-    pub(super) unsafe fn set_len(&mut self, new_len: usize) {
-        self.data.set_len(new_len);
+    pub(crate) fn read<R: ReadEx>(reader: &mut R, size: usize) -> Result<List<T>> {
+        let mut list = List::with_capacity(cmp::min(size, MAX_PREALLOCATED));
+        while list.len() < size {
+            let start = list.len();
+            let step = cmp::min(size - start, cmp::max(start, MAX_PREALLOCATED));
+            list.data.reserve(step);
+            unsafe {
+                list.data.set_len(start + step);
+            }
+            reader.read_bytes(&mut list.as_mut()[start * mem::size_of::<T>()..])?;
+        }
+        Ok(list)
     }
 
     pub(super) unsafe fn as_ptr(&self) -> *const T {
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index da614ef..a55ef04 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -256,7 +256,12 @@ fn read_inner<R: ReadEx>(
 
     let keys_rows: u64 = reader.read_scalar()?;
     let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
-    assert_eq!(flags, keys.get_flags());
+
+    if keys.len() != size || (0..size).any(|i| keys.get_by_index(i) >= inner.len()) {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Invalid low cardinality keys",
+        ))));
+    }
 
     Ok((inner, keys))
 }
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index a7ee02f..a90030c 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -3,6 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
+            array::read_offsets,
             column_data::{cast_nested, make_mut, ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
@@ -27,9 +28,7 @@ impl MapColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
+        let offsets = read_offsets(reader, rows)?;
 
         let size = match rows {
             0 => 0,
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 36def22..ff7a051 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -27,8 +27,7 @@ impl NullableColumnData {
         size: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut nulls = vec![0; size];
-        reader.read_bytes(nulls.as_mut())?;
+        let nulls = reader.read_vec(size)?;
         let inner =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, type_name, size, tz)?;
         Ok(NullableColumnData { inner, nulls })
diff --git a/src/types/column/numeric.rs b/src/types/column/numeric.rs
index 239aa83..04c7fb0 100644
--- a/src/types/column/numeric.rs
+++ b/src/types/column/numeric.rs
@@ -161,11 +161,7 @@ where
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<VectorColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::read(reader, size)?;
         Ok(Self { data })
     }
 
diff --git a/src/types/column/string.rs b/src/types/column/string.rs
index 8d337f9..c59a588 100644
--- a/src/types/column/string.rs
+++ b/src/types/column/string.rs
@@ -4,7 +4,7 @@ use std::{io::Write, string::ToString, sync::Arc};
 use either::Either;
 
 use crate::{
-    binary::{Encoder, ReadEx},
+    binary::{Encoder, ReadEx, MAX_PREALLOCATED},
     errors::Result,
     types::{
         column::{
@@ -36,7 +36,7 @@ impl StringColumnData {
     }
 
     pub(crate) fn load<T: ReadEx>(reader: &mut T, size: usize) -> Result<Self> {
-        let mut data = Self::with_capacity(size);
+        let mut data = Self::with_capacity(std::cmp::min(size, MAX_PREALLOCATED));
 
         for _ in 0..size {
             reader.read_str_into_buffer(&mut data.pool)?;
-- 
2.43.0


From e2305d4a421d373959d1064fa76511a78a388189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:10 +0000
Subject: [PATCH 21/56] fix: reject compressed frames whose sizes are wrong

---
 src/types/block/compressed.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index d2c43a8..f0e884c 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -15,6 +15,7 @@ use crate::{
 };
 
 const DBMS_MAX_COMPRESSED_SIZE: u32 = 0x4000_0000; // 1GB
+const HEADER_SIZE: u32 = 9;
 
 pub(crate) struct CompressedReader<'a, R> {
     reader: &'a mut R,
@@ -83,30 +84,40 @@ where
         return Err(raise_error("compressed data too big".to_string()));
     }
 
-    buffer.resize(compressed as usize, 0_u8);
+    if compressed < HEADER_SIZE {
+        return Err(raise_error("compressed data too small".to_string()));
+    }
+
+    let body = reader.read_vec((compressed - HEADER_SIZE) as usize)?;
+    buffer.resize(HEADER_SIZE as usize, 0_u8);
     {
         let mut cursor = io::Cursor::new(&mut buffer);
         cursor.write_u8(0x82)?;
         cursor.write_u32::<LittleEndian>(compressed)?;
         cursor.write_u32::<LittleEndian>(original)?;
     }
-    reader.read_bytes(&mut buffer[9..])?;
+    buffer.extend_from_slice(&body);
 
     if h != city_hash_128(&buffer) {
         return Err(raise_error("data was corrupted".to_string()));
     }
 
-    let data = vec![0_u8; original as usize];
+    // LZ4 can't compress data more than 255 times
+    if u64::from(original) > u64::from(compressed) * 255 {
+        return Err(raise_error("can't decompress data".to_string()));
+    }
+
+    let mut data = vec![0_u8; original as usize];
     let status = unsafe {
         LZ4_decompress_safe(
             (buffer.as_mut_ptr() as *const c_char).add(9),
-            data.as_ptr() as *mut c_char,
+            data.as_mut_ptr() as *mut c_char,
             (compressed - 9) as c_int,
             original as c_int,
         )
     };
 
-    if status < 0 {
+    if i64::from(status) != i64::from(original) {
         return Err(raise_error("can't decompress data".to_string()));
     }
 
-- 
2.43.0


From 234de3fb9c86eb71f9fbbcfede0817e4a77086d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:43 +0000
Subject: [PATCH 22/56] fix: fetch_all of a result without blocks or with
 blocks of different types

---
 src/types/block/mod.rs        | 25 ++++++++++++++++++++++++-
 src/types/query_result/mod.rs |  2 +-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4ab5446..26573f2 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -14,7 +14,7 @@ use lz4::liblz4::{LZ4_compressBound, LZ4_compress_default};
 
 use crate::{
     binary::{protocol, Encoder, ReadEx},
-    errors::{Error, FromSqlError, Result},
+    errors::{DriverError, Error, FromSqlError, Result},
     types::{
         column::{self, ArcColumnWrapper, Column, ColumnFrom},
         ColumnType, Complex, FromSql, Simple, SqlType,
@@ -275,6 +275,29 @@ impl<K: ColumnType> Block<K> {
 }
 
 impl Block<Simple> {
+    /// Concatenates blocks received from the server, which may be none or not match.
+    pub(crate) fn try_concat(blocks: &[Self]) -> Result<Block<Complex>> {
+        let first = match blocks.first() {
+            None => return Ok(Block::default()),
+            Some(first) => first,
+        };
+
+        for block in blocks {
+            let same_types = first.column_count() == block.column_count()
+                && first
+                    .columns()
+                    .iter()
+                    .zip(block.columns())
+                    .all(|(a, b)| a.sql_type() == b.sql_type());
+
+            if !same_types {
+                return Err(Error::Driver(DriverError::UnexpectedPacket));
+            }
+        }
+
+        Ok(Self::concat(blocks))
+    }
+
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
         let first = blocks.first().expect("blocks should not be empty.");
 
diff --git a/src/types/query_result/mod.rs b/src/types/query_result/mod.rs
index 720b21d..ef9c9d1 100644
--- a/src/types/query_result/mod.rs
+++ b/src/types/query_result/mod.rs
@@ -40,7 +40,7 @@ impl<'a> QueryResult<'a> {
                         future::ready(Ok(blocks))
                     })
                     .await?;
-                Ok(Block::concat(blocks.as_slice()))
+                Block::try_concat(blocks.as_slice())
             },
             timeout,
         )
-- 
2.43.0


From 48864889b311bf76a687152df0753598c9ec22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:59 +0000
Subject: [PATCH 23/56] fix: reject LowCardinality(Nullable(...)) columns
 instead of misreading them

---
 src/types/column/factory.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index c71634f..6a3066d 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -537,7 +537,14 @@ fn parse_low_cardinality(source: &str) -> Option<&str> {
         return None;
     }
 
-    Some(source[lo + 1..hi].trim())
+    let inner_type = source[lo + 1..hi].trim();
+
+    // the dictionary of nullable values has a different layout
+    if inner_type.starts_with("Nullable") {
+        return None;
+    }
+
+    Some(inner_type)
 }
 
 fn get_timezone(timezone: &Option<String>, tz: Tz) -> Result<Tz> {
-- 
2.43.0


From ec44f4a459dda1f2489fd060f15d8c17c106e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:28 +0000
Subject: [PATCH 24/56] fix: refuse inserts of decimals that overflow the
 column and of text that is not an address

---
 src/types/column/mod.rs | 43 +++++++++++++++++++++++++++++++++++------
 src/types/decimal.rs    | 14 ++++++++++++++
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index c08439f..8db497a 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -2,10 +2,12 @@ use std::{
     marker,
     net::{Ipv4Addr, Ipv6Addr},
     ops,
+    str::FromStr,
     sync::Arc,
 };
 
 use chrono_tz::Tz;
+use either::Either;
 
 use crate::{
     binary::{Encoder, ReadEx},
@@ -298,7 +300,7 @@ impl<K: ColumnType> Column<K> {
             }
             (SqlType::Decimal(dst_p, dst_s), SqlType::Decimal(_, _)) => {
                 let name = self.name().to_owned();
-                let nobits = NoBits::from_precision(dst_p).unwrap();
+                let nobits = self.check_decimals(dst_p, dst_s, &dst_type)?;
                 let adapter = DecimalAdapter {
                     column: self,
                     precision: dst_p,
@@ -372,7 +374,7 @@ impl<K: ColumnType> Column<K> {
                 SqlType::Nullable(SqlType::Decimal(_, _)),
             ) => {
                 let name = self.name().to_owned();
-                let nobits = NoBits::from_precision(*dst_p).unwrap();
+                let nobits = self.check_decimals(*dst_p, *dst_s, &dst_type)?;
                 let adapter = NullableDecimalAdapter {
                     column: self,
                     precision: *dst_p,
@@ -391,8 +393,7 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv4Addr = source.parse().unwrap();
+                    let ip: Ipv4Addr = parse_ip(&self.at(i), &dst_type)?;
                     let mut buffer = [0_u8; 4];
                     buffer.copy_from_slice(&ip.octets());
                     buffer.reverse();
@@ -416,8 +417,7 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv6Addr = source.parse().unwrap();
+                    let ip: Ipv6Addr = parse_ip(&self.at(i), &dst_type)?;
                     inner.extend(&ip.octets());
                 }
 
@@ -461,6 +461,30 @@ impl<K: ColumnType> Column<K> {
         }
     }
 
+    /// Checks that each decimal of the column can be stored as the given decimal type.
+    fn check_decimals(&self, precision: u8, scale: u8, dst_type: &SqlType) -> Result<NoBits> {
+        let nobits = match NoBits::from_precision(precision) {
+            Some(nobits) => nobits,
+            None => return Err(Error::FromSql(FromSqlError::UnsupportedOperation)),
+        };
+
+        for i in 0..self.len() {
+            let value = match self.at(i) {
+                ValueRef::Nullable(Either::Left(_)) => continue,
+                ValueRef::Nullable(Either::Right(inner)) => *inner,
+                value => value,
+            };
+            match value {
+                ValueRef::Decimal(ref decimal) if decimal.fits(scale, nobits) => (),
+                value => {
+                    return Err(format!("{value} is out of range of {dst_type}.").into());
+                }
+            }
+        }
+
+        Ok(nobits)
+    }
+
     pub(crate) fn push(&mut self, value: Value) {
         loop {
             match Arc::get_mut(&mut self.data) {
@@ -495,6 +519,13 @@ impl<K: ColumnType> Column<K> {
     }
 }
 
+fn parse_ip<T: FromStr>(value: &ValueRef, dst_type: &SqlType) -> Result<T> {
+    let source = value.as_str()?;
+    source
+        .parse()
+        .map_err(|_| format!("{source:?} is not a valid {dst_type}.").into())
+}
+
 pub(crate) fn new_column<K: ColumnType>(
     name: &str,
     data: Arc<(dyn ColumnData + Sync + Send + 'static)>,
diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 369470c..de5a75d 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -257,6 +257,20 @@ impl Decimal {
         self.scale as usize
     }
 
+    /// Determines whether the decimal can be stored with this scale in this number of bits.
+    pub(crate) fn fits(&self, scale: u8, nobits: NoBits) -> bool {
+        let underlying = i128::from(self.underlying);
+        let underlying = if scale > self.scale {
+            underlying * i128::from(FACTORS10[(scale - self.scale) as usize])
+        } else {
+            underlying / i128::from(FACTORS10[(self.scale - scale) as usize])
+        };
+        match nobits {
+            NoBits::N32 => i32::try_from(underlying).is_ok(),
+            NoBits::N64 => i64::try_from(underlying).is_ok(),
+        }
+    }
+
     pub(crate) fn set_scale(self, scale: u8) -> Self {
         let underlying = match scale.cmp(&self.scale) {
             Ordering::Less => {
-- 
2.43.0


From 402bb7f43231b8ac45cb5479f2e12baac4f6b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:28 +0000
Subject: [PATCH 25/56] fix: refuse to insert values into a LowCardinality
 column of an unrelated type

---
 src/types/column/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index 8db497a..ba44c31 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -236,7 +236,9 @@ impl<K: ColumnType> Column<K> {
         }
 
         match (dst_type.clone(), src_type.clone()) {
-            (SqlType::LowCardinality(inner), src_type) if src_type.is_inner_low_cardinality() => {
+            (SqlType::LowCardinality(inner), src_type)
+                if src_type.is_inner_low_cardinality() && is_dictionary_of(inner, &src_type) =>
+            {
                 let name = self.name().to_owned();
                 let tz = self.data.get_timezone().unwrap_or(Tz::Zulu);
                 let mut low_card_data = LowCardinalityColumnData::empty(inner, tz, self.len())?;
@@ -519,6 +521,17 @@ impl<K: ColumnType> Column<K> {
     }
 }
 
+/// Determines whether values of the source type can be stored in a dictionary of the inner type.
+fn is_dictionary_of(inner: &SqlType, src_type: &SqlType) -> bool {
+    match (inner, src_type) {
+        (SqlType::String, SqlType::FixedString(_))
+        | (SqlType::FixedString(_), SqlType::String)
+        | (SqlType::FixedString(_), SqlType::FixedString(_))
+        | (SqlType::DateTime(_), SqlType::DateTime(_)) => true,
+        (inner, src_type) => inner == src_type,
+    }
+}
+
 fn parse_ip<T: FromStr>(value: &ValueRef, dst_type: &SqlType) -> Result<T> {
     let source = value.as_str()?;
     source
-- 
2.43.0


From 9161faefbfcf1906459af6b45dc0051e30f502d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:34 +0000
Subject: [PATCH 26/56] fix: keep fractions of a second and the full range in
 arrays of timestamps

---
 src/types/column/date.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/types/column/date.rs b/src/types/column/date.rs
index 3832e71..ff6fd6a 100644
--- a/src/types/column/date.rs
+++ b/src/types/column/date.rs
@@ -110,25 +110,18 @@ impl ColumnFrom for Vec<Vec<NaiveDate>> {
 
 impl ColumnFrom for Vec<Vec<DateTime<Tz>>> {
     fn column_from<W: ColumnWrapper>(source: Self) -> W::Wrapper {
-        let fake: Vec<DateTime<Tz>> = Vec::with_capacity(source.len());
-        let inner = Vec::column_from::<ArcColumnWrapper>(fake);
-        let sql_type = inner.sql_type();
-
-        let mut data = ArrayColumnData {
-            inner,
-            offsets: List::with_capacity(source.len()),
-        };
+        let mut times: Vec<DateTime<Tz>> = Vec::with_capacity(source.len());
+        let mut offsets: List<u64> = List::with_capacity(source.len());
 
         for vs in source {
-            let mut inner = Vec::with_capacity(vs.len());
-            for v in vs {
-                let value: Value = Value::DateTime(v.timestamp() as u32, v.timezone());
-                inner.push(value);
-            }
-            data.push(Value::Array(sql_type.clone().into(), Arc::new(inner)));
+            times.extend(vs);
+            offsets.push(times.len() as u64);
         }
 
-        W::wrap(data)
+        W::wrap(ArrayColumnData {
+            inner: Vec::column_from::<ArcColumnWrapper>(times),
+            offsets,
+        })
     }
 }
 
-- 
2.43.0


From 47ca811880a9a498e199829ac551841a1a462551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:01 +0000
Subject: [PATCH 27/56] fix: insert blocks assembled from columns of a
 collected result

---
 src/types/column/concat.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index a547a61..95c17bb 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -6,7 +6,7 @@ use crate::{
     types::{SqlType, Value, ValueRef},
 };
 
-use super::column_data::{ArcColumnData, BoxColumnData, ColumnData};
+use super::column_data::{make_mut, ArcColumnData, BoxColumnData, ColumnData};
 
 pub struct ConcatColumnData {
     data: Vec<ArcColumnData>,
@@ -21,6 +21,17 @@ impl ConcatColumnData {
         Self { data, index }
     }
 
+    /// Copies all the chunks into a single column.
+    fn flatten(&self) -> BoxColumnData {
+        let mut result = self.data[0].clone_instance();
+        for chunk in self.data.iter().skip(1) {
+            for i in 0..chunk.len() {
+                result.push(chunk.at(i).into());
+            }
+        }
+        result
+    }
+
     fn check_columns(data: &[ArcColumnData]) {
         match data.first() {
             None => panic!("data should not be empty."),
@@ -44,16 +55,20 @@ impl ColumnData for ConcatColumnData {
         self.data[0].sql_type()
     }
 
-    fn save(&self, _: &mut Encoder, _: usize, _: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        self.flatten().save(encoder, start, end)
     }
 
     fn len(&self) -> usize {
         *self.index.last().unwrap()
     }
 
-    fn push(&mut self, _value: Value) {
-        unimplemented!()
+    fn push(&mut self, value: Value) {
+        if self.data.len() > 1 {
+            self.data = vec![ArcColumnData::from(self.flatten())];
+        }
+        make_mut(&mut self.data[0]).push(value);
+        self.index = build_index(self.data.iter().map(|x| x.len()));
     }
 
     fn at(&self, index: usize) -> ValueRef {
@@ -63,7 +78,7 @@ impl ColumnData for ConcatColumnData {
     }
 
     fn clone_instance(&self) -> BoxColumnData {
-        unimplemented!()
+        self.flatten()
     }
 
     unsafe fn get_internal(
-- 
2.43.0


From f5eb565960933133f17e29abc2b501899dbab756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 28/56] fix: do not panic on DateTime64 values beyond the years
 chrono supports

---
 src/types/column/datetime64.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 8a6fbcb..0acfd4f 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -137,6 +137,8 @@ pub(crate) fn to_native_datetime_opt(value: i64, precision: u32) -> Option<Naive
     NaiveDateTime::from_timestamp_opt(sec, nsec)
 }
 
+const MAX_SECONDS: i64 = 8_000_000_000_000;
+
 /// Seconds since the epoch (rounded down) and nanoseconds of that second.
 #[inline(always)]
 fn to_timestamp(value: i64, precision: u32) -> (i64, u32) {
@@ -147,7 +149,8 @@ fn to_timestamp(value: i64, precision: u32) -> (i64, u32) {
     let base10: i64 = 10;
     let units = base10.pow(precision);
 
-    let sec = value.div_euclid(units);
+    // the seconds chrono can represent in any time zone
+    let sec = value.div_euclid(units).clamp(-MAX_SECONDS, MAX_SECONDS);
     let rest = value.rem_euclid(units);
     let nsec = if precision > 9 {
         rest / base10.pow(precision - 9)
-- 
2.43.0


From 0c049557cef9d0bd3abaf60a87c92e5fbd018128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 29/56] fix: iterate maps nested in arrays inside maps or
 arrays

---
 src/types/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 38adc6c..c3a2577 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -456,9 +456,9 @@ impl SqlType {
 
     pub(crate) fn map_level(&self) -> u8 {
         match self {
-            SqlType::Nullable(inner) => inner.level(),
-            SqlType::Array(inner) => inner.level(),
-            SqlType::Map(_, value) => 1 + value.level(),
+            SqlType::Nullable(inner) => inner.map_level(),
+            SqlType::Array(inner) => inner.map_level(),
+            SqlType::Map(_, value) => 1 + value.map_level(),
             _ => 0,
         }
     }
-- 
2.43.0


From 2d3f6590eb8184f4257d3759f5ee1b32f6d43363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:53 +0000
Subject: [PATCH 30/56] fix: iterate dates and times inside Nullable, Array,
 Map and SimpleAggregateFunction columns

---
 src/types/column/array.rs           | 4 ++++
 src/types/column/map.rs             | 8 ++++++++
 src/types/column/mod.rs             | 6 +++++-
 src/types/column/nullable.rs        | 4 ++++
 src/types/column/simple_agg_func.rs | 4 ++++
 5 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 450e183..d8b144f 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -137,6 +137,10 @@ impl ColumnData for ArrayColumnData {
         }
     }
 
+    unsafe fn get_internals(&self, data: *mut (), level: u8, props: u32) -> Result<()> {
+        self.inner.get_internals(data, level, props)
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Array(inner_target) = target {
             if let Some(inner) = cast_nested(&self.inner, inner_target) {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index a90030c..c52c84e 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -144,6 +144,14 @@ impl ColumnData for MapColumnData {
         }
     }
 
+    unsafe fn get_internals(&self, data: *mut (), level: u8, props: u32) -> Result<()> {
+        match props {
+            1 => self.keys.get_internals(data, level, 0),
+            0 => self.values.get_internals(data, level, 0),
+            _ => self.values.get_internals(data, level, props - 2),
+        }
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Map(key, value) = target {
             let keys = cast_nested(&self.keys, key)?;
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index ba44c31..734eb84 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -174,7 +174,11 @@ impl<K: ColumnType> Column<K> {
     /// # ret.unwrap()
     /// ```
     pub fn iter<'a, T: Iterable<'a, K>>(&'a self) -> Result<T::Iter> {
-        <T as Iterable<'a, K>>::iter(self, self.sql_type())
+        let mut sql_type = self.sql_type();
+        while let SqlType::SimpleAggregateFunction(_, nested) = sql_type {
+            sql_type = nested.clone();
+        }
+        <T as Iterable<'a, K>>::iter(self, sql_type)
     }
 }
 
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index ff7a051..23b4d0a 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -104,6 +104,10 @@ impl ColumnData for NullableColumnData {
         }
     }
 
+    unsafe fn get_internals(&self, data: *mut (), level: u8, props: u32) -> Result<()> {
+        self.inner.get_internals(data, level, props)
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Nullable(inner_target) = target {
             if let Some(inner) = cast_nested(&self.inner, inner_target) {
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index fcb1207..ae68385 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -71,6 +71,10 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
         self.inner.get_internal(pointers, level, props)
     }
 
+    unsafe fn get_internals(&self, data: *mut (), level: u8, props: u32) -> Result<()> {
+        self.inner.get_internals(data, level, props)
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::SimpleAggregateFunction(func, inner_target) = target {
             if let Some(inner) = cast_nested(&self.inner, inner_target) {
-- 
2.43.0


From b07e4b633e34b33970fbf4f61c1ad64e65f5dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:58 +0000
Subject: [PATCH 31/56] fix: check the column type when iterating addresses and
 UUIDs

---
 src/types/column/iter/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index f34956f..eae75a9 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -816,9 +816,16 @@ impl<'a> Iterable<'a, Simple> for Ipv4Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv4) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv4.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -841,9 +848,16 @@ impl<'a> Iterable<'a, Simple> for Ipv6Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv6) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv6.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -866,9 +880,16 @@ impl<'a> Iterable<'a, Simple> for uuid::Uuid {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Uuid) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Uuid.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
-- 
2.43.0


From 3ca9fc98a5c0b9e265942fee3d4017c5b9e04007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:05 +0000
Subject: [PATCH 32/56] fix: iterate dates without shifting them by the time
 zone

---
 src/types/column/iter/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index eae75a9..9947666 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -186,7 +186,6 @@ pub struct DateIterator<'a> {
     ptr: *const u16,
     index: usize,
     len: usize,
-    tz: Tz,
     _marker: marker::PhantomData<&'a ()>,
 }
 
@@ -455,11 +454,9 @@ impl<'a> DateIterator<'a> {
         let current_value = *self.ptr.add(index);
         self.index += 1;
 
-        let time = self
-            .tz
-            .timestamp_opt(i64::from(current_value) * 24 * 3600, 0)
-            .unwrap();
-        time.date_naive()
+        let time =
+            NaiveDateTime::from_timestamp_opt(i64::from(current_value) * 24 * 3600, 0).unwrap();
+        time.date()
     }
 
     #[inline(always)]
@@ -1203,7 +1200,6 @@ impl<'a> Iterable<'a, Simple> for NaiveDate {
             index: 0,
             ptr: dt_inter.begin as *const u16,
             len,
-            tz: dt_inter.tz,
             _marker: marker::PhantomData,
         })
     }
-- 
2.43.0


From 2b700e2048020d5a9491a247f1a47120691858d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 33/56] fix: report a wrong element type of a collected column
 before iterating it

---
 src/types/column/iter/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 9947666..ff45376 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1431,6 +1431,16 @@ where
             &*data
         };
 
+        // all the chunks have the same type, so that a mismatch is found in the first of them
+        if let Some(first) = data.first() {
+            let column: Column<Simple> = Column {
+                name: String::new(),
+                data: first.clone(),
+                _marker: marker::PhantomData,
+            };
+            unsafe { T::iter(mem::transmute(&column), column_type.clone()) }?;
+        }
+
         Ok(ComplexIterator {
             column_type,
             data,
-- 
2.43.0


From e304f9e52c5381bc27899b1f1b20f349a8c3cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:14 +0000
Subject: [PATCH 34/56] fix: do not make a null vtable for LowCardinality
 iteration (undefined behaviour, fails in optimised builds)

---
 src/types/column/low_cardinality.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index a55ef04..11fe7f3 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -7,6 +7,7 @@ use crate::{
     types::{
         column::{
             column_data::{make_mut, ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            string::StringColumnData,
             ArcColumnWrapper, ColumnData, VectorColumnData,
         },
         SqlType, Value, ValueRef,
@@ -174,7 +175,7 @@ impl Default for LowCardinalityInternals {
     fn default() -> Self {
         LowCardinalityInternals {
             index: ptr::null_mut(),
-            accessor: unsafe { mem::transmute([ptr::null_mut::<()>(), ptr::null_mut()]) },
+            accessor: ptr::null::<StringColumnData>(),
         }
     }
 }
-- 
2.43.0


From 914758eaac62766999dda812f0397e9572744cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:19 +0000
Subject: [PATCH 35/56] fix: iterate maps with FixedString or Decimal keys, and
 maps inside SimpleAggregateFunction

---
 src/types/column/iter/mod.rs | 6 +++---
 src/types/mod.rs             | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index ff45376..aadb497 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -941,7 +941,7 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                     column.get_internal(
                         &[&mut buffer, &mut size as *mut usize as *mut *const u8],
                         0,
-                        0,
+                        props,
                     )?;
                     assert_ne!(buffer, ptr::null());
                     buffer
@@ -971,7 +971,7 @@ impl<'a> Iterable<'a, Simple> for Decimal {
     fn iter_with_props(
         column: &'a Column<Simple>,
         column_type: SqlType,
-        _props: u32,
+        props: u32,
     ) -> Result<Self::Iter> {
         let SqlType::Decimal(precision, scale) = column_type else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
@@ -991,7 +991,7 @@ impl<'a> Iterable<'a, Simple> for Decimal {
                     &mut nobits as *mut NoBits as *mut *const u8,
                 ],
                 0,
-                0,
+                props,
             )?;
             assert_ne!(ptr, ptr::null());
             (ptr, size, nobits)
diff --git a/src/types/mod.rs b/src/types/mod.rs
index c3a2577..5933b65 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -459,6 +459,7 @@ impl SqlType {
             SqlType::Nullable(inner) => inner.map_level(),
             SqlType::Array(inner) => inner.map_level(),
             SqlType::Map(_, value) => 1 + value.map_level(),
+            SqlType::SimpleAggregateFunction(_, inner) => inner.map_level(),
             _ => 0,
         }
     }
-- 
2.43.0


From 949146891b5562b227f43c65327260342af61fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:28 +0000
Subject: [PATCH 36/56] fix: reject rows that would leave the columns of a
 block at different sizes

---
 src/types/block/builder.rs | 36 ++++++++++++++++++++++++++++++++++++
 src/types/block/mod.rs     |  4 ++++
 2 files changed, 40 insertions(+)

diff --git a/src/types/block/builder.rs b/src/types/block/builder.rs
index 3ed3a2e..3c3f63c 100644
--- a/src/types/block/builder.rs
+++ b/src/types/block/builder.rs
@@ -15,6 +15,33 @@ use crate::{
 
 pub trait RowBuilder {
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()>;
+
+    /// Appends the names of the cells to `names`.
+    fn names<'a>(&'a self, _names: &mut Vec<&'a str>) {}
+}
+
+/// Checks that pushing a row with these cells keeps all columns of the block at the same size.
+pub(crate) fn check_names<K: ColumnType>(names: &[&str], block: &Block<K>) -> Result<()> {
+    if names.is_empty() {
+        return Ok(());
+    }
+
+    let mut known = 0;
+    for (i, name) in names.iter().enumerate() {
+        if names[..i].contains(name) {
+            return Err(Error::FromSql(FromSqlError::OutOfRange));
+        }
+        match name.get_index(&block.columns) {
+            Ok(_) => known += 1,
+            Err(err) if block.row_count() > 0 => return Err(err),
+            Err(_) => {}
+        }
+    }
+
+    if known < block.columns.len() {
+        return Err(Error::FromSql(FromSqlError::OutOfRange));
+    }
+    Ok(())
 }
 
 pub struct RNil;
@@ -67,6 +94,11 @@ where
         put_param(self.key, self.value, block)?;
         self.tail.apply(block)
     }
+
+    fn names<'a>(&'a self, names: &mut Vec<&'a str>) {
+        names.push(self.key.as_ref());
+        self.tail.names(names);
+    }
 }
 
 impl RowBuilder for Vec<(String, Value)> {
@@ -76,6 +108,10 @@ impl RowBuilder for Vec<(String, Value)> {
         }
         Ok(())
     }
+
+    fn names<'a>(&'a self, names: &mut Vec<&'a str>) {
+        names.extend(self.iter().map(|(k, _)| k.as_str()));
+    }
 }
 
 fn put_param<K: ColumnType>(
diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 26573f2..d321694 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -26,6 +26,7 @@ pub use self::{
     builder::{RCons, RNil, RowBuilder},
     row::{Row, Rows},
 };
+use self::builder::check_names;
 pub(crate) use self::{chunk_iterator::ChunkIterator, row::BlockRef};
 
 mod block_info;
@@ -260,6 +261,9 @@ impl<K: ColumnType> Block<K> {
 
     /// This method is a convenient way to pass row into a block.
     pub fn push<B: RowBuilder>(&mut self, row: B) -> Result<()> {
+        let mut names = Vec::new();
+        row.names(&mut names);
+        check_names(&names, self)?;
         row.apply(self)
     }
 
-- 
2.43.0


From 8aca319cd398752abb2d039b6414cf1086504a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:33 +0000
Subject: [PATCH 37/56] fix: rescale decimals pushed into a column of another
 scale

---
 src/types/column/decimal.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types/column/decimal.rs b/src/types/column/decimal.rs
index cab49c8..b3af65e 100644
--- a/src/types/column/decimal.rs
+++ b/src/types/column/decimal.rs
@@ -152,6 +152,13 @@ impl ColumnData for DecimalColumnData {
 
     fn push(&mut self, value: Value) {
         if let Value::Decimal(decimal) = value {
+            let decimal = if decimal.fits(self.scale, self.nobits) {
+                let scaled = decimal.clone().set_scale(self.scale);
+                assert_eq!(scaled, decimal, "scale != scale");
+                scaled
+            } else {
+                panic!("{decimal} does not fit into {}", self.sql_type());
+            };
             match self.nobits {
                 NoBits::N32 => {
                     let internal: i32 = decimal.internal();
-- 
2.43.0


From f8a98ec0898bff2632245c03805748525fecd6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 38/56] fix: print blocks with cells wider than the formatter's
 padding limit

---
 src/types/block/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index d321694..a32cfc8 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -406,6 +406,9 @@ impl<K: ColumnType> Block<K> {
     }
 }
 
+/// The formatter doesn't support larger paddings.
+const MAX_PRINT_WIDTH: usize = u16::MAX as usize - 2;
+
 impl<K: ColumnType> fmt::Debug for Block<K> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let titles: Vec<&str> = self.columns.iter().map(|column| column.name()).collect();
@@ -416,7 +419,7 @@ impl<K: ColumnType> fmt::Debug for Block<K> {
             .iter()
             .map(|t| t.chars().count())
             .zip(cells.iter().map(|w| column_width(w)))
-            .map(|(a, b)| cmp::max(a, b))
+            .map(|(a, b)| cmp::min(cmp::max(a, b), MAX_PRINT_WIDTH))
             .collect();
 
         print_line(f, &titles_len, "\n\u{250c}", '┬', "\u{2510}\n")?;
-- 
2.43.0


From f77ac3e2c8ab4598bae1730832b984b89afd3443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 39/56] fix: read nested server exceptions without recursion

---
 src/binary/parser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/binary/parser.rs b/src/binary/parser.rs
index 92ad480..36d64f9 100644
--- a/src/binary/parser.rs
+++ b/src/binary/parser.rs
@@ -163,6 +163,19 @@ impl<'i, T: Read> Parser<'i, T> {
     }
 
     fn parse_exception(&mut self) -> Result<Packet<()>> {
+        let (exception, mut has_nested) = self.parse_server_error()?;
+        warn!("server exception: {:?}", exception);
+
+        while has_nested {
+            let (nested, more) = self.parse_server_error()?;
+            warn!("server exception: {:?}", nested);
+            has_nested = more;
+        }
+
+        Ok(Packet::Exception(exception))
+    }
+
+    fn parse_server_error(&mut self) -> Result<(ServerError, bool)> {
         let exception = ServerError {
             code: self.reader.read_scalar()?,
             name: self.reader.read_string()?,
@@ -171,12 +184,7 @@ impl<'i, T: Read> Parser<'i, T> {
         };
 
         let has_nested: bool = self.reader.read_scalar()?;
-        if has_nested {
-            self.parse_exception()?;
-        }
-
-        warn!("server exception: {:?}", exception);
-        Ok(Packet::Exception(exception))
+        Ok((exception, has_nested))
     }
 
     fn parse_pong(&self) -> Packet<()> {
-- 
2.43.0


From cd4ed78e61ec722151a9bfd1132d7373303de4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 40/56] fix: bound the nesting of column types received from
 the server

---
 src/types/column/factory.rs | 28 ++++++++++++++++++++++++++++
 src/types/column/mod.rs     |  1 +
 2 files changed, 29 insertions(+)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 6a3066d..a2fbb3f 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -547,6 +547,34 @@ fn parse_low_cardinality(source: &str) -> Option<&str> {
     Some(inner_type)
 }
 
+/// Types are parsed and loaded recursively, so the server must not choose an arbitrary depth.
+const MAX_TYPE_DEPTH: usize = 100;
+
+pub(crate) fn check_type_depth(type_name: &str) -> Result<()> {
+    let mut depth = 0_usize;
+    let mut quoted = false;
+    let mut escaped = false;
+
+    for ch in type_name.chars() {
+        if escaped {
+            escaped = false;
+            continue;
+        }
+        match ch {
+            '\\' => escaped = quoted,
+            '\'' => quoted = !quoted,
+            '(' if !quoted => depth += 1,
+            ')' if !quoted => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+        if depth > MAX_TYPE_DEPTH {
+            return Err("Column type is nested too deeply.".to_string().into());
+        }
+    }
+
+    Ok(())
+}
+
 fn get_timezone(timezone: &Option<String>, tz: Tz) -> Result<Tz> {
     match timezone {
         None => Ok(tz),
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index 734eb84..04aecd8 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -186,6 +186,7 @@ impl<K: ColumnType> Column<K> {
     pub(crate) fn read<R: ReadEx>(reader: &mut R, size: usize, tz: Tz) -> Result<Column<K>> {
         let name = reader.read_string()?;
         let type_name = reader.read_string()?;
+        factory::check_type_depth(&type_name)?;
         let data =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, &type_name, size, tz)?;
         let column = Self {
-- 
2.43.0


From d6081004e0d737d85192f618ce993ef6b7f52ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:32 +0000
Subject: [PATCH 41/56] fix: send negative settings as negative numbers

---
 src/types/cmd.rs     | 2 ++
 src/types/options.rs | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/types/cmd.rs b/src/types/cmd.rs
index 74045c0..9ac037e 100644
--- a/src/types/cmd.rs
+++ b/src/types/cmd.rs
@@ -142,6 +142,8 @@ fn serialize_settings(encoder: &mut Encoder, options: &Options, format: Settings
                 // Float is written in string representation
                 SettingType::Float64(val) => encoder.string(val.to_string()),
                 SettingType::UInt64(val) => encoder.uvarint(*val),
+                // Signed numbers are written in zigzag encoding
+                SettingType::Int64(val) => encoder.uvarint(((val << 1) ^ (val >> 63)) as u64),
             }
         }
     } else {
diff --git a/src/types/options.rs b/src/types/options.rs
index c559bb9..fd1894f 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -145,6 +145,7 @@ pub enum SettingType {
     String(String),
     Bool(bool),
     UInt64(u64),
+    Int64(i64),
     Float64(f64),
 }
 
@@ -153,6 +154,7 @@ impl fmt::Display for SettingType {
         match &self {
             SettingType::Bool(val) => write!(f, "{val}"),
             SettingType::UInt64(val) => write!(f, "{val}"),
+            SettingType::Int64(val) => write!(f, "{val}"),
             SettingType::Float64(val) => write!(f, "{val}"),
             SettingType::String(val) => write!(f, "{val}"),
         }
@@ -179,13 +181,16 @@ impl From<u64> for SettingType {
 
 impl From<i32> for SettingType {
     fn from(val: i32) -> Self {
-        SettingType::UInt64(val as u64)
+        i64::from(val).into()
     }
 }
 
 impl From<i64> for SettingType {
     fn from(val: i64) -> Self {
-        SettingType::UInt64(val as u64)
+        match u64::try_from(val) {
+            Ok(val) => SettingType::UInt64(val),
+            Err(_) => SettingType::Int64(val),
+        }
     }
 }
 
-- 
2.43.0


From 6d03d544203e27c397831a39469f8f40448ce073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:38 +0000
Subject: [PATCH 42/56] fix: reject an empty row pushed into a block that has
 columns

---
 src/types/block/builder.rs | 21 ++++++++++++---------
 src/types/block/mod.rs     |  5 +++--
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/types/block/builder.rs b/src/types/block/builder.rs
index 3c3f63c..745333c 100644
--- a/src/types/block/builder.rs
+++ b/src/types/block/builder.rs
@@ -16,16 +16,14 @@ use crate::{
 pub trait RowBuilder {
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()>;
 
-    /// Appends the names of the cells to `names`.
-    fn names<'a>(&'a self, _names: &mut Vec<&'a str>) {}
+    /// Appends the names of the cells to `names`, returns false if they aren't known.
+    fn names<'a>(&'a self, _names: &mut Vec<&'a str>) -> bool {
+        false
+    }
 }
 
 /// Checks that pushing a row with these cells keeps all columns of the block at the same size.
 pub(crate) fn check_names<K: ColumnType>(names: &[&str], block: &Block<K>) -> Result<()> {
-    if names.is_empty() {
-        return Ok(());
-    }
-
     let mut known = 0;
     for (i, name) in names.iter().enumerate() {
         if names[..i].contains(name) {
@@ -83,6 +81,10 @@ impl RowBuilder for RNil {
     fn apply<K: ColumnType>(self, _block: &mut Block<K>) -> Result<()> {
         Ok(())
     }
+
+    fn names<'a>(&'a self, _names: &mut Vec<&'a str>) -> bool {
+        true
+    }
 }
 
 impl<T> RowBuilder for RCons<T>
@@ -95,9 +97,9 @@ where
         self.tail.apply(block)
     }
 
-    fn names<'a>(&'a self, names: &mut Vec<&'a str>) {
+    fn names<'a>(&'a self, names: &mut Vec<&'a str>) -> bool {
         names.push(self.key.as_ref());
-        self.tail.names(names);
+        self.tail.names(names)
     }
 }
 
@@ -109,8 +111,9 @@ impl RowBuilder for Vec<(String, Value)> {
         Ok(())
     }
 
-    fn names<'a>(&'a self, names: &mut Vec<&'a str>) {
+    fn names<'a>(&'a self, names: &mut Vec<&'a str>) -> bool {
         names.extend(self.iter().map(|(k, _)| k.as_str()));
+        true
     }
 }
 
diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index a32cfc8..69981d8 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -262,8 +262,9 @@ impl<K: ColumnType> Block<K> {
     /// This method is a convenient way to pass row into a block.
     pub fn push<B: RowBuilder>(&mut self, row: B) -> Result<()> {
         let mut names = Vec::new();
-        row.names(&mut names);
-        check_names(&names, self)?;
+        if row.names(&mut names) {
+            check_names(&names, self)?;
+        }
         row.apply(self)
     }
 
-- 
2.43.0


From 52ca7bb449d11990af5e30ef4684de63a91e9524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:44 +0000
Subject: [PATCH 43/56] fix: reject decimals of precision 0

---
 src/types/column/factory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index a2fbb3f..2969b74 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -374,7 +374,7 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
 
     match (precision, scale, nobits) {
         (Some(precision), Some(scale), None) => {
-            if scale > precision {
+            if precision == 0 || scale > precision {
                 return None;
             }
 
-- 
2.43.0


From 8ecd5e6fdde683d78108b6e348139d07b43f4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:31 +0000
Subject: [PATCH 44/56] fix: export the Certificate type that the certificate
 option takes

---
 src/types/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 5933b65..3668731 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -8,6 +8,8 @@ use lazy_static::lazy_static;
 
 use crate::{errors::ServerError, types::column::datetime64::DEFAULT_TZ};
 
+#[cfg(feature = "tls")]
+pub use self::options::Certificate;
 pub use self::{
     block::{Block, RCons, RNil, Row, RowBuilder, Rows},
     column::{Column, ColumnType, Complex, Simple},
-- 
2.43.0


From fec022f11222239de1cb3793393ea9baed013cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:36 +0000
Subject: [PATCH 45/56] fix: async-std: keep the kind of errors that pass
 through a time limit

---
 src/errors/mod.rs | 7 +++++++
 src/lib.rs        | 7 +------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/errors/mod.rs b/src/errors/mod.rs
index 5d59fb0..3079962 100644
--- a/src/errors/mod.rs
+++ b/src/errors/mod.rs
@@ -193,6 +193,13 @@ impl From<Elapsed> for Error {
     }
 }
 
+#[cfg(feature = "async_std")]
+impl From<async_std::future::TimeoutError> for Error {
+    fn from(_err: async_std::future::TimeoutError) -> Self {
+        Error::Driver(DriverError::Timeout)
+    }
+}
+
 impl From<ParseError> for Error {
     fn from(err: ParseError) -> Self {
         Error::Url(UrlError::Parse(err))
diff --git a/src/lib.rs b/src/lib.rs
index c8975a5..5a0112e 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -635,12 +635,7 @@ async fn with_timeout<F, T>(future: F, duration: Duration) -> F::Output
 where
     F: Future<Output = Result<T>>,
 {
-    use async_std::io;
-    use futures_util::future::TryFutureExt;
-
-    io::timeout(duration, future.map_err(Into::into))
-        .map_err(Into::into)
-        .await
+    async_std::future::timeout(duration, future).await?
 }
 
 #[cfg(not(feature = "async_std"))]
-- 
2.43.0


From bbd3c46d53b109fd8f6ccc9ccf6d14219c02f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:31 +0000
Subject: [PATCH 46/56] fix: send execute and insert queries in the layout of
 the connection that carries them

---
 src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a0112e..45d4be1 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,13 +394,13 @@ impl ClientHandle {
         let timeout = try_opt!(self.context.options.get())
             .execute_timeout
             .unwrap_or(Duration::MAX);
-        let context = self.context.clone();
         let query = Query::from(sql);
         with_timeout(
             async {
                 self.wrap_future(move |c| {
                     info!("[execute query] {}", query.get_sql());
 
+                    let context = c.context.clone();
                     let transport = c.get_inner();
 
                     async move {
@@ -449,12 +449,11 @@ impl ClientHandle {
             .insert_timeout
             .unwrap_or(Duration::MAX);
 
-        let context = self.context.clone();
-
         with_timeout(
             async {
                 self.wrap_future(move |c| {
                     info!("[insert]     {}", query.get_sql());
+                    let context = c.context.clone();
                     let transport = c.get_inner();
 
                     async move {
-- 
2.43.0


From b4d3a255131c1e9f1fd156304e80d239a9787588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:26 +0000
Subject: [PATCH 47/56] fix: widen the index of a LowCardinality column when
 the dictionary outgrows it

---
 src/types/column/low_cardinality.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index 11fe7f3..8552c2e 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -144,7 +144,7 @@ impl LowCardinalityIndex {
     }
 
     fn push(&mut self, value: usize) {
-        if self.len() + 1 > self.max_len() {
+        while self.len() + 1 > self.max_len() || value > self.max_len() {
             *self = self.inc_max_len();
         }
         match self {
-- 
2.43.0


From 75c5e83acd3ff36dc03a6bcfef0d8fb63bc3ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:07 +0000
Subject: [PATCH 48/56] fix: accept progress and profile notices in the answer
 to an insert

---
 src/io/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 8bc5186..06be9f1 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -321,7 +321,9 @@ impl PacketStream {
                 Ok(Packet::Eof(inner)) => h = Some(inner),
                 Ok(Packet::Block(block)) => b = Some(block),
                 Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
-                Ok(Packet::TableColumns(_)) => (),
+                Ok(Packet::TableColumns(_))
+                | Ok(Packet::ProfileInfo(_))
+                | Ok(Packet::Progress(_)) => (),
                 Err(e) => return Err(Error::Io(e)),
                 _ => return Err(Error::Driver(DriverError::UnexpectedPacket)),
             }
-- 
2.43.0


From 49d0aea885109a12ebb3be4a6d207c34f994e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 49/56] fix: convert columns of collected results like those of
 single blocks

---
 src/types/column/concat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index 95c17bb..381b574 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -6,7 +6,7 @@ use crate::{
     types::{SqlType, Value, ValueRef},
 };
 
-use super::column_data::{make_mut, ArcColumnData, BoxColumnData, ColumnData};
+use super::column_data::{cast_nested, make_mut, ArcColumnData, BoxColumnData, ColumnData};
 
 pub struct ConcatColumnData {
     data: Vec<ArcColumnData>,
@@ -95,6 +95,10 @@ impl ColumnData for ConcatColumnData {
         }
     }
 
+    fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
+        cast_nested(&ArcColumnData::from(self.flatten()), target)
+    }
+
     fn get_timezone(&self) -> Option<Tz> {
         self.data.first().and_then(|chunk| chunk.get_timezone())
     }
-- 
2.43.0


From 40fc81750fb6a4ffa264bd6d242a221c7968326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 50/56] fix: a finished request for a handle does not count as
 waiting until it is dropped

---
 src/pool/futures/get_handle.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pool/futures/get_handle.rs b/src/pool/futures/get_handle.rs
index 3e831a0..bcba4de 100644
--- a/src/pool/futures/get_handle.rs
+++ b/src/pool/futures/get_handle.rs
@@ -35,7 +35,14 @@ impl Future for GetHandle {
             *this.waiting = true;
             this.pool.inner.waiting.fetch_add(1, Ordering::AcqRel);
         }
-        this.pool.poll(cx)
+        let inner = this.pool.inner.clone();
+        let result = this.pool.poll(cx);
+        if result.is_ready() {
+            // it may be a while until the future is dropped
+            *this.waiting = false;
+            inner.stop_waiting();
+        }
+        result
     }
 }
 
-- 
2.43.0


From 25f74bb3dcba81c733b7be9e94b452f1419ecca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:16 +0000
Subject: [PATCH 51/56] fix: escape backslashes in column names and quote names
 of non-ASCII digits on insert

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 45d4be1..078417e 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -617,7 +617,7 @@ impl ClientHandle {
 }
 
 fn column_name_to_string(name: &str) -> Result<String> {
-    if name.chars().all(|ch| ch.is_numeric()) {
+    if name.chars().all(|ch| ch.is_ascii_digit()) {
         return Ok(name.to_string());
     }
 
@@ -626,7 +626,7 @@ fn column_name_to_string(name: &str) -> Result<String> {
         return Err(Error::Other(err.into()));
     }
 
-    Ok(format!("`{name}`"))
+    Ok(format!("`{}`", name.replace('\\', "\\\\")))
 }
 
 #[cfg(feature = "async_std")]
-- 
2.43.0


From 255f707c5a86694fbf7d1367066a9b4c8fe375e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:18 +0000
Subject: [PATCH 52/56] hook: a lower limit of rows per insert piece, under
 --cfg clickhouse_rs_verify

---
 src/lib.rs             |  4 ++++
 src/types/block/mod.rs |  2 ++
 src/verify.rs          | 26 ++++++++++++++++++++++++++
 3 files changed, 32 insertions(+)
 create mode 100644 src/verify.rs

diff --git a/src/lib.rs b/src/lib.rs
index 078417e..cd9d7eb 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,7 @@
 //! ```
 
 #![recursion_limit = "1024"]
+#![allow(unexpected_cfgs)]
 
 use std::{fmt, future::Future, time::Duration};
 
@@ -144,6 +145,9 @@ pub mod pool;
 mod retry_guard;
 /// Clickhouse types.
 pub mod types;
+/// A hook of the verification harness, compiled only with `--cfg clickhouse_rs_verify`.
+#[cfg(clickhouse_rs_verify)]
+pub mod verify;
 
 /// This macro is a convenient way to pass row into a block.
 ///
diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 69981d8..2d2e1a9 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -403,6 +403,8 @@ impl<K: ColumnType> Block<K> {
     }
 
     pub(crate) fn chunks(self, n: usize) -> ChunkIterator<K> {
+        #[cfg(clickhouse_rs_verify)]
+        let n = crate::verify::insert_rows(n);
         ChunkIterator::new(n, self)
     }
 }
diff --git a/src/verify.rs b/src/verify.rs
new file mode 100644
index 0000000..a2bb371
--- /dev/null
+++ b/src/verify.rs
@@ -0,0 +1,26 @@
+use std::cell::Cell;
+
+thread_local! {
+    static INSERT_ROWS: Cell<usize> = const { Cell::new(0) };
+    static ASKED: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Lowers the number of rows that one piece of an INSERT may have, for this thread (0: not at all).
+pub fn set_insert_rows(n: usize) {
+    INSERT_ROWS.with(|x| x.set(n));
+}
+
+/// How often a lowered limit was applied on this thread.
+pub fn insert_rows_asked() -> usize {
+    ASKED.with(|x| x.get())
+}
+
+pub(crate) fn insert_rows(n: usize) -> usize {
+    match INSERT_ROWS.with(|x| x.get()) {
+        0 => n,
+        k => {
+            ASKED.with(|x| x.set(x.get() + 1));
+            k.min(n)
+        }
+    }
+}
-- 
2.43.0


From b0583d438cb4019bb8abb87baa4d07947964ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:38 +0000
Subject: [PATCH 53/56] fix: URL parameter values are percent-decoded once

---
 src/types/options.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index fd1894f..1cc990a 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -596,8 +596,7 @@ fn parse_param<'a, F, T, E>(
 where
     F: Fn(&str) -> std::result::Result<T, E>,
 {
-    let source = percent_decode(value.as_bytes()).decode_utf8_lossy();
-    match parse(source.as_ref()) {
+    match parse(value.as_ref()) {
         Ok(value) => Ok(value),
         Err(_) => Err(UrlError::InvalidParamValue {
             param: param.into(),
-- 
2.43.0


From 8f87d98cda89155726dae252c8c5a6a76996171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:45 +0000
Subject: [PATCH 54/56] fix: times beyond the year 9999 can be printed

---
 src/types/value.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/types/value.rs b/src/types/value.rs
index 451182e..c6822ff 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -192,6 +192,15 @@ impl Value {
     }
 }
 
+/// RFC 2822 knows only the years which have four digits.
+fn fmt_time(time: &DateTime<Tz>, f: &mut fmt::Formatter) -> fmt::Result {
+    if (0..=9999).contains(&time.year()) {
+        write!(f, "{}", time.to_rfc2822())
+    } else {
+        fmt::Display::fmt(time, f)
+    }
+}
+
 impl fmt::Display for Value {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
@@ -223,11 +232,9 @@ impl fmt::Display for Value {
             Value::DateTime64(value, params) => {
                 let (precision, tz) = params;
                 let time = to_datetime(*value, *precision, *tz);
-                write!(f, "{}", time.to_rfc2822())
-            }
-            Value::ChronoDateTime(time) => {
-                write!(f, "{}", time.to_rfc2822())
+                fmt_time(&time, f)
             }
+            Value::ChronoDateTime(time) => fmt_time(time, f),
             Value::Date(v) if f.alternate() => {
                 let date = NaiveDate::from_ymd_opt(1970, 1, 1)
                     .map(|unix_epoch| unix_epoch + Duration::days((*v).into()))
-- 
2.43.0


From 3c199c9028ebf5ba4b487ee3e653ffd444d36331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:54 +0000
Subject: [PATCH 55/56] verify: packet hook for coverage-guided search
 (guarded)

---
 src/lib.rs            |  4 ++++
 src/verify_packets.rs | 53 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+)
 create mode 100644 src/verify_packets.rs

diff --git a/src/lib.rs b/src/lib.rs
index cd9d7eb..a74609c 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,6 +149,10 @@ pub mod types;
 #[cfg(clickhouse_rs_verify)]
 pub mod verify;
 
+/// A hook of the verification harness, compiled only with `--cfg clickhouse_rs_verify_packets`.
+#[cfg(clickhouse_rs_verify_packets)]
+pub mod verify_packets;
+
 /// This macro is a convenient way to pass row into a block.
 ///
 /// ```rust
diff --git a/src/verify_packets.rs b/src/verify_packets.rs
new file mode 100644
index 0000000..59b3838
--- /dev/null
+++ b/src/verify_packets.rs
@@ -0,0 +1,53 @@
+use chrono_tz::Tz;
+
+use crate::{
+    binary::{Encoder, Parser},
+    errors::{Error, Result},
+    io::transport::TransportInfo,
+    types::{Block, ColumnType, Complex, Packet},
+};
+
+/// Reads the packets of a server, gives the blocks to `block`, and returns what ended the data.
+pub fn read_packets(
+    mut data: &[u8],
+    revision: u64,
+    timezone: Tz,
+    compress: bool,
+    block: &mut dyn FnMut(Block),
+) -> Error {
+    let info = TransportInfo {
+        timezone: Some(timezone),
+        revision,
+        compress,
+    };
+    loop {
+        match Parser::new(&mut data, &info).parse_packet(revision) {
+            Ok(Packet::Block(b)) => block(b),
+            Ok(_) => {}
+            Err(err) => return err,
+        }
+    }
+}
+
+/// Writes a block the way an INSERT does.
+pub fn write_block<K: ColumnType>(block: &Block<K>, compress: bool) -> Vec<u8> {
+    let mut encoder = Encoder::new();
+    block.write(&mut encoder, compress);
+    encoder.get_buffer()
+}
+
+/// Reads one block, and returns what is left of the data.
+pub fn read_block(mut data: &[u8], timezone: Tz, compress: bool) -> Result<(Block, &[u8])> {
+    let block = Block::load(&mut data, timezone, compress)?;
+    Ok((block, data))
+}
+
+/// Cuts a block the way an INSERT does.
+pub fn pieces(block: &Block, rows: usize) -> Vec<Block> {
+    block.clone().chunks(rows).collect()
+}
+
+/// Puts the blocks of a result together.
+pub fn concat(blocks: &[Block]) -> Result<Block<Complex>> {
+    Block::try_concat(blocks)
+}
-- 
2.43.0


From 2a52ec6d0e20575dc6c65a1a631a3122011424d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:42 +0000
Subject: [PATCH 56/56] fix: a FixedString type beyond the server's maximum
 size made an insert allocate gigabytes and abort

---
 src/types/column/factory.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 2969b74..73a4c57 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -252,9 +252,14 @@ fn type_args<'a>(source: &'a str, name: &str) -> Option<&'a str> {
         .strip_suffix(')')
 }
 
+/// The largest size that the server accepts for a `FixedString`.
+const MAX_FIXED_STRING_SIZE: usize = 0x00ff_ffff;
+
 fn parse_fixed_string(source: &str) -> Option<usize> {
     let str_len = type_args(source, "FixedString")?.parse::<usize>().ok()?;
-    (str_len > 0).then_some(str_len)
+    (1..=MAX_FIXED_STRING_SIZE)
+        .contains(&str_len)
+        .then_some(str_len)
 }
 
 fn parse_nullable_type(source: &str) -> Option<&str> {
-- 
2.43.0

