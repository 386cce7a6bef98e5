From dff418e5d2daac16fdc29a9dea04cd884524bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 1/6] fix: clear bold before faint and faint before bold in
 ANSI output

Bold (1) and faint (2) are independent attributes on a terminal, each only
cleared by 22 or 0. Going directly from one to the other left both on.
---
 ansi/src/ansi.rs |  3 ++-
 ansi/src/io.rs   |  3 ++-
 ansi/src/util.rs | 14 +++++++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ansi/src/ansi.rs b/ansi/src/ansi.rs
index 899e015..5f69658 100644
--- a/ansi/src/ansi.rs
+++ b/ansi/src/ansi.rs
@@ -55,11 +55,12 @@ impl<T: fmt::Write> Write for Ansi<T> {
         if self.current != style && style == Style::default() {
             self.inner.write_str("\x1b[0m")?;
         } else {
+            let original = self.current.intensity;
             let diff = style.diff_from(self.current);
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity.map(|new| util::intensity(original, new)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index d54e5be..310d196 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -57,11 +57,12 @@ impl<T: std::io::Write> Write for Ansi<T> {
         if self.current != style && style == Style::default() {
             self.inner.write_all(b"\x1b[0m")?;
         } else {
+            let original = self.current.intensity;
             let diff = style.diff_from(self.current);
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity.map(|new| util::intensity(original, new)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/util.rs b/ansi/src/util.rs
index fd7fbca..6c44640 100644
--- a/ansi/src/util.rs
+++ b/ansi/src/util.rs
@@ -50,11 +50,15 @@ pub(crate) fn background(color: Color) -> &'static str {
     }
 }
 
-pub(crate) fn intensity(intensity: Intensity) -> &'static str {
-    match intensity {
-        Intensity::Bold => "1",
-        Intensity::Faint => "2",
-        Intensity::Normal => "22",
+pub(crate) fn intensity(original: Intensity, intensity: Intensity) -> &'static str {
+    match (original, intensity) {
+        // Bold and faint are independent attributes of a terminal, setting one does
+        // not reset the other.
+        (Intensity::Faint, Intensity::Bold) => "22;1",
+        (Intensity::Bold, Intensity::Faint) => "22;2",
+        (_, Intensity::Bold) => "1",
+        (_, Intensity::Faint) => "2",
+        (_, Intensity::Normal) => "22",
         _ => "22",
     }
 }
-- 
2.43.0


From 3e4981497165606f6a42b4b14549881946cb480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 2/6] fix: request default colours and normal intensity named
 in a format string

Attributes were applied to the default style and turned back into a difference
from it, which dropped fg=default, bg=default and normal, so they had no effect
inside text that is styled otherwise.
---
 macros/src/format.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 896a3eb..7286c5f 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -9,7 +9,7 @@ use nom::{
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
-use stylish_style::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};
+use stylish_style::{Color, Intensity, StyleDiff};
 
 fn identifier(input: &str) -> IResult<&str, &str> {
     recognize(pair(
@@ -48,19 +48,25 @@ impl<'a> Parse<'a> for Intensity {
     }
 }
 
-impl<'a> Parse<'a> for Box<dyn Restyle> {
-    #[allow(trivial_casts)]
+#[derive(Debug, Clone, Copy)]
+enum Attribute {
+    Foreground(Color),
+    Background(Color),
+    Intensity(Intensity),
+}
+
+impl<'a> Parse<'a> for Attribute {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(
                 preceded(tag("fg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Foreground(color)) as _,
+                Attribute::Foreground,
             ),
             map(
                 preceded(tag("bg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Background(color)) as _,
+                Attribute::Background,
             ),
-            map(Intensity::parse, |intensity| Box::new(intensity) as _),
+            map(Intensity::parse, Attribute::Intensity),
         ))(input)
     }
 }
@@ -70,11 +76,17 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(<Box<dyn Restyle>>::parse)),
-            |restyles| {
-                Style::default()
-                    .with(restyles.as_slice())
-                    .diff_from(Style::default())
+            separated_list0(tag(","), cut(Attribute::parse)),
+            |attributes| {
+                let mut diff = StyleDiff::default();
+                for attribute in attributes {
+                    match attribute {
+                        Attribute::Foreground(color) => diff.foreground = Some(color),
+                        Attribute::Background(color) => diff.background = Some(color),
+                        Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
+                    }
+                }
+                diff
             },
         )(input)
     }
-- 
2.43.0


From a6635d097d73313dc721c170050ce03f28ac9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 3/6] fix: accept an empty attribute list and a trailing comma

The documented grammar is
attributes := '(' [attribute [',' attribute]* [',']] ')'
but both `()` and `(bold,)` were rejected.
---
 macros/src/format.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 7286c5f..fa602f1 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{anychar, char, digit1, none_of, satisfy},
     combinator::{all_consuming, cut, map, map_res, opt, recognize, value},
-    multi::{many0, many1, separated_list0},
+    multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
@@ -76,10 +76,13 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(Attribute::parse)),
+            opt(terminated(
+                separated_list1(tag(","), Attribute::parse),
+                opt(tag(",")),
+            )),
             |attributes| {
                 let mut diff = StyleDiff::default();
-                for attribute in attributes {
+                for attribute in attributes.unwrap_or_default() {
                     match attribute {
                         Attribute::Foreground(color) => diff.foreground = Some(color),
                         Attribute::Background(color) => diff.background = Some(color),
-- 
2.43.0


From abce232ec12cbace7b7da9f8481559b8205e5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 4/6] fix: keep user items out of the expansion of style
 attributes

The expansion used the prelude's Some and Default and a variable called diff, so
it failed to compile next to user items of these names or without the prelude.
---
 core/src/lib.rs         |  2 +-
 macros/src/to_tokens.rs | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d88c45d..eb5daaf 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -48,7 +48,7 @@ pub use self::{format::format, string::String};
 #[cfg(feature = "macros")]
 #[doc(hidden)]
 pub mod 𓀄 {
-    pub use core::{fmt, option::Option};
+    pub use core::{default::Default, fmt, option::Option};
 
     pub use stylish_macros::{format_args, format_args_nl};
     pub use with_builtin_macros::with_builtin;
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 5a6d4ea..fbd8a81 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -98,20 +98,24 @@ impl<'a> ToTokens for Scoped<'a, StyleDiff> {
             ..
         } = self.as_ref();
         let mut inner = TokenStream::new();
-        quote!(let mut diff = #export::StyleDiff::default();).to_tokens(&mut inner);
+        quote!(let mut __stylish_diff = <#export::StyleDiff as #export::Default>::default();)
+            .to_tokens(&mut inner);
         if let Some(foreground) = foreground {
             let foreground = self.scope(foreground);
-            quote!(diff.foreground = Some(#foreground);).to_tokens(&mut inner);
+            quote!(__stylish_diff.foreground = #export::Option::Some(#foreground);)
+                .to_tokens(&mut inner);
         }
         if let Some(background) = background {
             let background = self.scope(background);
-            quote!(diff.background = Some(#background);).to_tokens(&mut inner);
+            quote!(__stylish_diff.background = #export::Option::Some(#background);)
+                .to_tokens(&mut inner);
         }
         if let Some(intensity) = intensity {
             let intensity = self.scope(intensity);
-            quote!(diff.intensity = Some(#intensity);).to_tokens(&mut inner);
+            quote!(__stylish_diff.intensity = #export::Option::Some(#intensity);)
+                .to_tokens(&mut inner);
         }
-        quote!(diff).to_tokens(&mut inner);
+        quote!(__stylish_diff).to_tokens(&mut inner);
         quote!({ #inner }).to_tokens(tokens);
     }
 }
-- 
2.43.0


From e15cceb14bd2ecab1dbd4f93ed9853b174d50aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 5/6] fix: reject duplicate named arguments

Only the last one of a name was ever formatted; the others were ignored instead
of being reported as unused.
---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index a8632fb..9891bcb 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -121,6 +121,9 @@ fn format_args_impl(
         .enumerate()
         .map(|(i, s)| (s, i))
         .collect();
+    if named_args_names.len() != named_args_values.len() {
+        panic!("duplicate named argument");
+    }
     let named_args_values = named_args_values.into_iter();
     let named_args_values = quote! {
         (#(&#named_args_values,)*)
-- 
2.43.0


From 127b89ad728480827d0a952936160c7e4f85afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 6/6] fix: format! macros did not compile next to a static or
 unit struct called res

---
 ansi/src/format.rs  | 4 ++--
 core/src/format.rs  | 4 ++--
 html/src/format.rs  | 4 ++--
 plain/src/format.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ansi/src/format.rs b/ansi/src/format.rs
index fac9f0f..b7138b4 100644
--- a/ansi/src/format.rs
+++ b/ansi/src/format.rs
@@ -17,8 +17,8 @@ use crate::Ansi;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
diff --git a/core/src/format.rs b/core/src/format.rs
index 9d9c19b..e87fe77 100644
--- a/core/src/format.rs
+++ b/core/src/format.rs
@@ -18,8 +18,8 @@ use crate::{Arguments, String, Write};
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::format_args!($($arg)*));
+        __stylish_res
     }};
 }
 
diff --git a/html/src/format.rs b/html/src/format.rs
index 51ba819..d669893 100644
--- a/html/src/format.rs
+++ b/html/src/format.rs
@@ -17,8 +17,8 @@ use crate::Html;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
diff --git a/plain/src/format.rs b/plain/src/format.rs
index 6a68159..9616a79 100644
--- a/plain/src/format.rs
+++ b/plain/src/format.rs
@@ -16,8 +16,8 @@ use crate::Plain;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
-- 
2.43.0

