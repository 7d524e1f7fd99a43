From 230972c7de33d242ee831c58cca493b134e47ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 01/12] fix: accept t, n, f, r and backslash in unquoted
 attribute values

The character set was a raw string, so the escapes excluded the letters
themselves (<input type=text> failed to parse, target=_blank was split)
while real tabs and newlines were taken as part of the value.
---
 src/parser/html/strict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 16359c3..1ab34d2 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -108,7 +108,7 @@ where
                 multispace0,
                 alt((
                     // unquoted
-                    separated_pair(attr, ws(char('=')), is_not(r#"\t\n\f\r "'=<>`"#)),
+                    separated_pair(attr, ws(char('=')), is_not("\t\n\x0c\r \"'=<>`")),
                     // quoted
                     separated_pair(
                         attr,
-- 
2.43.0


From 6a98e23db6e4845ce090505546a34bc661639c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 02/12] fix: end attribute names at tabs and newlines

<a disabled
checked> produced one attribute whose name contained the newline.
---
 src/parser/html/strict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 1ab34d2..96de793 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -64,7 +64,7 @@ fn attr<'a, E>(i: &'a str) -> IResult<&'a str, &'a str, E>
 where
     E: nom::error::ParseError<&'a str>,
 {
-    is_not(r#" "'>/="#)(i)
+    is_not(" \t\r\n\"'>/=")(i)
 }
 
 fn ws<'a, F, O, E: nom::error::ParseError<&'a str>>(
-- 
2.43.0


From 9b6c4f428331b4b945795700a9aafec78b13e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 03/12] fix: match void and raw element names as a whole and
 accept hyphenated tag names

<colgroup> was parsed as a void <col> with an attribute "group", and
<my-widget> as an element "my" with an attribute "-widget".
---
 src/parser/html/strict.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 96de793..6e3a50e 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -13,13 +13,19 @@ use nom::{
         tag,
         tag_no_case,
         take_until,
+        take_while,
     },
     character::complete::{
         alphanumeric1,
         char,
         multispace0,
+        satisfy,
+    },
+    combinator::{
+        map,
+        not,
+        recognize,
     },
-    combinator::map,
     multi::many0,
     sequence::{
         delimited,
@@ -67,6 +73,26 @@ where
     is_not(" \t\r\n\"'>/=")(i)
 }
 
+fn is_name_char(c: char) -> bool {
+    !c.is_ascii() || c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | ':' | '.')
+}
+
+fn tag_name<'a, E>(i: &'a str) -> IResult<&'a str, &'a str, E>
+where
+    E: nom::error::ParseError<&'a str>,
+{
+    recognize(pair(alphanumeric1, take_while(is_name_char)))(i)
+}
+
+/// The entire tag name must match, not just a prefix of it
+fn whole<'a, F, E>(inner: F) -> impl FnMut(&'a str) -> IResult<&'a str, &'a str, E>
+where
+    F: Parser<&'a str, &'a str, E>,
+    E: nom::error::ParseError<&'a str>,
+{
+    terminated(inner, not(satisfy(is_name_char)))
+}
+
 fn ws<'a, F, O, E: nom::error::ParseError<&'a str>>(
     inner: F,
 ) -> impl FnMut(&'a str) -> IResult<&'a str, O, E>
@@ -132,7 +158,7 @@ where
 
 fn void(i: &str) -> IResult<&str, HTMLNode<&str>> {
     map(
-        start_tag(alt((
+        start_tag(whole(alt((
             tag_no_case("area"),
             tag_no_case("base"),
             tag_no_case("br"),
@@ -146,7 +172,7 @@ fn void(i: &str) -> IResult<&str, HTMLNode<&str>> {
             tag_no_case("source"),
             tag_no_case("track"),
             tag_no_case("wbr"),
-        ))),
+        )))),
         |(name, attrs, _)| HTMLNode::Void {
             name,
             attrs: attrs.into_iter().collect(),
@@ -155,7 +181,7 @@ fn void(i: &str) -> IResult<&str, HTMLNode<&str>> {
 }
 
 fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
-    let start = start_tag(alt((tag_no_case("script"), tag_no_case("style"))))(i)?;
+    let start = start_tag(whole(alt((tag_no_case("script"), tag_no_case("style")))))(i)?;
 
     let (left, (name, attrs, closed)) = start;
 
@@ -184,7 +210,7 @@ fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
 }
 
 fn element(i: &str) -> IResult<&str, HTMLNode<&str>> {
-    let start = start_tag(alphanumeric1)(i)?;
+    let start = start_tag(tag_name)(i)?;
 
     let (left, (name, attrs, closed)) = start;
 
-- 
2.43.0


From 225e099205ef8fffa80ee5cccc576adcd2f8f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 04/12] fix: do not panic on a KELVIN SIGN in a tag name

nom's tag_no_case compares with Unicode lowercasing and then splits at the
byte length of the tag: <k></U+212A> and <linU+212A> panicked with "byte
index is not a char boundary".
---
 src/parser/html/strict.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 6e3a50e..4799588 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -11,7 +11,6 @@ use nom::{
     bytes::complete::{
         is_not,
         tag,
-        tag_no_case,
         take_until,
         take_while,
     },
@@ -73,6 +72,21 @@ where
     is_not(" \t\r\n\"'>/=")(i)
 }
 
+/// ASCII case-insensitive; nom's version slices inside a character if a longer
+/// one (U+212A KELVIN SIGN) lowercases to a letter of the tag
+fn tag_no_case<'a, 't, E>(name: &'t str) -> impl FnMut(&'a str) -> IResult<&'a str, &'a str, E> + 't
+where
+    E: nom::error::ParseError<&'a str>,
+{
+    move |i: &'a str| match i.get(..name.len()) {
+        Some(found) if found.eq_ignore_ascii_case(name) => Ok((&i[name.len()..], found)),
+        _ => Err(nom::Err::Error(E::from_error_kind(
+            i,
+            nom::error::ErrorKind::Tag,
+        ))),
+    }
+}
+
 fn is_name_char(c: char) -> bool {
     !c.is_ascii() || c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | ':' | '.')
 }
-- 
2.43.0


From 5e3c43cb542afa1762d9913ca68b52e38b64df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 05/12] fix: end script and style at their closing tag only, in
 any case

The content was cut at the first case-sensitive "</script", so
<SCRIPT>..</script> was parsed as markup and a "</scripty>" inside a
string made the document fail.
---
 src/parser/html/strict.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 4799588..4954946 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -194,6 +194,26 @@ fn void(i: &str) -> IResult<&str, HTMLNode<&str>> {
     )(i)
 }
 
+/// Everything up to the first closing tag for `name`
+fn raw_content<'a>(name: &str, i: &'a str) -> IResult<&'a str, &'a str> {
+    let mut close = delimited(
+        tag::<_, _, nom::error::Error<&str>>("</"),
+        tag_no_case(name),
+        preceded(multispace0, char('>')),
+    );
+
+    for (at, _) in i.match_indices("</") {
+        if let Ok((left, _)) = close(&i[at..]) {
+            return Ok((left, &i[..at]));
+        }
+    }
+
+    Err(nom::Err::Error(nom::error::Error::new(
+        i,
+        nom::error::ErrorKind::TakeUntil,
+    )))
+}
+
 fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
     let start = start_tag(whole(alt((tag_no_case("script"), tag_no_case("style")))))(i)?;
 
@@ -207,14 +227,7 @@ fn raw_element(i: &str) -> IResult<&str, HTMLNode<&str>> {
         }));
     }
 
-    let (left, content) = terminated(
-        take_until(&*format!("</{name}")),
-        delimited(
-            tag("</"),
-            tag_no_case(name),
-            preceded(multispace0, char('>')),
-        ),
-    )(left)?;
+    let (left, content) = raw_content(name, left)?;
 
     Ok((left, HTMLNode::RawElement {
         name,
-- 
2.43.0


From 41538c4762be8208d14c85bb8abc0049636fe5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 06/12] fix: decode named character references that contain
 digits

&frac12;, &sup2;, &there4; and the like are in the table but were never
matched.
---
 src/parser/html/strict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index 4954946..cef8fa2 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -278,7 +278,7 @@ fn parse(i: &str) -> IResult<&str, Vec<HTMLNode<&str>>> {
 }
 
 lazy_static::lazy_static! {
-    static ref ESCAPE: Regex = Regex::new(r"&(([a-zA-Z]+;?)|(#[0-9]+;)|(#[xX][a-fA-F0-9]+;))").unwrap();
+    static ref ESCAPE: Regex = Regex::new(r"&(([a-zA-Z][a-zA-Z0-9]*;)|([a-zA-Z]+)|(#[0-9]+;)|(#[xX][a-fA-F0-9]+;))").unwrap();
 }
 
 fn escape_ref(text: &str) -> Option<&str> {
-- 
2.43.0


From bdc635ff1da72eebd597faee9af1499bf8f80371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 07/12] fix: correct the named references for invisible
 characters

&nbsp; gave U+0020, &Tab; and &NewLine; gave runs of spaces, and &shy;,
&ZeroWidthSpace; and others gave a literal "\u{..}".
---
 src/parser/html/entities.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/parser/html/entities.rs b/src/parser/html/entities.rs
index 5051826..35c84b2 100644
--- a/src/parser/html/entities.rs
+++ b/src/parser/html/entities.rs
@@ -320,17 +320,16 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&Ncaron;" => r#"Ň"#,
     "&Ncedil;" => r#"Ņ"#,
     "&Ncy;" => r#"Н"#,
-    "&NegativeMediumSpace;" => r#"\u{200B}"#,
-    "&NegativeThickSpace;" => r#"\u{200B}"#,
-    "&NegativeThinSpace;" => r#"\u{200B}"#,
-    "&NegativeVeryThinSpace;" => r#"\u{200B}"#,
+    "&NegativeMediumSpace;" => "\u{200b}",
+    "&NegativeThickSpace;" => "\u{200b}",
+    "&NegativeThinSpace;" => "\u{200b}",
+    "&NegativeVeryThinSpace;" => "\u{200b}",
     "&NestedGreaterGreater;" => r#"≫"#,
     "&NestedLessLess;" => r#"≪"#,
-    "&NewLine;" => r#"
-    "#,
+    "&NewLine;" => "\u{a}",
     "&Nfr;" => r#"𝔑"#,
-    "&NoBreak;" => r#"\u{2060}"#,
-    "&NonBreakingSpace;" => r#" "#,
+    "&NoBreak;" => "\u{2060}",
+    "&NonBreakingSpace;" => "\u{a0}",
     "&Nopf;" => r#"ℕ"#,
     "&Not;" => r#"⫬"#,
     "&NotCongruent;" => r#"≢"#,
@@ -531,7 +530,7 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&TRADE;" => r#"™"#,
     "&TSHcy;" => r#"Ћ"#,
     "&TScy;" => r#"Ц"#,
-    "&Tab;" => r#"  "#,
+    "&Tab;" => "\u{9}",
     "&Tau;" => r#"Τ"#,
     "&Tcaron;" => r#"Ť"#,
     "&Tcedil;" => r#"Ţ"#,
@@ -631,7 +630,7 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&Zcaron;" => r#"Ž"#,
     "&Zcy;" => r#"З"#,
     "&Zdot;" => r#"Ż"#,
-    "&ZeroWidthSpace;" => r#"\u{200B}"#,
+    "&ZeroWidthSpace;" => "\u{200b}",
     "&Zeta;" => r#"Ζ"#,
     "&Zfr;" => r#"ℨ"#,
     "&Zopf;" => r#"ℤ"#,
@@ -1470,8 +1469,8 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&natur;" => r#"♮"#,
     "&natural;" => r#"♮"#,
     "&naturals;" => r#"ℕ"#,
-    "&nbsp" => r#" "#,
-    "&nbsp;" => r#" "#,
+    "&nbsp" => "\u{a0}",
+    "&nbsp;" => "\u{a0}",
     "&nbump;" => r#"≎̸"#,
     "&nbumpe;" => r#"≏̸"#,
     "&ncap;" => r#"⩃"#,
@@ -1898,8 +1897,8 @@ pub(crate) const ENTITIES: phf::Map<&'static str, &'static str> = phf::phf_map!
     "&shcy;" => r#"ш"#,
     "&shortmid;" => r#"∣"#,
     "&shortparallel;" => r#"∥"#,
-    "&shy" => r#"\u{AD}"#,
-    "&shy;" => r#"\u{AD}"#,
+    "&shy" => "\u{ad}",
+    "&shy;" => "\u{ad}",
     "&sigma;" => r#"σ"#,
     "&sigmaf;" => r#"ς"#,
     "&sigmav;" => r#"ς"#,
-- 
2.43.0


From c0d7157eef3907ac154b7385a8beff12ab0eadef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 08/12] fix: decode every numeric character reference to its
 code point

Only code points that some named reference ends with were decoded, so &#65;
and &#x4e2d; stayed as they were, and several gave another text (&#102; gave
"fj", &#61; "=" with a combining overlay, &#xa0; U+0020).
---
 src/parser/html/entities.rs | 59 ++++++++++++++++++-------------------
 src/parser/html/strict.rs   | 14 ++++++---
 2 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/parser/html/entities.rs b/src/parser/html/entities.rs
index 35c84b2..951ccd4 100644
--- a/src/parser/html/entities.rs
+++ b/src/parser/html/entities.rs
@@ -2514,12 +2514,11 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x147u32 => r#"Ň"#,
     0x145u32 => r#"Ņ"#,
     0x41du32 => r#"Н"#,
-    0x200bu32 => r#"\u{200B}"#,
-    0xau32 => r#"
-    "#,
+    0x200bu32 => "\u{200b}",
+    0xau32 => "\u{a}",
     0x1d511u32 => r#"𝔑"#,
-    0x2060u32 => r#"\u{2060}"#,
-    0xa0u32 => r#" "#,
+    0x2060u32 => "\u{2060}",
+    0xa0u32 => "\u{a0}",
     0x2115u32 => r#"ℕ"#,
     0x2aecu32 => r#"⫬"#,
     0x2262u32 => r#"≢"#,
@@ -2527,7 +2526,7 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x2226u32 => r#"∦"#,
     0x2209u32 => r#"∉"#,
     0x2260u32 => r#"≠"#,
-    0x338u32 => r#"≂̸"#,
+    0x338u32 => "\u{338}",
     0x2204u32 => r#"∄"#,
     0x226fu32 => r#"≯"#,
     0x2271u32 => r#"≱"#,
@@ -2540,24 +2539,24 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x2278u32 => r#"≸"#,
     0x2274u32 => r#"≴"#,
     0x2280u32 => r#"⊀"#,
-    0x2aafu32 => r#"⪯̸"#,
+    0x2aafu32 => "\u{2aaf}",
     0x22e0u32 => r#"⋠"#,
     0x220cu32 => r#"∌"#,
     0x22ebu32 => r#"⋫"#,
-    0x29d0u32 => r#"⧐̸"#,
+    0x29d0u32 => "\u{29d0}",
     0x22edu32 => r#"⋭"#,
-    0x228fu32 => r#"⊏̸"#,
+    0x228fu32 => "\u{228f}",
     0x22e2u32 => r#"⋢"#,
-    0x2290u32 => r#"⊐̸"#,
+    0x2290u32 => "\u{2290}",
     0x22e3u32 => r#"⋣"#,
-    0x2282u32 => r#"⊂⃒"#,
-    0x20d2u32 => r#"⊂⃒"#,
+    0x2282u32 => "\u{2282}",
+    0x20d2u32 => "\u{20d2}",
     0x2288u32 => r#"⊈"#,
     0x2281u32 => r#"⊁"#,
-    0x2ab0u32 => r#"⪰̸"#,
+    0x2ab0u32 => "\u{2ab0}",
     0x22e1u32 => r#"⋡"#,
-    0x227fu32 => r#"≿̸"#,
-    0x2283u32 => r#"⊃⃒"#,
+    0x227fu32 => "\u{227f}",
+    0x2283u32 => "\u{2283}",
     0x2289u32 => r#"⊉"#,
     0x2241u32 => r#"≁"#,
     0x2244u32 => r#"≄"#,
@@ -2684,7 +2683,7 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x2122u32 => r#"™"#,
     0x40bu32 => r#"Ћ"#,
     0x426u32 => r#"Ц"#,
-    0x9u32 => r#"   "#,
+    0x9u32 => "\u{9}",
     0x3a4u32 => r#"Τ"#,
     0x164u32 => r#"Ť"#,
     0x162u32 => r#"Ţ"#,
@@ -2692,7 +2691,7 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x1d517u32 => r#"𝔗"#,
     0x2234u32 => r#"∴"#,
     0x398u32 => r#"Θ"#,
-    0x200au32 => r#"  "#,
+    0x200au32 => "\u{200a}",
     0x2009u32 => r#" "#,
     0x223cu32 => r#"∼"#,
     0x2243u32 => r#"≃"#,
@@ -2781,7 +2780,7 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0xe1u32 => r#"á"#,
     0x103u32 => r#"ă"#,
     0x223eu32 => r#"∾"#,
-    0x333u32 => r#"∾̳"#,
+    0x333u32 => "\u{333}",
     0x223fu32 => r#"∿"#,
     0xe2u32 => r#"â"#,
     0x430u32 => r#"а"#,
@@ -2862,8 +2861,8 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x2591u32 => r#"░"#,
     0x2593u32 => r#"▓"#,
     0x2588u32 => r#"█"#,
-    0x3du32 => r#"=⃥"#,
-    0x20e5u32 => r#"=⃥"#,
+    0x3du32 => "\u{3d}",
+    0x20e5u32 => "\u{20e5}",
     0x2310u32 => r#"⌐"#,
     0x1d553u32 => r#"𝕓"#,
     0x22c8u32 => r#"⋈"#,
@@ -2925,7 +2924,7 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x2a4bu32 => r#"⩋"#,
     0x2a47u32 => r#"⩇"#,
     0x2a40u32 => r#"⩀"#,
-    0xfe00u32 => r#"∩︀"#,
+    0xfe00u32 => "\u{fe00}",
     0x2041u32 => r#"⁁"#,
     0x2a4du32 => r#"⩍"#,
     0x10du32 => r#"č"#,
@@ -3078,8 +3077,8 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0xfb04u32 => r#"ﬄ"#,
     0x1d523u32 => r#"𝔣"#,
     0xfb01u32 => r#"ﬁ"#,
-    0x66u32 => r#"fj"#,
-    0x6au32 => r#"fj"#,
+    0x66u32 => "\u{66}",
+    0x6au32 => "\u{6a}",
     0x266du32 => r#"♭"#,
     0xfb02u32 => r#"ﬂ"#,
     0x25b1u32 => r#"▱"#,
@@ -3349,16 +3348,16 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x22f6u32 => r#"⋶"#,
     0x22feu32 => r#"⋾"#,
     0x22fdu32 => r#"⋽"#,
-    0x2afdu32 => r#"⫽⃥"#,
+    0x2afdu32 => "\u{2afd}",
     0x2a14u32 => r#"⨔"#,
     0x219bu32 => r#"↛"#,
-    0x2933u32 => r#"⤳̸"#,
-    0x219du32 => r#"↝̸"#,
+    0x2933u32 => "\u{2933}",
+    0x219du32 => "\u{219d}",
     0x1d4c3u32 => r#"𝓃"#,
     0x2284u32 => r#"⊄"#,
-    0x2ac5u32 => r#"⫅̸"#,
+    0x2ac5u32 => "\u{2ac5}",
     0x2285u32 => r#"⊅"#,
-    0x2ac6u32 => r#"⫆̸"#,
+    0x2ac6u32 => "\u{2ac6}",
     0xf1u32 => r#"ñ"#,
     0x3bdu32 => r#"ν"#,
     0x23u32 => r#"#"#,
@@ -3456,7 +3455,7 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x3fu32 => r#"?"#,
     0x291cu32 => r#"⤜"#,
     0x2964u32 => r#"⥤"#,
-    0x331u32 => r#"∽̱"#,
+    0x331u32 => "\u{331}",
     0x155u32 => r#"ŕ"#,
     0x29b3u32 => r#"⦳"#,
     0x2992u32 => r#"⦒"#,
@@ -3532,7 +3531,7 @@ pub(crate) const CODEPOINTS: phf::Map<u32, &'static str> = phf::phf_map! {
     0x266fu32 => r#"♯"#,
     0x449u32 => r#"щ"#,
     0x448u32 => r#"ш"#,
-    0xadu32 => r#"\u{AD}"#,
+    0xadu32 => "\u{ad}",
     0x3c3u32 => r#"σ"#,
     0x3c2u32 => r#"ς"#,
     0x2a6au32 => r#"⩪"#,
diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index cef8fa2..dd0f533 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -281,9 +281,9 @@ lazy_static::lazy_static! {
     static ref ESCAPE: Regex = Regex::new(r"&(([a-zA-Z][a-zA-Z0-9]*;)|([a-zA-Z]+)|(#[0-9]+;)|(#[xX][a-fA-F0-9]+;))").unwrap();
 }
 
-fn escape_ref(text: &str) -> Option<&str> {
+fn escape_ref(text: &str) -> Option<Cow<'static, str>> {
     if let Some(text) = ENTITIES.get(text) {
-        Some(text)
+        Some((*text).into())
     } else {
         let val = text.trim_start_matches("&#").trim_end_matches(';');
 
@@ -294,7 +294,13 @@ fn escape_ref(text: &str) -> Option<&str> {
         }
         .ok()?;
 
-        CODEPOINTS.get(&codepoint).copied()
+        if let Some(text) = CODEPOINTS.get(&codepoint) {
+            Some((*text).into())
+        } else {
+            char::from_u32(codepoint)
+                .filter(|c| !c.is_control())
+                .map(|c| c.to_string().into())
+        }
     }
 }
 
@@ -304,7 +310,7 @@ fn escape_text(text: &str) -> Cow<str> {
     for m in ESCAPE.find_iter(text) {
         new.push_str(&text[last..m.start()]);
         if let Some(escape) = escape_ref(m.as_str()) {
-            new.push_str(escape);
+            new.push_str(&escape);
         } else {
             new.push_str(&text[m.start()..m.end()]);
         }
-- 
2.43.0


From 28ce297a5f20df618a0fc591773c2e3181780de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 09/12] fix: keep the children of SVG and MathML elements named
 like void elements

Soup::html dropped "hello" from <svg><link>hello</link></svg>.
---
 src/parser/html/lenient.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/html/lenient.rs b/src/parser/html/lenient.rs
index c3f3bf3..523d38a 100644
--- a/src/parser/html/lenient.rs
+++ b/src/parser/html/lenient.rs
@@ -51,8 +51,13 @@ impl<'a> TryFrom<ego_tree::NodeRef<'a, scraper::Node>> for HTMLNode<scraper::Str
                 let attrs = element.attrs().map(|(k, v)| (k.into(), v.into())).collect();
 
                 Ok(match element.name() {
+                    // SVG and MathML elements with these names may have children
                     "area" | "base" | "br" | "col" | "embed" | "hr" | "img" | "input" | "link"
-                    | "meta" | "source" | "track" | "wbr" => HTMLNode::Void { name, attrs },
+                    | "meta" | "source" | "track" | "wbr"
+                        if !node.has_children() =>
+                    {
+                        HTMLNode::Void { name, attrs }
+                    }
                     _ => HTMLNode::Element {
                         name,
                         attrs,
-- 
2.43.0


From 1d53458062c62e412c5b5b2d201a7f48b70b8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 10/12] fix: include CDATA sections in the text of XML nodes

text() and all_text() skipped them, so <a><![CDATA[x]]></a> had no text.
---
 src/parser/xml/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/xml/mod.rs b/src/parser/xml/mod.rs
index d8401bc..d7cb33a 100644
--- a/src/parser/xml/mod.rs
+++ b/src/parser/xml/mod.rs
@@ -113,7 +113,7 @@ impl Node for XMLNode {
 
     fn text(&self) -> Option<&String> {
         match self {
-            XMLNode::Text(t) => Some(t),
+            XMLNode::Text(t) | XMLNode::CData(t) => Some(t),
             _ => None,
         }
     }
-- 
2.43.0


From 7166b74a80ec140d6c66cf58d0ea789b9c5d4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 11/12] fix: decode the legacy named references that end in a
 digit

&frac12, &frac14, &frac34, &sup1, &sup2 and &sup3 are in ENTITIES without
semicolon like the other legacy names, but the pattern never matched them.
---
 src/parser/html/strict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index dd0f533..adfe56d 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -278,7 +278,7 @@ fn parse(i: &str) -> IResult<&str, Vec<HTMLNode<&str>>> {
 }
 
 lazy_static::lazy_static! {
-    static ref ESCAPE: Regex = Regex::new(r"&(([a-zA-Z][a-zA-Z0-9]*;)|([a-zA-Z]+)|(#[0-9]+;)|(#[xX][a-fA-F0-9]+;))").unwrap();
+    static ref ESCAPE: Regex = Regex::new(r"&(([a-zA-Z][a-zA-Z0-9]*;)|(frac(12|14|34)|sup[123])|([a-zA-Z]+)|(#[0-9]+;)|(#[xX][a-fA-F0-9]+;))").unwrap();
 }
 
 fn escape_ref(text: &str) -> Option<Cow<'static, str>> {
-- 
2.43.0


From c3985a20d312222c815b6cac094e16fd8c1258d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 12/12] fix: accept a tab or newline after <!doctype in strict
 HTML

---
 src/parser/html/strict.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/html/strict.rs b/src/parser/html/strict.rs
index adfe56d..aac4d0c 100644
--- a/src/parser/html/strict.rs
+++ b/src/parser/html/strict.rs
@@ -18,6 +18,7 @@ use nom::{
         alphanumeric1,
         char,
         multispace0,
+        one_of,
         satisfy,
     },
     combinator::{
@@ -128,7 +129,10 @@ fn comment(i: &str) -> IResult<&str, HTMLNode<&str>> {
 
 fn doctype(i: &str) -> IResult<&str, HTMLNode<&str>> {
     map(
-        preceded(tag_no_case("<!doctype "), take_to(">")),
+        preceded(
+            pair(tag_no_case("<!doctype"), one_of(" \t\r\n")),
+            take_to(">"),
+        ),
         HTMLNode::Doctype,
     )(i)
 }
-- 
2.43.0

