From c2c7fe2e7a35f92e5d60f4c0c6ece03a3ddd1aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 01/57] fix: text with a leading non-blank character is not
 only whitespace

Span::is_only_whitespace treated any text whose first byte was not blank but
whose remaining bytes were (e.g. a single character) as blank, so a title,
template, placeholder or indented blockquote of one character was not parsed.
---
 vimwiki-core/src/lang/parsers/span.rs | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 586b688..7ce22cb 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -1,4 +1,4 @@
-use memchr::{memchr2_iter, memchr_iter, memrchr};
+use memchr::{memchr_iter, memrchr};
 use nom::{
     error::{ErrorKind, ParseError},
     AsBytes, Compare, CompareResult, Err, ExtendInto, FindSubstring, FindToken,
@@ -227,28 +227,7 @@ impl<'a> Span<'a> {
     /// Whether or not the remaining bytes are comprised of only spaces
     /// or tabs
     pub fn is_only_whitespace(&self) -> bool {
-        let len = self.remaining_len();
-        if len == 0 {
-            return true;
-        }
-
-        // Iterate through all space and tabs until either we detect some
-        // character that is not space (gap in index) or we find no more
-        // whitespace even though we have more bytes remaining
-        let mut last_pos = 0;
-        for pos in memchr2_iter(b' ', b'\t', self.as_remaining()) {
-            // If we skipped at least one position beyond what would be next,
-            // there was something that didn't match and we can exit
-            if pos - last_pos > 1 {
-                return false;
-            }
-
-            last_pos = pos;
-        }
-
-        // If our last position doesn't correspond to the end of the remaining
-        // bytes, there is something that is not whitespace
-        last_pos == (len - 1)
+        self.as_remaining().iter().all(|b| matches!(b, b' ' | b'\t'))
     }
 
     /// Calculates the line and column position of this span using newline (\n)
-- 
2.43.0


From e8d9d2041bad22351062bdb8e4bb16297d3d25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 02/57] fix: do not drop text following tags within the same
 word

---
 .../src/lang/parsers/vimwiki/blocks/inline/tags.rs    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
index e4f913d..d59ffd8 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
@@ -9,7 +9,9 @@ use crate::lang::{
     },
 };
 use nom::{
-    character::complete::char, combinator::map_parser, multi::many1,
+    character::complete::char,
+    combinator::{all_consuming, map_parser},
+    multi::many1,
     sequence::terminated,
 };
 
@@ -23,7 +25,12 @@ pub fn tags(input: Span) -> IResult<Located<Tags>> {
         Ok((input, Tags::new(contents)))
     }
 
-    context("Tags", locate(capture(map_parser(whole_word, inner))))(input)
+    // NOTE: The entire word must be made up of tags, otherwise the remainder
+    //       of the word would be lost
+    context(
+        "Tags",
+        locate(capture(map_parser(whole_word, all_consuming(inner)))),
+    )(input)
 }
 
 fn tag_content(input: Span) -> IResult<Tag> {
-- 
2.43.0


From 5a05a9507dc54d123a5a43548f10f32ca48bc650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 03/57] fix: do not drop contents of decorated text after code,
 math or tags

---
 .../src/lang/parsers/vimwiki/blocks/inline/typefaces.rs    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index a34851d..7eadda8 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -23,7 +23,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::char,
-    combinator::{map, map_parser, peek},
+    combinator::{all_consuming, map, map_parser, peek},
     multi::many1,
     sequence::preceded,
 };
@@ -222,7 +222,10 @@ fn decorated_text_contents<'a>(
         )))(input)
     }
 
-    context("Decorated Text Contents", inner)(input)
+    // NOTE: Contents that cannot be represented within decorated text (such as
+    //       code or math) mean that this is not decorated text; otherwise, the
+    //       rest of the contents would be lost
+    context("Decorated Text Contents", all_consuming(inner))(input)
 }
 
 #[inline]
-- 
2.43.0


From 1639428cf313d847dfea17514eed60c694ec6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 04/57] fix: parse table cells whose content starts like a span
 or alignment

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
index 533a5ff..98c18fe 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
@@ -16,7 +16,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{char, space0},
-    combinator::{map, map_parser, opt, value, verify},
+    combinator::{map, map_parser, opt, peek, value, verify},
     multi::{many0, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -108,10 +108,12 @@ fn column_align(input: Span) -> IResult<ColumnAlign> {
 #[inline]
 fn cell(input: Span) -> IResult<Located<Cell>> {
     fn inner(input: Span) -> IResult<Cell> {
+        // NOTE: Spans and alignments must make up the entire cell, otherwise
+        //       the cell has content such as "-5" or "> 3"
         alt((
-            map(cell_span_above, Cell::Span),
-            map(cell_span_left, Cell::Span),
-            map(column_align, Cell::Align),
+            map(terminated(cell_span_above, peek(char('|'))), Cell::Span),
+            map(terminated(cell_span_left, peek(char('|'))), Cell::Span),
+            map(terminated(column_align, peek(char('|'))), Cell::Align),
             map(
                 map_parser(take_line_until1("|"), inline_element_container),
                 |l: Located<InlineElementContainer>| {
-- 
2.43.0


From ad0f69065d4467707db00bc8e870f76c092e40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 05/57] fix: recognize C instead of E as an uppercase roman
 numeral

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index bd2a692..0dadd50 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -324,7 +324,7 @@ fn ordered_list_item_type_upper_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseRoman,
-        many1(one_of("IVXLEDM")),
+        many1(one_of("IVXLCDM")),
     )(input)
 }
 
-- 
2.43.0


From 10d12f6763c2562518f55a374922697285f378d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 06/57] fix: parse alphabetic list items whose prefix starts
 with a roman numeral

---
 .../src/lang/parsers/vimwiki/blocks/lists.rs    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index 0dadd50..1513ab3 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -15,10 +15,10 @@ use crate::lang::{
 use nom::{
     branch::alt,
     bytes::complete::{tag, take_while1},
-    character::complete::{digit1, one_of, space0},
-    combinator::{map, opt, peek, recognize, value, verify},
+    character::complete::{digit1, one_of, satisfy, space0},
+    combinator::{map, not, opt, peek, recognize, value, verify},
     multi::{fold_many0, many0, many1},
-    sequence::{pair, preceded},
+    sequence::{pair, preceded, terminated},
 };
 
 #[inline]
@@ -314,7 +314,7 @@ fn ordered_list_item_type_lower_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::LowercaseRoman,
-        many1(one_of("ivxlcdm")),
+        terminated(many1(one_of("ivxlcdm")), not(satisfy_alphabetic)),
     )(input)
 }
 
@@ -324,10 +324,17 @@ fn ordered_list_item_type_upper_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseRoman,
-        many1(one_of("IVXLCDM")),
+        terminated(many1(one_of("IVXLCDM")), not(satisfy_alphabetic)),
     )(input)
 }
 
+/// Parses a single ascii letter, used to ensure that a roman numeral is not just
+/// the beginning of a longer alphabetic prefix such as "da" or "ij"
+#[inline]
+fn satisfy_alphabetic(input: Span) -> IResult<char> {
+    satisfy(|c| c.is_ascii_alphabetic())(input)
+}
+
 #[inline]
 fn list_item_suffix_paren(input: Span) -> IResult<ListItemSuffix> {
     value(ListItemSuffix::Paren, tag(") "))(input)
-- 
2.43.0


From b063082b99d4df1c866195c64c90500c50d03a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 07/57] fix: keep a described transclusion used as a link
 description whole

[[url|{{img|alt|style="..."}}]] was cut at the first | inside of the
transclusion link, leaving a broken text description and losing the rest.
---
 .../vimwiki/blocks/inline/links/mod.rs        | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
index 3ae553d..ffb32ad 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
@@ -12,9 +12,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::space1,
-    combinator::{map, map_opt, map_parser, opt, rest},
+    combinator::{eof, map, map_opt, map_parser, opt, peek, value},
     multi::separated_list1,
-    sequence::{delimited, separated_pair},
+    sequence::{delimited, separated_pair, terminated},
 };
 use std::{borrow::Cow, collections::HashMap, convert::TryFrom};
 use uriparse::URIReference;
@@ -132,15 +132,19 @@ fn link_description<'a>(input: Span<'a>) -> IResult<Description<'a>> {
 
     // Second, continue taking characters until we encounter the next | or
     // we reach the end of the link
-    map_parser(
-        take_line_until("|"),
-        alt((
-            map(transclusion::transclusion_link, |l| {
-                Description::from(l.into_inner().into_data())
-            }),
-            map(rest, |s: Span| Description::Text(s.into())),
-        )),
-    )(input)
+    //
+    // NOTE: A transclusion link can itself contain |, and it must make up the
+    //       entire description as it would otherwise be text
+    alt((
+        map(
+            terminated(
+                transclusion::transclusion_link,
+                peek(alt((value((), tag("|")), value((), eof)))),
+            ),
+            |l| Description::from(l.into_inner().into_data()),
+        ),
+        map(take_line_until("|"), |s: Span| Description::Text(s.into())),
+    ))(input)
 }
 
 fn link_anchor<'a>(input: Span<'a>) -> IResult<Anchor<'a>> {
-- 
2.43.0


From f45a886f47219363e0f08a53e8168c4a1ab24ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 08/57] fix: keep properties of interwiki links

---
 .../vimwiki/blocks/inline/links/interwiki.rs  | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
index d6072c3..c98e788 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
@@ -1,6 +1,6 @@
-use super::{link_description, link_uri_ref};
+use super::{link_description, link_properties, link_uri_ref};
 use crate::lang::{
-    elements::{Link, Located},
+    elements::{Link, LinkData, Located},
     parsers::{
         utils::{
             capture, context, cow_str, locate, not_contains, surround_in_line1,
@@ -24,12 +24,20 @@ pub fn indexed_interwiki_link(input: Span) -> IResult<Located<Link>> {
         // Second, grab uri of link
         let (input, uri_ref) = link_uri_ref(input)?;
 
-        // Third, grab optional description of link
+        // Third, grab optional description and properties of link
         let (input, maybe_description) = opt(link_description)(input)?;
+        let (input, maybe_properties) = opt(link_properties)(input)?;
 
         Ok((
             input,
-            Link::new_indexed_interwiki_link(index, uri_ref, maybe_description),
+            Link::IndexedInterWiki {
+                index,
+                data: LinkData::new(
+                    uri_ref,
+                    maybe_description,
+                    maybe_properties,
+                ),
+            },
         ))
     }
 
@@ -57,12 +65,20 @@ pub fn named_interwiki_link(input: Span) -> IResult<Located<Link>> {
         // Second, grab uri of link
         let (input, uri_ref) = link_uri_ref(input)?;
 
-        // Third, grab optional description of link
+        // Third, grab optional description and properties of link
         let (input, maybe_description) = opt(link_description)(input)?;
+        let (input, maybe_properties) = opt(link_properties)(input)?;
 
         Ok((
             input,
-            Link::new_named_interwiki_link(name, uri_ref, maybe_description),
+            Link::NamedInterWiki {
+                name,
+                data: LinkData::new(
+                    uri_ref,
+                    maybe_description,
+                    maybe_properties,
+                ),
+            },
         ))
     }
 
-- 
2.43.0


From 646eb21c3a69506dfe0b3860cabe77b57938973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 09/57] fix: percent-encode diary anchors that are not valid in
 a URI fragment

---
 .../elements/blocks/inline/links/anchor.rs    | 45 +++++++++++++++----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
index 6844108..44c529e 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@@ -57,16 +57,45 @@ impl Anchor<'_> {
 
 impl<'a> Anchor<'a> {
     /// Produces an encoded URI fragment in the form of #my%23fragment
-    /// if the anchor has any elements, otherwise yields an empty string
+    /// if the anchor has any elements, otherwise yields an empty string;
+    /// any character that is not allowed in a URI fragment is percent-encoded
     pub fn to_encoded_uri_fragment(&self) -> String {
-        use std::fmt::Write;
-        let mut fragment = String::new();
-        if !self.is_empty() {
-            write!(&mut fragment, "#{}", self.0.join("%23")).expect(
-                "Anchor encoded_uri_fragment returned error unexpectedly",
-            );
+        if self.is_empty() {
+            return String::new();
+        }
+
+        let parts: Vec<String> =
+            self.0.iter().map(|s| Self::encode_part(s)).collect();
+        format!("#{}", parts.join("%23"))
+    }
+
+    /// Percent-encodes a single part of an anchor such that it is valid as (a
+    /// portion of) a URI fragment, leaving already-encoded characters alone
+    fn encode_part(s: &str) -> String {
+        use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
+        const PART: &AsciiSet = &CONTROLS
+            .add(b' ')
+            .add(b'"')
+            .add(b'#')
+            .add(b'<')
+            .add(b'>')
+            .add(b'[')
+            .add(b'\\')
+            .add(b']')
+            .add(b'^')
+            .add(b'`')
+            .add(b'{')
+            .add(b'|')
+            .add(b'}');
+        const PART_AND_PERCENT: &AsciiSet = &PART.add(b'%');
+
+        let encoded = utf8_percent_encode(s, PART).to_string();
+        if Fragment::try_from(encoded.as_str()).is_ok() {
+            encoded
+        } else {
+            // A percent sign was not part of an encoded character
+            utf8_percent_encode(s, PART_AND_PERCENT).to_string()
         }
-        fragment
     }
 
     // NOTE: Cannot use FromStr due to conflicting lifetimes of impl and trait
-- 
2.43.0


From 5b19249ee9e930b81def1d69271751c3c2f1ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 10/57] fix: only de-indent spaces and tabs in code and math
 blocks

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs | 6 +++++-
 vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index fe2a661..ef4ee30 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -40,7 +40,11 @@ pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
                 // earlier
-                let cnt = line.len() - line.trim_start().len();
+                //
+                // NOTE: Only spaces and tabs count as indentation, other
+                //       whitespace is content that can be multiple bytes
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
index 6a8d1a3..1341ba2 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@@ -41,7 +41,11 @@ pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
                 // earlier
-                let cnt = line.len() - line.trim_start().len();
+                //
+                // NOTE: Only spaces and tabs count as indentation, other
+                //       whitespace is content that can be multiple bytes
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
-- 
2.43.0


From 70c8f756b9551d35a39cd0cb1e3003fa2edc3394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 11/57] fix: do not start a raw link before the text it was
 found in

---
 .../lang/parsers/vimwiki/blocks/inline/typefaces.rs  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index 7eadda8..d07f4ba 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -103,13 +103,17 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
             }
 
             // Check if we have a non-text element; if we do, we need to make
-            // sure that we backtrack our length and then we're done
+            // sure that we backtrack our length and then we're done; an
+            // element that would begin before our text did overlaps with the
+            // element that precedes us, so it is not one
             if let Ok((_, x)) = non_text(text_input) {
                 let non_text_start = x.region().offset();
-                if non_text_start < text_input.start_offset() {
-                    len -= text_input.start_offset() - non_text_start;
+                if non_text_start >= input.start_offset() {
+                    if non_text_start < text_input.start_offset() {
+                        len -= text_input.start_offset() - non_text_start;
+                    }
+                    break;
                 }
-                break;
             }
 
             text_input = text_input.advance_start_by(1);
-- 
2.43.0


From b201751d7a01b2267806884acf1a753f0bdee3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 12/57] fix: cover the whole term and its definitions in
 regions of definition lists

---
 .../src/lang/elements/blocks/definitions.rs      | 16 +++++++++++-----
 .../lang/parsers/vimwiki/blocks/definitions.rs   | 14 +++++++++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index bcdc7f0..f6300d4 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -377,11 +377,17 @@ impl<'a> FromIterator<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)>
         let mut dl = Self::default();
 
         for (term, def_bundle) in iter.into_iter() {
-            // TODO: Should we perform more checks? Right now, we assume that these
-            //       two follow immediately together to calculate the region
-            let region = Region::new(
-                term.region().offset(),
-                term.region().len() + def_bundle.region().len(),
+            // Cover everything from the start of the term to the end of its
+            // definitions, which do not have to follow immediately
+            let start = term.region().offset();
+            let end = std::cmp::max(
+                start + term.region().len(),
+                def_bundle.region().offset() + def_bundle.region().len(),
+            );
+            let region = Region::new_at_depth(
+                start,
+                end - start,
+                term.region().depth(),
             );
 
             dl.items.push(Located::new(
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
index 62cfc39..d4b195f 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
@@ -1,7 +1,7 @@
 use crate::lang::{
     elements::{
         Definition, DefinitionBundle, DefinitionList, InlineElementContainer,
-        Located, Term,
+        Located, Region, Term,
     },
     parsers::{
         utils::{
@@ -46,6 +46,18 @@ fn term_and_definitions<'a>(
     )))(input)?;
 
     if let Some(def) = maybe_def {
+        // The bundle begins with the definition on the line of the term
+        let start = def.region().offset();
+        let end = if bundle.is_empty() {
+            start + def.region().len()
+        } else {
+            bundle.region().offset() + bundle.region().len()
+        };
+        bundle = bundle.take_with_region(Region::new_at_depth(
+            start,
+            end - start,
+            def.region().depth(),
+        ));
         bundle.as_mut_inner().as_mut().insert(0, def);
     }
 
-- 
2.43.0


From 5741eb6105eb570df46185b2b3734f67d4db33bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 13/57] fix: visit every cell of tables with missing cells, in
 order

---
 .../src/lang/elements/blocks/tables.rs        | 250 ++++++++++--------
 1 file changed, 140 insertions(+), 110 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 52c5775..42bdfaa 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -291,19 +291,19 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_rowspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.column(col).skip(row);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromAbove))
-        })
-        .count()
+        (row + 1..self.row_cnt())
+            .map_while(|row| self.get_cell(row, col))
+            .take_while(|cell| {
+                matches!(cell.get_span().copied(), Some(CellSpan::FromAbove))
+            })
+            .count()
             + 1
     }
 
@@ -314,19 +314,19 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_colspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.row(row).skip(col);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromLeft))
-        })
-        .count()
+        (col + 1..self.col_cnt())
+            .map_while(|col| self.get_cell(row, col))
+            .take_while(|cell| {
+                matches!(cell.get_span().copied(), Some(CellSpan::FromLeft))
+            })
+            .count()
             + 1
     }
 }
@@ -335,9 +335,8 @@ impl<'a> IntoChildren for Table<'a> {
     type Child = Located<InlineElement<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.cells
-            .into_iter()
-            .flat_map(|(_, x)| x.into_inner().into_children())
+        self.into_cells()
+            .flat_map(|x| x.into_inner().into_children())
             .collect()
     }
 }
@@ -481,6 +480,36 @@ mod iter {
     use derive_more::Constructor;
     use std::marker::PhantomData;
 
+    /// Returns position of the first cell found in a row, beginning with the
+    /// specified column; tables can be missing cells as rows are able to be
+    /// different lengths
+    fn find_in_row(table: &Table, row: usize, col: usize) -> Option<CellPos> {
+        (col..table.col_cnt())
+            .map(|col| CellPos { row, col })
+            .find(|pos| table.cells.contains_key(pos))
+    }
+
+    /// Returns position of the first cell found in a column, beginning with
+    /// the specified row
+    fn find_in_column(
+        table: &Table,
+        row: usize,
+        col: usize,
+    ) -> Option<CellPos> {
+        (row..table.row_cnt())
+            .map(|row| CellPos { row, col })
+            .find(|pos| table.cells.contains_key(pos))
+    }
+
+    /// Returns position of the first cell found in a table, beginning with
+    /// the specified row and column and going row by row
+    fn find_in_table(table: &Table, row: usize, col: usize) -> Option<CellPos> {
+        find_in_row(table, row, col).or_else(|| {
+            (row + 1..table.row_cnt())
+                .find_map(|row| find_in_row(table, row, 0))
+        })
+    }
+
     /// Represents an iterator over some part of a table at the granularity
     /// of individual cells within the table
     pub trait CellIter<T>: std::iter::Iterator<Item = T> + Sized {
@@ -679,7 +708,9 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.idx;
+            let remaining = (self.idx..self.table.row_cnt())
+                .filter(|idx| !Row::new(self.table, *idx, 0).is_divider_row())
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -717,26 +748,28 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
-            if cell.is_some() {
-                self.col += 1;
-            }
-            cell
+            let pos = find_in_row(self.table, self.row, self.col)?;
+            self.col = pos.col + 1;
+            self.table.get_cell(pos.row, pos.col)
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
+            let remaining = (self.col..self.table.col_cnt())
+                .filter(|col| self.table.get_cell(self.row, *col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Row<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            find_in_row(self.table, self.row, self.col)
+                .map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
-            self.col
+            find_in_row(self.table, self.row, self.col)
+                .map_or(self.col, |pos| pos.col)
         }
     }
 
@@ -777,27 +810,28 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
-            if cell.is_some() {
-                self.col += 1;
-            }
-            cell
+            let pos = find_in_row(&self.table, self.row, self.col)?;
+            self.col = pos.col + 1;
+            self.table.cells.remove(&pos)
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
+            let remaining = (self.col..self.table.col_cnt())
+                .filter(|col| self.table.get_cell(self.row, *col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoRow<'a> {
         fn row(&self) -> usize {
-            self.row
+            find_in_row(&self.table, self.row, self.col)
+                .map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
-            self.col
+            find_in_row(&self.table, self.row, self.col)
+                .map_or(self.col, |pos| pos.col)
         }
     }
 
@@ -879,26 +913,28 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
-            if cell.is_some() {
-                self.row += 1;
-            }
-            cell
+            let pos = find_in_column(self.table, self.row, self.col)?;
+            self.row = pos.row + 1;
+            self.table.get_cell(pos.row, pos.col)
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
+            let remaining = (self.row..self.table.row_cnt())
+                .filter(|row| self.table.get_cell(*row, self.col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Column<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            find_in_column(self.table, self.row, self.col)
+                .map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
-            self.col
+            find_in_column(self.table, self.row, self.col)
+                .map_or(self.col, |pos| pos.col)
         }
     }
 
@@ -931,27 +967,28 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
-            if cell.is_some() {
-                self.row += 1;
-            }
-            cell
+            let pos = find_in_column(&self.table, self.row, self.col)?;
+            self.row = pos.row + 1;
+            self.table.cells.remove(&pos)
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
+            let remaining = (self.row..self.table.row_cnt())
+                .filter(|row| self.table.get_cell(*row, self.col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoColumn<'a> {
         fn row(&self) -> usize {
-            self.row
+            find_in_column(&self.table, self.row, self.col)
+                .map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
-            self.col
+            find_in_column(&self.table, self.row, self.col)
+                .map_or(self.col, |pos| pos.col)
         }
     }
 
@@ -988,48 +1025,45 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
-            let col_cnt = self.table.col_cnt();
-            let row_cnt = self.table.row_cnt();
-
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
+            let pos = find_in_table(self.table, self.row, self.col);
+
+            match pos {
+                // Continue with the position following the cell
+                Some(pos) => {
+                    self.row = pos.row;
+                    self.col = pos.col + 1;
+                    self.table.get_cell(pos.row, pos.col)
+                }
 
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
+                // Otherwise, we have reached the end, so ensure we are done
+                None => {
+                    self.row = self.table.row_cnt();
+                    self.col = self.table.col_cnt();
+                    None
+                }
             }
-
-            cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
+            let remaining = self
+                .table
+                .cells
+                .keys()
+                .filter(|pos| (pos.row, pos.col) >= (self.row, self.col))
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Cells<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            find_in_table(self.table, self.row, self.col)
+                .map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
-            self.col
+            find_in_table(self.table, self.row, self.col)
+                .map_or(self.col, |pos| pos.col)
         }
     }
 
@@ -1070,49 +1104,45 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
-            let col_cnt = self.table.col_cnt();
-            let row_cnt = self.table.row_cnt();
-
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
-
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
-            }
+            let pos = find_in_table(&self.table, self.row, self.col);
+
+            match pos {
+                // Continue with the position following the cell
+                Some(pos) => {
+                    self.row = pos.row;
+                    self.col = pos.col + 1;
+                    self.table.cells.remove(&pos)
+                }
 
-            cell
+                // Otherwise, we have reached the end, so ensure we are done
+                None => {
+                    self.row = self.table.row_cnt();
+                    self.col = self.table.col_cnt();
+                    None
+                }
+            }
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
+            let remaining = self
+                .table
+                .cells
+                .keys()
+                .filter(|pos| (pos.row, pos.col) >= (self.row, self.col))
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoCells<'a> {
         fn row(&self) -> usize {
-            self.row
+            find_in_table(&self.table, self.row, self.col)
+                .map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
-            self.col
+            find_in_table(&self.table, self.row, self.col)
+                .map_or(self.col, |pos| pos.col)
         }
     }
 }
-- 
2.43.0


From d56711e6ad09d867ed99e92e8368cad741b8ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 14/57] fix: give list items a suffix that fits the type of the
 list

---
 vimwiki-core/src/lang/elements/blocks/lists/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
index 49c144a..fe39ec7 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@@ -118,6 +118,14 @@ impl<'a> List<'a> {
             //       on to other letters like j and k
             for item in tail {
                 item.ty = head.ty.clone();
+
+                // A suffix only makes sense for some types, so when only one
+                // of the two has a suffix, use that of the first item
+                if (item.suffix == ListItemSuffix::None)
+                    != (head.suffix == ListItemSuffix::None)
+                {
+                    item.suffix = head.suffix;
+                }
             }
         }
 
-- 
2.43.0


From 82360816d027a977fc13209acb6d281091bb0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 15/57] fix: read an arrow by itself as an empty line of a
 blockquote

---
 .../lang/parsers/vimwiki/blocks/blockquotes.rs   | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
index 4fcd1d5..61418cf 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
@@ -11,9 +11,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{not_line_ending, space0},
-    combinator::{map, map_parser, value, verify},
+    combinator::{map, map_parser, peek, value, verify},
     multi::{many0, many1},
-    sequence::pair,
+    sequence::{pair, preceded, terminated},
 };
 use std::borrow::Cow;
 
@@ -73,12 +73,18 @@ pub fn arrow_blockquote(input: Span) -> IResult<Located<Blockquote>> {
     context("Arrow Blockquote", locate(capture(inner)))(input)
 }
 
-/// Parses a blockquote line that begins with >
+/// Parses a blockquote line that begins with >, which is either followed by
+/// a space and text or is by itself on the line if there is no text
 #[inline]
 fn arrow_blockquote_line<'a>(input: Span<'a>) -> IResult<Cow<'a, str>> {
     let (input, _) = space0(input)?;
-    let (input, _) = tag("> ")(input)?;
-    let (input, text) = map_parser(not_line_ending, cow_str)(input)?;
+    let (input, text) = alt((
+        preceded(tag("> "), map_parser(not_line_ending, cow_str)),
+        value(
+            Cow::from(""),
+            terminated(tag(">"), peek(end_of_line_or_input)),
+        ),
+    ))(input)?;
     let (input, _) = end_of_line_or_input(input)?;
 
     Ok((input, text))
-- 
2.43.0


From 0669668cbcf93ea849af8d20b0c3f55b2e4e41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 16/57] fix: format tables with alignment-only or missing cells

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 37 ++++++++++++++-------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 804355b..68d5a05 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -393,6 +393,15 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         let VimwikiTableConfig { no_padding } = f.config().table;
 
+        // Rows can be different lengths, so we calculate how many columns of
+        // each row to write
+        let row_sizes: HashMap<usize, usize> =
+            self.as_data().keys().fold(HashMap::new(), |mut acc, pos| {
+                let size = acc.entry(pos.row).or_default();
+                *size = std::cmp::max(*size, pos.col + 1);
+                acc
+            });
+
         // First, we calculate the output for each content/span cell so we can
         // figure out how big each column's largest cell will be
         let fixed_size_cells = self
@@ -455,17 +464,21 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
             )?;
 
         // Second, we calculate largest cell in each column (col -> max size)
-        let mut max_column_sizes: HashMap<usize, usize> = fixed_size_cells
-            .iter()
-            .fold(HashMap::new(), |mut acc, (pos, text)| {
-                let col = pos.col;
-                let new_size = text.len();
-                let cur_size = acc.entry(col).or_insert(new_size);
-                if new_size > *cur_size {
-                    acc.insert(col, new_size);
-                }
-                acc
-            });
+        let mut max_column_sizes: HashMap<usize, usize> =
+            fixed_size_cells.iter().fold(
+                (0..self.col_cnt())
+                    .map(|col| (col, 0))
+                    .collect::<HashMap<usize, usize>>(),
+                |mut acc, (pos, text)| {
+                    let col = pos.col;
+                    let new_size = text.len();
+                    let cur_size = acc.entry(col).or_insert(new_size);
+                    if new_size > *cur_size {
+                        acc.insert(col, new_size);
+                    }
+                    acc
+                },
+            );
 
         // Make sure that the max size accounts for cases where content is
         // empty, missing, or smaller than our alignment
@@ -498,7 +511,7 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
             }
 
             write!(f, "|")?;
-            for col in 0..self.col_cnt() {
+            for col in 0..row_sizes.get(&row).copied().unwrap_or_default() {
                 // Get the max size, using 0 if nothing with a fixed size is
                 // in the column
                 let max_size =
-- 
2.43.0


From 4bbeadad4c994b72ed03850fc6b4b9eecbbfd894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 17/57] fix: only trim the current line when formatting

---
 vimwiki-core/src/lang/output/vimwiki/formatter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/formatter.rs b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
index 784fc28..21eb3b2 100644
--- a/vimwiki-core/src/lang/output/vimwiki/formatter.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
@@ -94,8 +94,13 @@ impl VimwikiFormatter {
     where
         F: FnOnce(&mut Self) -> Result<(), VimwikiOutputError>,
     {
+        // NOTE: Only trim the end of what is on the current line, otherwise we
+        //       would remove preceding lines if nothing but whitespace was
+        //       written by the function
+        let start = self.content.rfind('\n').map_or(0, |idx| idx + 1);
         self.skip_whitespace(f)?;
-        self.trim_end();
+        let trimmed_len = self.content.trim_end().len();
+        self.content.truncate(std::cmp::max(start, trimmed_len));
         Ok(())
     }
 
-- 
2.43.0


From 11144f0acddff3c5b601a86fa0f1f1596b502a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 18/57] fix: keep properties and encoded targets of links when
 formatting

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 160 ++++++++++----------
 1 file changed, 82 insertions(+), 78 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 68d5a05..0b6c420 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -14,7 +14,8 @@ use crate::lang::{
     elements::*,
     output::{Output, OutputFormatter},
 };
-use std::{collections::HashMap, fmt::Write};
+use std::{collections::HashMap, convert::TryFrom, fmt::Write};
+use uriparse::URIReference;
 
 impl<'a> Output<VimwikiFormatter> for Page<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
@@ -654,59 +655,29 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
         match self {
             Self::Wiki { data } => {
                 write!(f, "[[")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
+                write!(f, "{}", link_target(data))?;
+                fmt_link_tail(data, f)?;
                 write!(f, "]]")?;
             }
             Self::IndexedInterWiki { index, data } => {
                 write!(f, "[[")?;
                 write!(f, "wiki{}:", index)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
+                write!(f, "{}", link_target(data))?;
+                fmt_link_tail(data, f)?;
                 write!(f, "]]")?;
             }
             Self::NamedInterWiki { name, data } => {
                 write!(f, "[[")?;
                 write!(f, "wn.{}:", name)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
+                write!(f, "{}", link_target(data))?;
+                fmt_link_tail(data, f)?;
                 write!(f, "]]")?;
             }
             Self::Diary { date, data } => {
                 write!(f, "[[diary:")?;
                 write!(f, "{}", date)?;
-                if let Some(anchor) = data.to_anchor() {
-                    write!(f, "{}", anchor)?;
-                }
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
+                write!(f, "{}", link_target(data))?;
+                fmt_link_tail(data, f)?;
                 write!(f, "]]")?;
             }
             Self::Raw { data } => {
@@ -714,45 +685,8 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             }
             Self::Transclusion { data } => {
                 write!(f, "{{{{")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
-                match data.description.as_ref() {
-                    Some(Description::Text(x)) => write!(f, "|{}", x)?,
-                    Some(Description::TransclusionLink(x)) => {
-                        write!(f, "|")?;
-                        Link::Transclusion { data: *x.clone() }.fmt(f)?;
-                    }
-                    _ => {}
-                }
-                if let Some(properties) = data.properties.as_ref() {
-                    // Transclusion requires a description prior to properties,
-                    // so we make sure there is one, even if empty
-                    if data.description.is_none() {
-                        write!(f, "|")?;
-                    }
-
-                    // Start property section
-                    write!(f, "|")?;
-
-                    // NOTE: We provide specific ordering by key to ensure consitent output,
-                    //       otherwise the properties can move around with each output
-                    let mut sorted_properties = properties
-                        .iter()
-                        .map(|(key, value)| (key.as_ref(), value.as_ref()))
-                        .collect::<Vec<(&str, &str)>>();
-                    sorted_properties
-                        .sort_by(|(key1, _), (key2, _)| key1.cmp(key2));
-
-                    for (idx, (key, value)) in
-                        sorted_properties.into_iter().enumerate()
-                    {
-                        // Add space separator if not first property
-                        if idx != 0 {
-                            write!(f, " ")?;
-                        }
-
-                        write!(f, "{}=\"{}\"", key, value)?;
-                    }
-                }
+                write!(f, "{}", link_target(data))?;
+                fmt_link_tail(data, f)?;
                 write!(f, "}}}}")?;
             }
         }
@@ -761,6 +695,76 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
     }
 }
 
+/// Produces the target of a link, which is percent-decoded unless reading the
+/// decoded target would not result in the same uri
+fn link_target(data: &LinkData) -> String {
+    let decoded = data.to_decoded_uri_string();
+
+    let is_same_uri = match URIReference::try_from(decoded.as_str()) {
+        Ok(uri_ref) => uri_ref == data.uri_ref,
+        Err(_) => {
+            let encoded = LinkData::encode_uri(&decoded);
+            URIReference::try_from(encoded.as_str())
+                .map_or(false, |uri_ref| uri_ref == data.uri_ref)
+        }
+    };
+
+    // NOTE: Besides these being part of the syntax of links, %% is a comment
+    let has_syntax = decoded.contains("%%")
+        || decoded.contains(|c: char| c.is_control() || "[]{}|".contains(c));
+
+    if is_same_uri && !has_syntax {
+        decoded
+    } else {
+        data.uri_ref.to_string()
+    }
+}
+
+/// Writes the description and properties of a link, if it has any
+fn fmt_link_tail(
+    data: &LinkData,
+    f: &mut VimwikiFormatter,
+) -> VimwikiOutputResult {
+    match data.description.as_ref() {
+        Some(Description::Text(x)) => write!(f, "|{}", x)?,
+        Some(Description::TransclusionLink(x)) => {
+            write!(f, "|")?;
+            Link::Transclusion { data: *x.clone() }.fmt(f)?;
+        }
+        _ => {}
+    }
+
+    if let Some(properties) = data.properties.as_ref() {
+        // Links require a description prior to properties, so we make sure
+        // there is one, even if empty
+        if data.description.is_none() {
+            write!(f, "|")?;
+        }
+
+        // Start property section
+        write!(f, "|")?;
+
+        // NOTE: We provide specific ordering by key to ensure consitent output,
+        //       otherwise the properties can move around with each output
+        let mut sorted_properties = properties
+            .iter()
+            .map(|(key, value)| (key.as_ref(), value.as_ref()))
+            .collect::<Vec<(&str, &str)>>();
+        sorted_properties.sort_by(|(key1, _), (key2, _)| key1.cmp(key2));
+
+        for (idx, (key, value)) in sorted_properties.into_iter().enumerate() {
+            // Add space separator if not first property
+            if idx != 0 {
+                write!(f, " ")?;
+            }
+
+            write!(f, "{}=\"{}\"", key, value)?;
+        }
+    }
+
+    Ok(())
+}
+
 impl<'a> Output<VimwikiFormatter> for Tags<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         write!(f, ":")?;
-- 
2.43.0


From b7eebd2845227ecd9166266dfa599f990308c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 19/57] fix: keep properties of diary links

---
 .../parsers/vimwiki/blocks/inline/links/diary.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
index dcfb4c7..58b7b9b 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
@@ -1,4 +1,4 @@
-use super::{link_anchor, link_description};
+use super::{link_anchor, link_description, link_properties};
 use crate::lang::{
     elements::{Link, Located},
     parsers::{
@@ -36,10 +36,16 @@ pub fn diary_link(input: Span) -> IResult<Located<Link>> {
         // Finally, check if there is a description (preceding with |)
         let (input, maybe_description) = opt(link_description)(input)?;
 
-        Ok((
-            input,
-            Link::new_diary_link(date, maybe_description, maybe_anchor),
-        ))
+        // Alongside properties that can follow a description
+        let (input, maybe_properties) = opt(link_properties)(input)?;
+
+        let mut link =
+            Link::new_diary_link(date, maybe_description, maybe_anchor);
+        if let Link::Diary { data, .. } = &mut link {
+            data.properties = maybe_properties;
+        }
+
+        Ok((input, link))
     }
 
     context(
-- 
2.43.0


From bcdc1cdad267106c2c13ab49ce1c2029d09eeb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 20/57] fix: encode stray percent signs and keep encoded pound
 signs in link targets

---
 .../lang/elements/blocks/inline/links/data.rs | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index eab64e5..8568503 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -89,11 +89,34 @@ impl<'a> LinkData<'a> {
             .add(b'`')
             .add(b'#');
 
-        // NOTE: We encode our string, but need to repair the first #
-        //       which signals the fragment
-        percent_encode(uri.as_ref(), FRAGMENT)
-            .to_string()
-            .replacen("%23", "#", 1)
+        // NOTE: A percent sign that is not part of an encoded character has
+        //       to be encoded, too, as it is otherwise not a valid URI
+        let encode = |bytes: &[u8]| {
+            let mut s = String::new();
+            for (idx, part) in bytes.split(|b| *b == b'%').enumerate() {
+                if idx > 0 {
+                    let is_encoded = part
+                        .iter()
+                        .take(2)
+                        .filter(|b| b.is_ascii_hexdigit())
+                        .count()
+                        == 2;
+                    s.push_str(if is_encoded { "%" } else { "%25" });
+                }
+                s.extend(percent_encode(part, FRAGMENT));
+            }
+            s
+        };
+
+        // NOTE: We encode our string, but need to keep the first # as is
+        //       because it signals the fragment
+        let uri = uri.as_ref();
+        match uri.iter().position(|b| *b == b'#') {
+            Some(idx) => {
+                format!("{}#{}", encode(&uri[..idx]), encode(&uri[idx + 1..]))
+            }
+            None => encode(uri),
+        }
     }
 
     /// Allocates a new string with percent-encoded characters decoded
-- 
2.43.0


From 6add90f8d53a09ba6c5aff0c57fb55e0f4675ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 21/57] fix: keep lists next to each other within an item apart
 when formatting

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 0b6c420..3b17c33 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -241,8 +241,22 @@ impl<'a> Output<VimwikiFormatter> for ListItem<'a> {
                 }
             }
 
+            // A list directly followed by other lists needs to be indented
+            // further than those, otherwise they would become a single list
+            let extra = self.contents[idx..]
+                .windows(2)
+                .take_while(|pair| {
+                    pair.iter().all(|x| {
+                        matches!(x.as_inner(), BlockElement::List(_))
+                    })
+                })
+                .count();
+
             // Write content at next indentation level
-            f.and_indent(|f| content.fmt(f))?;
+            f.indent_level += extra;
+            let result = f.and_indent(|f| content.fmt(f));
+            f.indent_level -= extra;
+            result?;
         }
 
         Ok(())
-- 
2.43.0


From 13947f84ebbac2b0b850deebec37f67dc433acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 22/57] fix: remove indentation of code and math blocks that
 begin on the line of a list item

---
 vimwiki-core/src/lang/parsers/span.rs                |  6 ++++++
 vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs | 10 +++++++++-
 vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs | 10 +++++++++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 7ce22cb..062ec14 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -210,6 +210,12 @@ impl<'a> Span<'a> {
         })
     }
 
+    /// Returns true if there is nothing on the same line before the remaining
+    /// portion of the overall span
+    pub fn is_at_start_of_line(&self) -> bool {
+        matches!(self.as_consumed().last(), None | Some(b'\n'))
+    }
+
     /// Represents the total number of bytes remaining from the input
     pub fn remaining_len(&self) -> usize {
         if self.start <= self.end {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index ef4ee30..b31d417 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -23,6 +23,7 @@ type Metadata<'a> = HashMap<Cow<'a, str>, Cow<'a, str>>;
 #[inline]
 pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
     fn inner(input: Span) -> IResult<CodeBlock> {
+        let is_at_start_of_line = input.is_at_start_of_line();
         let (input, (start_indent_size, maybe_lang, metadata)) =
             code_block_start(input)?;
         let (input, lines) = many0(preceded(
@@ -33,7 +34,14 @@ pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
 
         // We need to adjust the start of each line based on the indentation
         // of the code block start/end and the space at the beginning of a line
-        let indent_size = std::cmp::min(start_indent_size, end_indent_size);
+        //
+        // NOTE: If there is something before the block on its first line, such
+        //       as the prefix of a list item, only the end has an indentation
+        let indent_size = if is_at_start_of_line {
+            std::cmp::min(start_indent_size, end_indent_size)
+        } else {
+            end_indent_size
+        };
         let lines = lines
             .into_iter()
             .map(|mut line| {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
index 1341ba2..75888f6 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@@ -19,6 +19,7 @@ use std::borrow::Cow;
 
 pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
     fn inner(input: Span) -> IResult<MathBlock> {
+        let is_at_start_of_line = input.is_at_start_of_line();
         // First, look for the beginning section including an optional environment
         let (input, (start_indent_size, environment)) =
             beginning_of_math_block(input)?;
@@ -34,7 +35,14 @@ pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
 
         // We need to adjust the start of each line based on the indentation
         // of the code block start/end and the space at the beginning of a line
-        let indent_size = std::cmp::min(start_indent_size, end_indent_size);
+        //
+        // NOTE: If there is something before the block on its first line, such
+        //       as the prefix of a list item, only the end has an indentation
+        let indent_size = if is_at_start_of_line {
+            std::cmp::min(start_indent_size, end_indent_size)
+        } else {
+            end_indent_size
+        };
         let lines = lines
             .into_iter()
             .map(|mut line| {
-- 
2.43.0


From 09864488bfe907df472f099ec4fafbb3c811d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 23/57] fix: keep neighboring elements and blockquotes apart
 when formatting

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 135 +++++++++++++++-----
 1 file changed, 106 insertions(+), 29 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 3b17c33..e2e8bea 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -13,6 +13,7 @@ pub use error::{VimwikiOutputError, VimwikiOutputResult};
 use crate::lang::{
     elements::*,
     output::{Output, OutputFormatter},
+    Language,
 };
 use std::{collections::HashMap, convert::TryFrom, fmt::Write};
 use uriparse::URIReference;
@@ -28,9 +29,12 @@ impl<'a> Output<VimwikiFormatter> for Page<'a> {
             element.fmt(f)?;
 
             // If specified, add an additional linefeed after each element
-            // except for the very last one
-            if separate_block_elements && idx < self.elements.len() - 1 {
-                writeln!(f)?;
+            // except for the very last one; also add one if the next element
+            // would be read as a part of this one without it
+            if let Some(next) = self.elements.get(idx + 1) {
+                if separate_block_elements || needs_separation(element, next) {
+                    writeln!(f)?;
+                }
             }
         }
 
@@ -38,6 +42,33 @@ impl<'a> Output<VimwikiFormatter> for Page<'a> {
     }
 }
 
+/// Returns whether or not there needs to be a blank line between the first and
+/// the second element as the second would otherwise continue the first
+fn needs_separation(first: &BlockElement, second: &BlockElement) -> bool {
+    // Second element may begin with indentation
+    let is_indented = match second {
+        BlockElement::Blockquote(_) => true,
+        BlockElement::Header(x) => x.centered,
+        BlockElement::Table(x) => x.centered,
+        _ => false,
+    };
+
+    match first {
+        BlockElement::Paragraph(_) => {
+            is_indented || matches!(second, BlockElement::Paragraph(_))
+        }
+        BlockElement::Blockquote(_) => is_indented,
+        BlockElement::List(_) => {
+            is_indented || matches!(second, BlockElement::List(_))
+        }
+        BlockElement::DefinitionList(_) => {
+            matches!(second, BlockElement::DefinitionList(_))
+        }
+        BlockElement::Table(_) => matches!(second, BlockElement::Table(_)),
+        _ => false,
+    }
+}
+
 impl<'a> Output<VimwikiFormatter> for Element<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         match self {
@@ -77,36 +108,83 @@ impl<'a> Output<VimwikiFormatter> for BlockElement<'a> {
 
 impl<'a> Output<VimwikiFormatter> for Blockquote<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
-        let VimwikiBlockquoteConfig {
-            prefer_indented_blockquote,
-            trim_lines,
-        } = f.config().blockquote;
+        // TODO: Support determining when to use each type of blockquote
+        //       as default instead of forcing one type or another
+        let is_indented = f.config().blockquote.prefer_indented_blockquote
+            && can_indent_blockquote(self, f)?;
 
-        for line in self {
-            f.write_indent()?;
+        fmt_blockquote(self, is_indented, f)
+    }
+}
 
-            // TODO: Support determining when to use each type of blockquote
-            //       as default instead of forcing one type or another
-            // TODO: Support spacing on multiple >>> for nested blockquotes
-            //       once those are implemented
-            if prefer_indented_blockquote {
-                write!(f, "    ")?;
-            } else {
-                write!(f, "> ")?;
+/// Returns whether or not the blockquote can be written using indentation,
+/// which is not possible when nested in another element nor if it has lines
+/// that are blank or that would be read as some other element
+fn can_indent_blockquote(
+    blockquote: &Blockquote,
+    f: &VimwikiFormatter,
+) -> Result<bool, VimwikiOutputError> {
+    // NOTE: The start of a code or math block is not read as such without its
+    //       end, which might come after the blockquote
+    if f.indent_level > 0
+        || blockquote
+            .lines
+            .iter()
+            .any(|x| x.trim_start().starts_with("{{"))
+    {
+        return Ok(false);
+    }
+
+    let mut formatter = f.clone_without_content();
+    fmt_blockquote(blockquote, true, &mut formatter)?;
+    let content = formatter.into_content();
+
+    let page: Page = match Language::from_vimwiki_str(&content).parse() {
+        Ok(page) => page,
+        Err(_) => return Ok(false),
+    };
+
+    Ok(match page.elements.as_slice() {
+        [element] => match element.as_inner() {
+            BlockElement::Blockquote(x) => {
+                x.lines.len() == blockquote.lines.len()
             }
+            _ => false,
+        },
+        _ => false,
+    })
+}
 
-            if trim_lines {
-                f.and_trim(|f| {
-                    write!(f, "{}", line)?;
-                    Ok(())
-                })?;
-            } else {
+/// Writes the blockquote either using indentation or using arrows
+fn fmt_blockquote(
+    blockquote: &Blockquote,
+    is_indented: bool,
+    f: &mut VimwikiFormatter,
+) -> VimwikiOutputResult {
+    let VimwikiBlockquoteConfig { trim_lines, .. } = f.config().blockquote;
+
+    for line in blockquote {
+        f.write_indent()?;
+
+        // TODO: Support spacing on multiple >>> for nested blockquotes
+        //       once those are implemented
+        if is_indented {
+            write!(f, "    ")?;
+        } else {
+            write!(f, "> ")?;
+        }
+
+        if trim_lines {
+            f.and_trim(|f| {
                 write!(f, "{}", line)?;
-            }
-            writeln!(f)?;
+                Ok(())
+            })?;
+        } else {
+            write!(f, "{}", line)?;
         }
-        Ok(())
+        writeln!(f)?;
     }
+    Ok(())
 }
 
 impl<'a> Output<VimwikiFormatter> for DefinitionList<'a> {
@@ -246,9 +324,8 @@ impl<'a> Output<VimwikiFormatter> for ListItem<'a> {
             let extra = self.contents[idx..]
                 .windows(2)
                 .take_while(|pair| {
-                    pair.iter().all(|x| {
-                        matches!(x.as_inner(), BlockElement::List(_))
-                    })
+                    pair.iter()
+                        .all(|x| matches!(x.as_inner(), BlockElement::List(_)))
                 })
                 .count();
 
-- 
2.43.0


From c1b6739c89a04ed2bc46ef4c9a11bd7f1a9864f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 24/57] fix: keep the trailing empty line of comments written
 without padding

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index e2e8bea..bd004ad 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -936,8 +936,8 @@ impl<'a> Output<VimwikiFormatter> for MultiLineComment<'a> {
                 line.as_ref()
             };
 
-            // Don't write newline on last line
-            if idx == self.len() - 1 {
+            // Don't write newline on last line unless there is nothing on it
+            if idx == self.len() - 1 && !(no_padding && content.is_empty()) {
                 write!(f, "{}", content)?;
             } else {
                 writeln!(f, "{}", content)?;
-- 
2.43.0


From b37a6d41db77c65107553f39d1e1de5698b2f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 25/57] fix: do not trim characters that are part of the text
 when formatting

---
 vimwiki-core/src/lang/output/vimwiki/formatter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/formatter.rs b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
index 21eb3b2..dbaba5b 100644
--- a/vimwiki-core/src/lang/output/vimwiki/formatter.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
@@ -1,6 +1,10 @@
 use super::{OutputFormatter, VimwikiConfig, VimwikiOutputError};
 use std::fmt::{self, Write};
 
+/// Characters to remove when trimming, which are those that have no meaning at
+/// the beginning or end of a line; any other whitespace is part of the text
+const BLANKS: &[char] = &[' ', '\t', '\r', '\n'];
+
 /// Represents the formatter to use to write ivimwiki output that includes various
 /// options that can be set as well as a context for use when writing output
 #[derive(Clone, Default)]
@@ -29,7 +33,7 @@ impl Write for VimwikiFormatter {
         // If flagged to skip whitespace, we want to skip all whitespace
         // until we see the first non-whitespace character
         let s = if self.skip_whitespace {
-            let tmp = s.trim_start();
+            let tmp = s.trim_start_matches(BLANKS);
             if !tmp.is_empty() {
                 self.skip_whitespace = false;
             }
@@ -99,7 +103,7 @@ impl VimwikiFormatter {
         //       written by the function
         let start = self.content.rfind('\n').map_or(0, |idx| idx + 1);
         self.skip_whitespace(f)?;
-        let trimmed_len = self.content.trim_end().len();
+        let trimmed_len = self.content.trim_end_matches(BLANKS).len();
         self.content.truncate(std::cmp::max(start, trimmed_len));
         Ok(())
     }
-- 
2.43.0


From 9d89f02cd964f2141d2636def9472d69bba8a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 26/57] fix: write attributes of code blocks and links in a
 stable order

---
 vimwiki-core/src/lang/output/html/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index d8c1518..71367d3 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -579,7 +579,7 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
-                for (attr, value) in self.metadata.iter() {
+                for (attr, value) in sorted_attributes(&self.metadata) {
                     write!(f, r#" {}="{}""#, attr, value)?;
                 }
 
@@ -1074,7 +1074,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 }
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
+                    for (k, v) in sorted_attributes(properties) {
                         write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
                     }
                 }
@@ -1084,7 +1084,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 write!(f, "<a href=\"{}\"", href)?;
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
+                    for (k, v) in sorted_attributes(properties) {
                         write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
                     }
                 }
@@ -1254,6 +1254,15 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
     }
 }
 
+/// Sorts attributes by their name as the order of a hash map is not stable
+fn sorted_attributes<'a, 'b>(
+    attributes: &'b HashMap<Cow<'a, str>, Cow<'a, str>>,
+) -> Vec<(&'b Cow<'a, str>, &'b Cow<'a, str>)> {
+    let mut attributes: Vec<_> = attributes.iter().collect();
+    attributes.sort_unstable();
+    attributes
+}
+
 fn build_complete_id(
     f: &mut HtmlFormatter,
     max_level: usize,
-- 
2.43.0


From 94069dc33363a24b111ae72208051e3706fc1b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 27/57] fix: escape languages, attributes and math environments
 in HTML

---
 vimwiki-core/src/lang/output/html/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 71367d3..cb7e669 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -414,6 +414,7 @@ impl<'a> Output<HtmlFormatter> for MathBlock<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if let Some(env) = self.environment.as_deref() {
+            let env = escape::escape_html(env);
             writeln!(f, r"\begin{{{}}}", env)?;
             for line in self {
                 writeln!(f, "{}", escape::escape_html(line))?;
@@ -575,12 +576,17 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
 
                 // If provided with a language, fill it in as the class
                 if let Some(lang) = self.language.as_ref() {
-                    write!(f, r#" class="{}""#, lang)?;
+                    write!(f, r#" class="{}""#, escape::escape_html(lang))?;
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
                 for (attr, value) in sorted_attributes(&self.metadata) {
-                    write!(f, r#" {}="{}""#, attr, value)?;
+                    write!(
+                        f,
+                        r#" {}="{}""#,
+                        escape::escape_html(attr),
+                        escape::escape_html(value)
+                    )?;
                 }
 
                 // NOTE: We do NOT include a newline here because it results
@@ -1075,7 +1081,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in sorted_attributes(properties) {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
@@ -1085,7 +1096,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in sorted_attributes(properties) {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
-- 
2.43.0


From c1a65035755d504109837923f90f1f02a8290ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 28/57] fix: do not let comments end the HTML comment they are
 written into

---
 vimwiki-core/src/lang/output/html/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index cb7e669..a513dbc 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1237,7 +1237,7 @@ impl<'a> Output<HtmlFormatter> for LineComment<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if f.config().comment.include {
-            write!(f, "<!-- {} -->", self.as_str())?;
+            write!(f, "<!-- {} -->", escape_comment(self.as_str()))?;
         }
         Ok(())
     }
@@ -1262,7 +1262,7 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
         if f.config().comment.include {
             writeln!(f, "<!--")?;
             for line in self {
-                writeln!(f, "{}", line)?;
+                writeln!(f, "{}", escape_comment(line))?;
             }
             write!(f, "-->")?;
         }
@@ -1279,6 +1279,11 @@ fn sorted_attributes<'a, 'b>(
     attributes
 }
 
+/// Escapes whatever would end an HTML comment early
+fn escape_comment(text: &str) -> String {
+    text.replace("-->", "--&gt;").replace("--!>", "--!&gt;")
+}
+
 fn build_complete_id(
     f: &mut HtmlFormatter,
     max_level: usize,
-- 
2.43.0


From 783bdb02e86d10284eb73de1de7b7c5e3bc3b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 29/57] fix: show tags as they were written

---
 vimwiki-core/src/lang/output/html/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index a513dbc..908f15f 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1179,7 +1179,8 @@ impl<'a> Output<HtmlFormatter> for Tags<'a> {
             write!(
                 f,
                 "<span class=\"tag\" id=\"{}\">{}</span>",
-                unique_id, id
+                unique_id,
+                escape::escape_html(tag.as_str())
             )?;
         }
 
-- 
2.43.0


From d04bea00cccf700ea886b6c41e27d9e507a25a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 30/57] fix: fill in variables of HTML templates in a single
 pass

---
 vimwiki-core/src/lang/output/html/convert.rs | 97 ++++++++++++--------
 1 file changed, 59 insertions(+), 38 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c88d180..2ef56a7 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -64,46 +64,67 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .map_err(|source| HtmlOutputError::TemplateNotLoaded { source })?
             .unwrap_or_else(|| formatter.config().template.text.to_string());
 
+        let root_path = {
+            let path_str = utils::path_to_uri_string(
+                formatter
+                    .config()
+                    .to_active_page_path_to_wiki_root()
+                    .as_path(),
+            );
+
+            if path_str.is_empty() {
+                String::new()
+            } else {
+                format!("{}/", path_str)
+            }
+        };
+        let wiki_path = utils::path_to_uri_string(
+            formatter.config().as_active_page_path_within_wiki(),
+        );
+
         // Fill in template variables
-        // NOTE: Content is filled in last so we don't replace parts of content
-        //       with template variable contents as template variables only
-        //       apply to the template and not the content itself
-        let template = template
-            .replace("%title%", &title)
-            .replace("%date%", &date.to_string())
-            .replace(
-                "%root_path%",
-                {
-                    let path_str = utils::path_to_uri_string(
-                        formatter
-                            .config()
-                            .to_active_page_path_to_wiki_root()
-                            .as_path(),
-                    );
-
-                    if path_str.is_empty() {
-                        String::new()
-                    } else {
-                        format!("{}/", path_str)
-                    }
-                }
-                .as_str(),
-            )
-            .replace(
-                "%wiki_path%",
-                &utils::path_to_uri_string(
-                    formatter.config().as_active_page_path_within_wiki(),
-                ),
-            )
-            .replace(
-                "%css%",
-                formatter.config().to_current_wiki().css_name.as_str(),
-            )
-            .replace("%encoding%", "utf-8")
-            .replace("%content%", formatter.get_content());
-
-        Ok(template)
+        //
+        // NOTE: Variables only apply to the template itself, so this must not
+        //       look at the content (or any other value) once filled in
+        Ok(fill_template(
+            &template,
+            &[
+                ("%title%", &title),
+                ("%date%", &date.to_string()),
+                ("%root_path%", &root_path),
+                ("%wiki_path%", &wiki_path),
+                ("%css%", &formatter.config().to_current_wiki().css_name),
+                ("%encoding%", "utf-8"),
+                ("%content%", formatter.get_content()),
+            ],
+        ))
+    }
+}
+
+/// Replaces each occurrence of a variable within the template by its value in
+/// a single pass, leaving everything else of the template as it is
+fn fill_template(template: &str, variables: &[(&str, &str)]) -> String {
+    let mut out = String::new();
+    let mut rest = template;
+
+    while let Some(idx) = rest.find('%') {
+        out.push_str(&rest[..idx]);
+        rest = &rest[idx..];
+
+        match variables.iter().find(|(name, _)| rest.starts_with(name)) {
+            Some((name, value)) => {
+                out.push_str(value);
+                rest = &rest[name.len()..];
+            }
+            None => {
+                out.push('%');
+                rest = &rest[1..];
+            }
+        }
     }
+
+    out.push_str(rest);
+    out
 }
 
 #[cfg(test)]
-- 
2.43.0


From d9fcfd01827a23573173b039476d7e7be1131d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 31/57] fix: find templates by their name without extension as
 configured

---
 vimwiki-core/src/lang/output/html/convert.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index 2ef56a7..726752a 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -1,5 +1,6 @@
 use super::{utils, HtmlConfig, HtmlFormatter, HtmlOutputError, Output};
 use chrono::Local;
+use std::path::PathBuf;
 
 pub trait ToHtmlString {
     /// Converts to individual HTML dom string
@@ -55,10 +56,22 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .unwrap_or_else(|| Local::now().naive_local().date());
 
         // Attempts to find and load template in {TEMPLATE_DIR}/{TEMPLATE},
+        // or {TEMPLATE_DIR}/{TEMPLATE}.{EXT} if there is no such file,
         // defaulting to vimwiki's standard template
         let template = formatter
             .take_template()
-            .map(|p| formatter.config().template.dir.join(p))
+            .map(|p| {
+                let config = &formatter.config().template;
+                let path = config.dir.join(p);
+                if path.is_file() {
+                    path
+                } else {
+                    let mut path = path.into_os_string();
+                    path.push(".");
+                    path.push(&config.ext);
+                    PathBuf::from(path)
+                }
+            })
             .map(std::fs::read_to_string)
             .transpose()
             .map_err(|source| HtmlOutputError::TemplateNotLoaded { source })?
-- 
2.43.0


From b25fb3bdf759f6d07595e5e7dbc41e7da96332e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 32/57] fix: escape the title of HTML pages

---
 vimwiki-core/src/lang/output/html/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index 726752a..69360b4 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -1,6 +1,7 @@
 use super::{utils, HtmlConfig, HtmlFormatter, HtmlOutputError, Output};
 use chrono::Local;
 use std::path::PathBuf;
+use voca_rs::escape;
 
 pub trait ToHtmlString {
     /// Converts to individual HTML dom string
@@ -102,7 +103,7 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
         Ok(fill_template(
             &template,
             &[
-                ("%title%", &title),
+                ("%title%", &escape::escape_html(&title)),
                 ("%date%", &date.to_string()),
                 ("%root_path%", &root_path),
                 ("%wiki_path%", &wiki_path),
-- 
2.43.0


From 80759313b6afdb63b8464cd3f0cbca8eddda8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 33/57] fix: encode paths of pages and wikis when linking to
 them in HTML

---
 .../lang/elements/blocks/inline/links/data.rs | 12 +++++-
 vimwiki-core/src/lang/output/html/utils.rs    | 37 +++++++++++++++----
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index 8568503..64daf0b 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -178,12 +178,20 @@ impl<'a> LinkData<'a> {
     }
 
     /// Produces a `PathBuf` from the path of the link's uri, using the
-    /// system's separator as the start if absolute
+    /// system's separator as the start if absolute and decoding characters
+    /// that are percent-encoded
     pub fn to_path_buf(&self) -> PathBuf {
         let mut path = PathBuf::new();
 
         for seg in self.uri_ref.path().segments() {
-            path.push(seg.as_str());
+            // NOTE: An encoded separator or bytes that are no text cannot be
+            //       part of a path's segment, so these are left as they are
+            match percent_decode(seg.as_str().as_bytes()).decode_utf8() {
+                Ok(x) if !x.contains(std::path::is_separator) => {
+                    path.push(x.as_ref())
+                }
+                _ => path.push(seg.as_str()),
+            }
         }
 
         // If absolute, we need to make the path absolute
diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 2e82f35..d4ae166 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -2,6 +2,7 @@ use super::{HtmlConfig, HtmlWikiConfig};
 use crate::Link;
 use chrono::NaiveDate;
 use derive_more::{Display, Error};
+use percent_encoding::{utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
 use relative_path::RelativePathBuf;
 use serde::{de, Deserialize};
 use std::{
@@ -375,16 +376,36 @@ fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
     //       of the web, we just want c as referencing from the same directory
     //       is fine; this means that we remove the first .. in the path
     let relative_path = src_rel.relative(target_rel);
-    let res = RelativeReference::try_from(
-        relative_path
-            .strip_prefix("..")
-            .unwrap_or(&relative_path)
-            .as_str(),
-    )
-    .map(RelativeReference::into_owned);
-    res
+    let relative_path =
+        relative_path.strip_prefix("..").unwrap_or(&relative_path);
+
+    // NOTE: The names of files and directories can contain any character, so
+    //       each has to be encoded to be a part of a reference
+    let path = relative_path
+        .iter()
+        .map(|s| utf8_percent_encode(s, PATH_SEGMENT).to_string())
+        .collect::<Vec<String>>()
+        .join("/");
+    RelativeReference::try_from(path.as_str())
+        .map(RelativeReference::into_owned)
 }
 
+/// Characters of a path's segment that need to be percent-encoded
+const PATH_SEGMENT: &AsciiSet = &NON_ALPHANUMERIC
+    .remove(b'-')
+    .remove(b'.')
+    .remove(b'_')
+    .remove(b'~')
+    .remove(b'!')
+    .remove(b'$')
+    .remove(b'(')
+    .remove(b')')
+    .remove(b'*')
+    .remove(b'+')
+    .remove(b',')
+    .remove(b'=')
+    .remove(b'@');
+
 /// Makes a path relative by stripping it of absolute/root starting elements
 pub fn make_path_relative<P: AsRef<Path>>(path: P) -> PathBuf {
     path.as_ref()
-- 
2.43.0


From e65db77134050fc6761ae97f39b121ca64d1c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 34/57] fix: link to the index of a directory of another wiki

---
 vimwiki-core/src/lang/output/html/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index d4ae166..afcba07 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -231,8 +231,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -264,8 +263,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
-- 
2.43.0


From 57473cc315533b8d838bb5db26fa8cde35480462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 35/57] fix: link to files with an extension of their own
 instead of a page

---
 vimwiki-core/src/lang/output/html/utils.rs | 39 ++++++++++++++++------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index afcba07..e091bb1 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -173,12 +173,11 @@ pub fn resolve_link(
         Link::Wiki { data } => {
             if data.is_local() && !data.is_local_anchor() {
                 // TODO: Support alternative directory file name
-                // NOTE: Don't need to provide extension as will be replaced in
-                //       the absolute output path anyway
                 let mut path = data.to_path_buf();
                 if target_is_dir {
                     path.push("index");
                 }
+                let ext = make_target_ext(src_wiki, &mut path);
 
                 // Build our output path
                 //
@@ -187,7 +186,7 @@ pub fn resolve_link(
                 // 2. If relative, then we want to place the path relative to
                 //    the current file's directory
                 let target_out = if data.uri_ref.path().is_absolute() {
-                    src_wiki.make_output_path(path.as_path(), ext)
+                    src_wiki.make_output_path(path.as_path(), ext.as_str())
                 } else {
                     src_wiki.make_output_path(
                         src.parent()
@@ -195,7 +194,7 @@ pub fn resolve_link(
                             .unwrap_or_default()
                             .join(path.as_path())
                             .as_path(),
-                        ext,
+                        ext.as_str(),
                     )
                 };
 
@@ -221,17 +220,17 @@ pub fn resolve_link(
             })?;
 
             // TODO: Support alternative directory file name
-            // NOTE: Don't need to provide extension as will be replaced in
-            //       the absolute output path anyway
             let mut path = data.to_path_buf();
             if target_is_dir {
                 path.push("index");
             }
+            let ext = make_target_ext(wiki, &mut path);
 
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out = wiki.make_output_path(path.as_path(), ext);
+            let target_out =
+                wiki.make_output_path(path.as_path(), ext.as_str());
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -253,17 +252,17 @@ pub fn resolve_link(
             })?;
 
             // TODO: Support alternative directory file name
-            // NOTE: Don't need to provide extension as will be replaced in
-            //       the absolute output path anyway
             let mut path = data.to_path_buf();
             if target_is_dir {
                 path.push("index");
             }
+            let ext = make_target_ext(wiki, &mut path);
 
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out = wiki.make_output_path(path.as_path(), ext);
+            let target_out =
+                wiki.make_output_path(path.as_path(), ext.as_str());
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -359,6 +358,26 @@ fn make_diary_absolute_output_path(
     config.make_output_path(input.as_path(), ext)
 }
 
+/// Produces the extension of the output of a link's target. If the target has
+/// an extension other than the one used by pages of the wiki, then the link is
+/// to that file and the extension is kept. Otherwise, the link is to a page
+/// and the path is completed to be the path of the page's file
+fn make_target_ext(wiki: &HtmlWikiConfig, path: &mut PathBuf) -> String {
+    match path.extension().and_then(OsStr::to_str) {
+        Some(ext) if ext == wiki.ext => String::from("html"),
+        Some(ext) if !ext.is_empty() => ext.to_string(),
+        _ => {
+            if path.file_name().is_some() {
+                let mut file = std::mem::take(path).into_os_string();
+                file.push(".");
+                file.push(&wiki.ext);
+                *path = PathBuf::from(file);
+            }
+            String::from("html")
+        }
+    }
+}
+
 /// Given a src and target path, creates a relative reference
 #[inline]
 fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
-- 
2.43.0


From bacd7eb2f06006d110ef445fb1a0a2c54c869485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 36/57] fix: refer to the ids of headers in anchors of links

---
 vimwiki-core/src/lang/output/html/utils.rs | 57 +++++++++++++++-------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index e091bb1..4be402c 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -1,5 +1,5 @@
 use super::{HtmlConfig, HtmlWikiConfig};
-use crate::Link;
+use crate::{Link, LinkData};
 use chrono::NaiveDate;
 use derive_more::{Display, Error};
 use percent_encoding::{utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
@@ -53,14 +53,16 @@ where
 /// Normalizes text as an id by replacing whitespace with dashes and then
 /// escaping common html
 pub fn normalize_id(id: &str) -> String {
-    escape::escape_html(
-        id.to_lowercase()
-            .split(|c: char| c.is_whitespace())
-            .filter(|s| !s.is_empty())
-            .collect::<Vec<&str>>()
-            .join("-")
-            .as_str(),
-    )
+    escape::escape_html(normalize_id_text(id).as_str())
+}
+
+/// Normalizes text as an id without escaping it
+fn normalize_id_text(id: &str) -> String {
+    id.to_lowercase()
+        .split(|c: char| c.is_whitespace())
+        .filter(|s| !s.is_empty())
+        .collect::<Vec<&str>>()
+        .join("-")
 }
 
 /// Normalize a path, removing things like `.` and `..`.
@@ -204,10 +206,16 @@ pub fn resolve_link(
                         LinkResolutionError::RelativeReference { source }
                     })?;
 
-                if let Some(anchor) = data.to_anchor() {
-                    uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+                if let Some(fragment) = make_anchor_fragment(data) {
+                    uri_ref.map_fragment(|_| Some(fragment));
                 }
 
+                uri_ref
+            } else if data.is_local_anchor() {
+                let mut uri_ref = data.uri_ref.clone();
+                if let Some(fragment) = make_anchor_fragment(data) {
+                    uri_ref.map_fragment(|_| Some(fragment));
+                }
                 uri_ref
             } else {
                 data.uri_ref.clone()
@@ -238,8 +246,8 @@ pub fn resolve_link(
                     source,
                 })?;
 
-            if let Some(anchor) = data.to_anchor() {
-                uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+            if let Some(fragment) = make_anchor_fragment(data) {
+                uri_ref.map_fragment(|_| Some(fragment));
             }
 
             uri_ref
@@ -270,8 +278,8 @@ pub fn resolve_link(
                     source,
                 })?;
 
-            if let Some(anchor) = data.to_anchor() {
-                uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+            if let Some(fragment) = make_anchor_fragment(data) {
+                uri_ref.map_fragment(|_| Some(fragment));
             }
 
             uri_ref
@@ -286,8 +294,8 @@ pub fn resolve_link(
                     source,
                 })?;
 
-            if let Some(anchor) = data.to_anchor() {
-                uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+            if let Some(fragment) = make_anchor_fragment(data) {
+                uri_ref.map_fragment(|_| Some(fragment));
             }
 
             uri_ref
@@ -339,6 +347,21 @@ pub fn resolve_link(
     Ok(uri_ref.into_owned())
 }
 
+/// Produces a fragment from the anchor of a link that refers to the id of the
+/// header (or other element) that the anchor names
+fn make_anchor_fragment(data: &LinkData<'_>) -> Option<Fragment<'static>> {
+    let id = data
+        .to_anchor()?
+        .into_iter()
+        .map(|x| normalize_id_text(&LinkData::decode_uri(x.as_bytes())))
+        .collect::<Vec<String>>()
+        .join("-");
+    let fragment = utf8_percent_encode(&id, PATH_SEGMENT).to_string();
+    Fragment::try_from(fragment.as_str())
+        .ok()
+        .map(Fragment::into_owned)
+}
+
 /// Produces an output path for a diary file
 fn make_diary_absolute_output_path(
     config: &HtmlWikiConfig,
-- 
2.43.0


From bbdb4a3e5283ae1da529b474cd4e3df486f94e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 37/57] fix: keep the fragment of local transclusion links in
 HTML

---
 vimwiki-core/src/lang/output/html/utils.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 4be402c..6fe5da4 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -331,11 +331,18 @@ pub fn resolve_link(
                     )
                 };
 
-                make_relative_link(src_out, target_out)
+                let mut uri_ref = make_relative_link(src_out, target_out)
                     .map(URIReference::from)
                     .map_err(|source| {
                         LinkResolutionError::RelativeReference { source }
-                    })?
+                    })?;
+
+                if let Some(fragment) = data.uri_ref.fragment() {
+                    let fragment = fragment.clone().into_owned();
+                    uri_ref.map_fragment(|_| Some(fragment));
+                }
+
+                uri_ref
 
             // Otherwise, we can just pass back the link as-is
             } else {
-- 
2.43.0


From e94a2472e580683d5a6d064328e5d0b89b100917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 38/57] fix: link to an anchor of the index of the wiki

---
 vimwiki-core/src/lang/output/html/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 6fe5da4..0e6276e 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -170,10 +170,15 @@ pub fn resolve_link(
     // certain links account for that
     let target_is_dir = is_directory_uri(&target.data().uri_ref);
 
+    // A link with nothing but an anchor is to the page itself, unless it has
+    // the root of the wiki in front of the anchor
+    let target_is_anchor = target.data().is_local_anchor()
+        && !target.data().uri_ref.path().is_absolute();
+
     // First, build our raw uri WITHOUT anchors
     let uri_ref = match target {
         Link::Wiki { data } => {
-            if data.is_local() && !data.is_local_anchor() {
+            if data.is_local() && !target_is_anchor {
                 // TODO: Support alternative directory file name
                 let mut path = data.to_path_buf();
                 if target_is_dir {
@@ -211,7 +216,7 @@ pub fn resolve_link(
                 }
 
                 uri_ref
-            } else if data.is_local_anchor() {
+            } else if target_is_anchor {
                 let mut uri_ref = data.uri_ref.clone();
                 if let Some(fragment) = make_anchor_fragment(data) {
                     uri_ref.map_fragment(|_| Some(fragment));
-- 
2.43.0


From 399c5b03f534110b92a300fee041a1e5631e652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 39/57] fix: forget deeper headers once a header of a higher
 level follows

---
 vimwiki-core/src/lang/output/html/formatter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/formatter.rs b/vimwiki-core/src/lang/output/html/formatter.rs
index 460864c..8c22727 100644
--- a/vimwiki-core/src/lang/output/html/formatter.rs
+++ b/vimwiki-core/src/lang/output/html/formatter.rs
@@ -63,12 +63,14 @@ impl HtmlFormatter {
     }
 
     /// Inserts text for the header at the given level to be remembered when
-    /// keeping track of the last header seen at a given level
+    /// keeping track of the last header seen at a given level, which ends all
+    /// of the sections of headers at a deeper level
     pub fn insert_header_text<Text: Into<String>>(
         &mut self,
         level: usize,
         text: Text,
     ) {
+        self.last_seen_headers.retain(|x, _| *x < level);
         self.last_seen_headers.insert(level, text.into());
     }
 
-- 
2.43.0


From 531c89a2d2cc8430776113888b1ab1b7f98f79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 40/57] fix: serialize the terms and definitions of definition
 lists

---
 .../src/lang/elements/blocks/definitions.rs   | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index f6300d4..f556760 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -33,35 +33,34 @@ use std::{
     Deserialize,
 )]
 #[as_ref(forward)]
-#[display(fmt = "{}", _0)]
+#[display(fmt = "{}", content)]
 #[into_iterator(owned, ref, ref_mut)]
-#[serde(transparent)]
-pub struct DefinitionListValue<'a>(
+pub struct DefinitionListValue<'a> {
     /// Represents the inner type that the definition list value wraps
-    InlineElementContainer<'a>,
-);
+    content: InlineElementContainer<'a>,
+}
 
 impl ElementLike for DefinitionListValue<'_> {}
 
 impl<'a> DefinitionListValue<'a> {
     /// Returns reference to underlying container
     pub fn as_inner(&self) -> &InlineElementContainer<'a> {
-        &self.0
+        &self.content
     }
 
     /// Converts into underlying container
     pub fn into_inner(self) -> InlineElementContainer<'a> {
-        self.0
+        self.content
     }
 }
 
 impl DefinitionListValue<'_> {
     pub fn to_borrowed(&self) -> DefinitionListValue {
-        DefinitionListValue(self.0.to_borrowed())
+        DefinitionListValue::new(self.content.to_borrowed())
     }
 
     pub fn into_owned(self) -> DefinitionListValue<'static> {
-        DefinitionListValue(self.0.into_owned())
+        DefinitionListValue::new(self.content.into_owned())
     }
 }
 
@@ -69,13 +68,13 @@ impl<'a> IntoChildren for DefinitionListValue<'a> {
     type Child = Located<InlineElement<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.0.into_children()
+        self.content.into_children()
     }
 }
 
 impl<'a> Hash for DefinitionListValue<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.to_string().hash(state);
+        self.content.to_string().hash(state);
     }
 }
 
@@ -115,7 +114,7 @@ impl<'a> From<&'a str> for DefinitionListValue<'a> {
         let element = InlineElement::Text(Text::from(s));
         let container =
             InlineElementContainer::new(vec![Located::from(element)]);
-        Self(container)
+        Self::new(container)
     }
 }
 
@@ -123,7 +122,7 @@ impl<'a> StrictEq for DefinitionListValue<'a> {
     /// Performs strict_eq on inner container
     #[inline]
     fn strict_eq(&self, other: &Self) -> bool {
-        self.0.strict_eq(&other.0)
+        self.content.strict_eq(&other.content)
     }
 }
 
@@ -151,7 +150,9 @@ pub type Definition<'a> = DefinitionListValue<'a>;
     Deserialize,
 )]
 #[into_iterator(owned, ref, ref_mut)]
-pub struct DefinitionBundle<'a>(Vec<Located<Definition<'a>>>);
+pub struct DefinitionBundle<'a> {
+    definitions: Vec<Located<Definition<'a>>>,
+}
 
 impl ElementLike for DefinitionBundle<'_> {}
 
@@ -175,22 +176,22 @@ impl<'a> DefinitionBundle<'a> {
 
     /// Returns total elements contained within container
     pub fn len(&self) -> usize {
-        self.0.len()
+        self.definitions.len()
     }
 
     /// Returns true if container has no elements
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        self.definitions.is_empty()
     }
 
     /// Returns reference to element at specified index, if it exists
     pub fn get(&self, idx: usize) -> Option<&Located<Definition<'a>>> {
-        self.0.get(idx)
+        self.definitions.get(idx)
     }
 
     /// Returns the definitions contained within the bundle
     pub fn into_definitions(self) -> Vec<Located<Definition<'a>>> {
-        self.0
+        self.definitions
     }
 }
 
@@ -218,7 +219,7 @@ impl<'a> IntoChildren for DefinitionBundle<'a> {
     type Child = Located<Definition<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.0
+        self.definitions
     }
 }
 
@@ -226,7 +227,7 @@ impl<'a> StrictEq for DefinitionBundle<'a> {
     /// Performs strict_eq on all definitions
     #[inline]
     fn strict_eq(&self, other: &Self) -> bool {
-        self.0.strict_eq(&other.0)
+        self.definitions.strict_eq(&other.definitions)
     }
 }
 
-- 
2.43.0


From 6ebec242b6bd3ad30996b042bf3d3c8df105e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 41/57] fix: write each attribute of HTML tags once and under a
 valid name

---
 vimwiki-core/src/lang/output/html/mod.rs | 45 +++++++++++++++++++-----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 908f15f..6dce80d 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -18,7 +18,11 @@ use crate::lang::{
     output::{Output, OutputFormatter},
 };
 use lazy_static::lazy_static;
-use std::{borrow::Cow, collections::HashMap, fmt::Write};
+use std::{
+    borrow::Cow,
+    collections::{HashMap, HashSet},
+    fmt::Write,
+};
 use syntect::{
     easy::HighlightLines,
     highlighting::ThemeSet,
@@ -575,12 +579,14 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
                 write!(f, "<code")?;
 
                 // If provided with a language, fill it in as the class
+                let mut written: &[&str] = &[];
                 if let Some(lang) = self.language.as_ref() {
                     write!(f, r#" class="{}""#, escape::escape_html(lang))?;
+                    written = &["class"];
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
-                for (attr, value) in sorted_attributes(&self.metadata) {
+                for (attr, value) in html_attributes(&self.metadata, written) {
                     write!(
                         f,
                         r#" {}="{}""#,
@@ -1080,7 +1086,11 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 }
 
                 if let Some(properties) = properties {
-                    for (k, v) in sorted_attributes(properties) {
+                    let written: &[&str] = match description {
+                        Some(_) => &["src", "alt"],
+                        None => &["src"],
+                    };
+                    for (k, v) in html_attributes(properties, written) {
                         write!(
                             f,
                             " {}=\"{}\"",
@@ -1095,7 +1105,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 write!(f, "<a href=\"{}\"", href)?;
 
                 if let Some(properties) = properties {
-                    for (k, v) in sorted_attributes(properties) {
+                    for (k, v) in html_attributes(properties, &["href"]) {
                         write!(
                             f,
                             " {}=\"{}\"",
@@ -1271,12 +1281,31 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
     }
 }
 
-/// Sorts attributes by their name as the order of a hash map is not stable
-fn sorted_attributes<'a, 'b>(
+/// Produces those attributes that can be part of an HTML tag, sorted by their
+/// name, leaving out names that an HTML attribute cannot have and names that
+/// would be a second occurrence within the tag
+fn html_attributes<'a, 'b>(
     attributes: &'b HashMap<Cow<'a, str>, Cow<'a, str>>,
-) -> Vec<(&'b Cow<'a, str>, &'b Cow<'a, str>)> {
-    let mut attributes: Vec<_> = attributes.iter().collect();
+    written: &[&str],
+) -> Vec<(&'b str, &'b str)> {
+    let mut attributes: Vec<(&str, &str)> = attributes
+        .iter()
+        .map(|(k, v)| (k.as_ref(), v.as_ref()))
+        .collect();
     attributes.sort_unstable();
+
+    let mut names: HashSet<String> =
+        written.iter().copied().map(String::from).collect();
+    attributes.retain(|(name, _)| {
+        let is_valid = !name.is_empty()
+            && !name.contains(|c: char| {
+                c.is_whitespace()
+                    || c.is_control()
+                    || matches!(c, '"' | '\'' | '<' | '>' | '/' | '=')
+            });
+        is_valid && names.insert(name.to_ascii_lowercase())
+    });
+
     attributes
 }
 
-- 
2.43.0


From 69399b4f484ddb3387515dfc6c177c0136aeac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 42/57] fix: number list items at any position

---
 .../src/lang/elements/blocks/lists/item.rs    | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/item.rs b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
index 0119bd1..8569af1 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/item.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
@@ -429,13 +429,9 @@ impl OrderedListItemType {
             Self::LowercaseAlphabet => pos_to_alphabet(pos, true),
             Self::UppercaseAlphabet => pos_to_alphabet(pos, false),
             // NOTE: Roman numerals start at 1, not 0, so use base 1
-            Self::LowercaseRoman => {
-                format!("{:x}", Roman::from((pos + 1) as i16))
-            }
+            Self::LowercaseRoman => pos_to_roman(pos).to_lowercase(),
             // NOTE: Roman numerals start at 1, not 0, so use base 1
-            Self::UppercaseRoman => {
-                format!("{:X}", Roman::from((pos + 1) as i16))
-            }
+            Self::UppercaseRoman => pos_to_roman(pos),
         };
 
         if let Some(c) = suffix.as_char() {
@@ -452,20 +448,33 @@ impl Default for OrderedListItemType {
     }
 }
 
+/// Converts a position in a list (base 0) to an uppercase roman numeral
+/// where 0 == I, 1 == II, and so on
+fn pos_to_roman(pos: usize) -> String {
+    let value = pos + 1;
+
+    // NOTE: The numeral can only be created from a positive i16, so we provide
+    //       everything above hundreds on our own
+    let mut s = "M".repeat(value / 1000);
+    let rest = (value % 1000) as i16;
+    if rest > 0 {
+        s.push_str(&format!("{:X}", Roman::from(rest)));
+    }
+    s
+}
+
 /// Converts a position in a list (base 0) to an alphabetic representation
 /// where 0 == a, 25 == z, 26 == aa, and so on
 fn pos_to_alphabet(pos: usize, to_lower: bool) -> String {
     let mut s = String::new();
-    let mut i = pos as u32;
-    let base = if to_lower { 97 } else { 65 };
+    let mut i = pos;
+    let base = if to_lower { b'a' } else { b'A' };
 
     // Work our way backwards, starting with the last character and moving left
     loop {
         // Get closest character offset
         let offset = i % 26;
-        if let Some(c) = std::char::from_u32(base + offset) {
-            s.push(c);
-        }
+        s.push(char::from(base + offset as u8));
 
         // Remove closest character from position
         i -= offset;
-- 
2.43.0


From a10b9606ffbbdc877c9b2965383e4bd0c3b3575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 43/57] fix: tell links to absolute and relative paths apart

---
 .../lang/elements/blocks/inline/links/data.rs   | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index 64daf0b..323c717 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -15,7 +15,7 @@ use uriparse::{Fragment, Scheme, URIReference, URIReferenceError};
 
 /// Represents data for a link to some content, described through a combination
 /// of a URI reference and some arbitrary description
-#[derive(Constructor, Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
+#[derive(Constructor, Clone, Debug, Eq, Serialize, Deserialize)]
 pub struct LinkData<'a> {
     pub uri_ref: URIReference<'a>,
     pub description: Option<Description<'a>>,
@@ -297,6 +297,21 @@ impl<'a> From<LinkData<'a>> for PathBuf {
     }
 }
 
+impl<'a> PartialEq for LinkData<'a> {
+    /// Compares the uri, description, and properties
+    ///
+    /// NOTE: The paths of two uri references are equal if their segments are,
+    ///       even if only one of the paths is absolute, so that has to be
+    ///       compared on its own
+    fn eq(&self, other: &Self) -> bool {
+        self.uri_ref == other.uri_ref
+            && self.uri_ref.path().is_absolute()
+                == other.uri_ref.path().is_absolute()
+            && self.description == other.description
+            && self.properties == other.properties
+    }
+}
+
 impl<'a> StrictEq for LinkData<'a> {
     /// Same as PartialEq
     #[inline]
-- 
2.43.0


From 32003c755b9197fc03fe852510c459bca1616d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 44/57] fix: wasm: Translate between months starting at 0 and
 at 1 in dates

---
 vimwiki-wasm/src/elements.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vimwiki-wasm/src/elements.rs b/vimwiki-wasm/src/elements.rs
index 02070e7..fa04cf7 100644
--- a/vimwiki-wasm/src/elements.rs
+++ b/vimwiki-wasm/src/elements.rs
@@ -894,7 +894,8 @@ impl Placeholder {
             v::Placeholder::Date(x) => {
                 Some(js_sys::Date::new_with_year_month_day(
                     x.year() as u32,
-                    x.month() as i32,
+                    // NOTE: JavaScript months start at 0
+                    x.month0() as i32,
                     x.day() as i32,
                 ))
             }
@@ -1343,7 +1344,8 @@ impl Link {
             v::Link::new_diary_link(
                 chrono::NaiveDate::from_ymd(
                     date.get_utc_full_year() as i32,
-                    date.get_utc_month(),
+                    // NOTE: JavaScript months start at 0
+                    date.get_utc_month() + 1,
                     date.get_utc_date(),
                 ),
                 v::Description::try_from_uri_ref_str(description)
-- 
2.43.0


From cab5b85dfa0739d0b0f0fc17e9dde47e199b0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 45/57] fix: wasm: Convert text, code, math and tags to
 JavaScript instead of failing

---
 vimwiki-wasm/src/elements.rs | 39 ++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/vimwiki-wasm/src/elements.rs b/vimwiki-wasm/src/elements.rs
index fa04cf7..dbb8a58 100644
--- a/vimwiki-wasm/src/elements.rs
+++ b/vimwiki-wasm/src/elements.rs
@@ -1728,8 +1728,28 @@ impl_from!(
     Placeholder -@Region
 );
 
-/// Provide conversion functions; use @ to not include html
+/// Provide conversion functions;
+///
+/// use @ to not include html
+/// use - to convert to JavaScript in the form of an inline element, which is
+/// needed where the element is a string or a list, as neither has room for
+/// the region
 macro_rules! impl_convert {
+    (-$name:ident $($tail:tt)*) => {
+        #[wasm_bindgen]
+        impl $name {
+            /// Convert to a JavaScript value
+            pub fn to_js(&self) -> JsValue {
+                JsValue::from_serde(
+                    &self.0.clone().map(v::InlineElement::from)
+                ).unwrap()
+            }
+        }
+
+        impl_convert!(#html $name);
+        impl_convert!(#debug $name);
+        impl_convert!($($tail)*);
+    };
     (@$name:ident $($tail:tt)*) => {
         #[wasm_bindgen]
         impl $name {
@@ -1737,16 +1757,21 @@ macro_rules! impl_convert {
             pub fn to_js(&self) -> JsValue {
                 JsValue::from_serde(&self.0).unwrap()
             }
+        }
 
+        impl_convert!(#debug $name);
+        impl_convert!($($tail)*);
+    };
+    (#debug $name:ident) => {
+        #[wasm_bindgen]
+        impl $name {
             /// Convert to a debug string
             pub fn to_debug_str(&self) -> String {
                 format!("{:?}", self.0)
             }
         }
-
-        impl_convert!($($tail)*);
     };
-    ($name:ident $($tail:tt)*) => {
+    (#html $name:ident) => {
         #[wasm_bindgen]
         impl $name {
             /// Convert to an HTML string, optionally taking a config object
@@ -1764,7 +1789,9 @@ macro_rules! impl_convert {
                     .map_err(|x| x.to_string().into())
             }
         }
-
+    };
+    ($name:ident $($tail:tt)*) => {
+        impl_convert!(#html $name);
         impl_convert!(@$name $($tail)*);
     };
     () => {};
@@ -1773,7 +1800,7 @@ macro_rules! impl_convert {
 impl_convert!(
     Page Element BlockElement InlineBlockElement InlineElement Blockquote
     CodeBlock DefinitionList Divider Header List MathBlock Paragraph Table
-    DecoratedText Link Tags CodeInline MathInline Comment Text
+    DecoratedText Link -Tags -CodeInline -MathInline Comment -Text
     InlineElementContainer DecoratedTextContent ListItem
     Placeholder @Region
 );
-- 
2.43.0


From d290813d391b8d61340985b5f6e62a840967ed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 46/57] fix: cli: Keep the position of wikis when only some are
 included

---
 vimwiki-cli/src/ast.rs   | 10 +++++-----
 vimwiki-cli/src/utils.rs | 13 ++-----------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index b9ce9e1..a2cae2f 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -142,12 +142,12 @@ fn load_ast(
             "Loading wiki @ index = {} | name = {:?} from {:?}",
             index, wiki.name, wiki.path
         );
-        ast.wikis.push(Wiki {
+        let mut ast_wiki = Wiki {
             index,
             name: wiki.name.as_ref().cloned(),
             path: wiki.path.to_path_buf(),
             ..Default::default()
-        });
+        };
 
         for entry in WalkDir::new(wiki.path.as_path())
             .into_iter()
@@ -159,10 +159,10 @@ fn load_ast(
             })
         {
             let file = load_wiki_file(entry.path(), cache, no_cache)?;
-            if let Some(wiki) = ast.wikis.get_mut(index) {
-                wiki.files.push(file);
-            }
+            ast_wiki.files.push(file);
         }
+
+        ast.wikis.push(ast_wiki);
     }
 
     // Prune cache of any file not listed
diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index ae89e69..2ee977c 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -84,17 +84,8 @@ pub fn load_html_config(
         }
     }
 
-    // Finally, filter out wikis based on include logic
-    config.wikis = config
-        .wikis
-        .into_iter()
-        .enumerate()
-        .filter(|(idx, wiki)| {
-            opt.filter_by_wiki_idx_and_name(*idx, wiki.name.as_deref())
-        })
-        .map(|(_, wiki)| wiki)
-        .collect();
-
+    // NOTE: All wikis are kept regardless of which are to be included as both
+    //       links between wikis and the include logic depend on their position
     Ok(config)
 }
 
-- 
2.43.0


From db1e1cab135a9ba69764dbf627bd15c49defdbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 47/57] fix: cli: Leave the cache alone when told not to use it

---
 vimwiki-cli/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index a2cae2f..cf1a072 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -285,7 +285,7 @@ fn load_wiki_file(
     };
 
     // Update our cache with the new file; old files get cleaned later
-    if !has_cached_page {
+    if !has_cached_page && !no_cache {
         let cache_file_path = cache.join(checksum.as_str());
         match fs::File::create(cache_file_path.as_path()) {
             Ok(file) => {
-- 
2.43.0


From 296826ee6fe134b80ce0745e27e6f74f0d8b7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 48/57] fix: cli: Write css of a wiki that has no output
 directory yet

---
 vimwiki-cli/src/subcommand/convert.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/convert.rs b/vimwiki-cli/src/subcommand/convert.rs
index d8ae9ba..eac6018 100644
--- a/vimwiki-cli/src/subcommand/convert.rs
+++ b/vimwiki-cli/src/subcommand/convert.rs
@@ -33,8 +33,7 @@ pub fn convert(
             if !cmd.stdout && cmd.include_vimwiki_css {
                 let css_path =
                     wiki.path_html.join(HtmlWikiConfig::default_css_name());
-                debug!("Writing css to {:?}", css_path);
-                std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
+                write_css(&css_path)?;
             }
         }
     }
@@ -65,14 +64,23 @@ pub fn convert(
         if !cmd.stdout && cmd.include_vimwiki_css {
             let wiki = config.runtime.to_tmp_wiki();
             let css_path = wiki.path_html.join("style.css");
-            debug!("Writing css to {:?}", css_path);
-            std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
+            write_css(&css_path)?;
         }
     }
 
     Ok(())
 }
 
+fn write_css(css_path: &Path) -> io::Result<()> {
+    debug!("Writing css to {:?}", css_path);
+
+    // A wiki without any page has no output directory yet
+    if let Some(parent) = css_path.parent() {
+        std::fs::create_dir_all(parent)?;
+    }
+    std::fs::write(css_path, css::DEFAULT_STYLE_FILE)
+}
+
 fn process_path(
     config: HtmlConfig,
     ast: &mut Ast,
-- 
2.43.0


From cc5c65853c5d56e0fa32941cffa70379b5d2317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 49/57] fix: macros: Keep the depth of regions

---
 vimwiki_macros/src/tokens/elements/location.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vimwiki_macros/src/tokens/elements/location.rs b/vimwiki_macros/src/tokens/elements/location.rs
index 4d5b57a..18bf07e 100644
--- a/vimwiki_macros/src/tokens/elements/location.rs
+++ b/vimwiki_macros/src/tokens/elements/location.rs
@@ -30,10 +30,12 @@ fn tokenize_region(_ctx: &TokenizeContext, region: &Region) -> TokenStream {
     let root = root_crate();
     let offset = region.offset();
     let len = region.len();
+    let depth = region.depth();
     quote! {
-        #root::Region::new(
+        #root::Region::new_at_depth(
             #offset,
             #len,
+            #depth,
         )
     }
 }
-- 
2.43.0


From babcf6680c633ee912ce012d65d643aa82ce3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 50/57] fix: macros: Parse the text of a literal instead of its
 source

---
 vimwiki_macros/src/utils.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/vimwiki_macros/src/utils.rs b/vimwiki_macros/src/utils.rs
index 9b75b44..3555f9a 100644
--- a/vimwiki_macros/src/utils.rs
+++ b/vimwiki_macros/src/utils.rs
@@ -1,5 +1,6 @@
 use crate::error::{Error, Result};
 use proc_macro2::{Span, TokenTree};
+use syn::Lit;
 
 /// Converts a token tree that is a string or byte string into a Rust string
 /// instance. Removes any blank lines (whitespace only) before and after
@@ -8,22 +9,20 @@ use proc_macro2::{Span, TokenTree};
 /// If `raw_mode` is specified, will leave lines unaltered, otherwise will
 /// find the minimum indentation level and remove that from all lines.
 pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
-    let repr = token.to_string();
-    let repr = repr.trim();
-    let is_string = repr.starts_with('"') || repr.starts_with('r');
-    let is_byte_string = repr.starts_with("b\"") || repr.starts_with("br");
+    let span = token.span();
 
-    if !is_string && !is_byte_string {
-        return Err(Error::new(
-            token.span(),
-            "argument must be a single string literal",
-        ));
-    }
-
-    // Get the raw string as it appears
-    let begin = repr.find('"').unwrap() + 1;
-    let end = repr.rfind('"').unwrap();
-    let s = repr[begin..end].to_string();
+    // Get the text that the literal stands for, not how it is written
+    let s = match syn::parse2::<Lit>(token.into()) {
+        Ok(Lit::Str(x)) => x.value(),
+        Ok(Lit::ByteStr(x)) => String::from_utf8(x.value())
+            .map_err(|_| Error::new(span, "argument must be valid utf-8"))?,
+        _ => {
+            return Err(Error::new(
+                span,
+                "argument must be a single string literal",
+            ))
+        }
+    };
 
     // Determine which lines in the macro are blank and what each line's
     // indentation level is, which will be used if not in raw mode
-- 
2.43.0


From d28890aca9fe4a51c9a9a9b7ca73f0aa8fb50121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 51/57] fix: macros: Find the indentation of literals by their
 lines with content

---
 vimwiki_macros/src/utils.rs | 45 ++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/vimwiki_macros/src/utils.rs b/vimwiki_macros/src/utils.rs
index 3555f9a..829bfb8 100644
--- a/vimwiki_macros/src/utils.rs
+++ b/vimwiki_macros/src/utils.rs
@@ -30,7 +30,8 @@ pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
         .lines()
         .map(move |l| {
             let is_blank = l.trim().is_empty();
-            let indentation = l.len() - l.trim_start().len();
+            let indentation =
+                l.chars().take_while(|c| c.is_whitespace()).count();
             (is_blank, indentation, l)
         })
         .collect::<Vec<(bool, usize, &str)>>();
@@ -69,23 +70,31 @@ pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
 
     // Process the lines back into a single string, either by doing nothing
     // to them or removing a set minimum indentation from all
-    let lines =
-        if raw_mode {
-            line_data
-                .iter()
-                .map(|x| x.2)
-                .collect::<Vec<&str>>()
-                .join("\n")
-        } else {
-            let min_indentation = line_data
-                .iter()
-                .fold(usize::MAX, |acc, x| if x.1 < acc { x.1 } else { acc });
-            line_data
-                .iter()
-                .map(|x| &x.2[min_indentation..])
-                .collect::<Vec<&str>>()
-                .join("\n")
-        };
+    let lines = if raw_mode {
+        line_data
+            .iter()
+            .map(|x| x.2)
+            .collect::<Vec<&str>>()
+            .join("\n")
+    } else {
+        // Blank lines do not say anything about the indentation
+        let min_indentation = line_data
+            .iter()
+            .filter(|x| !x.0)
+            .map(|x| x.1)
+            .min()
+            .unwrap_or_default();
+        line_data
+            .iter()
+            .map(|x| {
+                // NOTE: Whitespace can take up more than one byte
+                let mut chars = x.2.chars();
+                chars.by_ref().take(min_indentation).for_each(drop);
+                chars.as_str()
+            })
+            .collect::<Vec<&str>>()
+            .join("\n")
+    };
 
     Ok(lines)
 }
-- 
2.43.0


From 1e1d4e6d7ab3ea376d373b4b07af01fa8285491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 52/57] fix: Strip the leading period from the extension of
 vim's wikis

The ext of an entry of g:vimwiki_list starts with a period, whereas that of
an html wiki config does not, so no file of such a wiki was found.
---
 vimwiki-cli/src/utils.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index 2ee977c..ed5d183 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -101,7 +101,17 @@ fn load_vimwiki_list() -> std::io::Result<Vec<HtmlWikiConfig>> {
     );
 
     if let Some(json) = vimwiki_list_json {
-        serde_json::from_value(json).map_err(Into::into)
+        let mut wikis: Vec<HtmlWikiConfig> = serde_json::from_value(json)?;
+
+        // NOTE: Vimwiki's extension starts with a period, which is not the
+        //       case for our configuration
+        for wiki in wikis.iter_mut() {
+            if let Some(ext) = wiki.ext.strip_prefix('.') {
+                wiki.ext = ext.to_string();
+            }
+        }
+
+        Ok(wikis)
     } else {
         Ok(Vec::new())
     }
-- 
2.43.0


From 28b29b82db0b1a18d7dade2687e451c3e9b74b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 53/57] fix: do not parse lists twice per level of nesting

---
 .../src/lang/parsers/vimwiki/blocks/lists.rs  | 40 +++++++++++++++----
 .../lang/parsers/vimwiki/blocks/paragraphs.rs |  4 +-
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index 1513ab3..cd4cdb4 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -79,13 +79,7 @@ pub fn list_item(input: Span) -> IResult<(usize, Located<ListItem>)> {
 
         // 3. Grab input up to the next list item or other item based on the
         //    indentation level
-        let (_, remaining) = recognize(pair(
-            rest_of_line,
-            many0(preceded(
-                verify(indentation_level(false), |level| *level > indentation),
-                rest_of_line,
-            )),
-        ))(input)?;
+        let (_, remaining) = list_item_lines(indentation)(input)?;
 
         // 4. Ensure that the item starts with a valid prefix
         let (remaining, item) = locate(capture(map(
@@ -112,6 +106,38 @@ pub fn list_item(input: Span) -> IResult<(usize, Located<ListItem>)> {
     context("List Item", inner)(input)
 }
 
+/// Succeeds if [`list`] would succeed, but only looks at what begins on the line
+/// of the first item; parsing sublists just to know that there is a list would
+/// double the time taken for each level of nesting
+pub fn list_start(input: Span) -> IResult<()> {
+    fn inner(input: Span) -> IResult<()> {
+        let (input, _) = beginning_of_line(input)?;
+        let (input, indentation) = indentation_level(true)(input)?;
+        let (input, remaining) = list_item_lines(indentation)(input)?;
+        let (remaining, _) = list_item_prefix(remaining)?;
+        let (remaining, _) = opt(todo_status)(remaining)?;
+        let _ = nested_block_element(remaining)?;
+        Ok((input, ()))
+    }
+
+    context("List Start", inner)(input)
+}
+
+/// Parses all lines that can be part of a list item of some indentation,
+/// beginning with the remainder of the item's first line
+#[inline]
+fn list_item_lines(indentation: usize) -> impl Fn(Span) -> IResult<Span> {
+    move |input: Span| {
+        recognize(pair(
+            rest_of_line,
+            many0(preceded(
+                verify(indentation_level(false), |level| *level > indentation),
+                rest_of_line,
+            )),
+        ))(input)
+    }
+}
+
 #[inline]
 fn list_item_tail(
     indentation: usize,
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
index 1f913a1..e1343be 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
@@ -1,7 +1,7 @@
 use super::{
     blockquotes::arrow_blockquote, code::code_block,
     definitions::definition_list, dividers::divider, headers::header,
-    inline::inline_element_container, lists::list, math::math_block,
+    inline::inline_element_container, lists::list_start, math::math_block,
     placeholders::placeholder, tables::table,
 };
 use crate::lang::{
@@ -57,7 +57,7 @@ fn paragraph_line(input: Span) -> IResult<InlineElementContainer> {
 fn continue_paragraph(input: Span) -> IResult<()> {
     let (input, _) = not(header)(input)?;
     let (input, _) = not(definition_list)(input)?;
-    let (input, _) = not(list)(input)?;
+    let (input, _) = not(list_start)(input)?;
     let (input, _) = not(table)(input)?;
     let (input, _) = not(code_block)(input)?;
     let (input, _) = not(math_block)(input)?;
-- 
2.43.0


From 868b701aeebf8d801ed6add04ae069676dcc3610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:17 +0000
Subject: [PATCH 54/57] fix: convert and format panicked when nothing could be
 printed

---
 vimwiki-cli/src/subcommand/convert.rs | 8 ++++++--
 vimwiki-cli/src/subcommand/format.rs  | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/convert.rs b/vimwiki-cli/src/subcommand/convert.rs
index eac6018..c15d827 100644
--- a/vimwiki-cli/src/subcommand/convert.rs
+++ b/vimwiki-cli/src/subcommand/convert.rs
@@ -1,6 +1,10 @@
 use crate::{css, Ast, CommonOpt, ConvertSubcommand};
 use log::*;
-use std::{ffi::OsStr, io, path::Path};
+use std::{
+    ffi::OsStr,
+    io::{self, Write},
+    path::Path,
+};
 use vimwiki::*;
 use walkdir::WalkDir;
 
@@ -175,7 +179,7 @@ fn process_file(
 
     // If told to print to stdout, do so
     if stdout {
-        println!("{}", html);
+        writeln!(io::stdout(), "{}", html)?;
 
     // Otherwise, we generate files based on resolved output paths
     } else {
diff --git a/vimwiki-cli/src/subcommand/format.rs b/vimwiki-cli/src/subcommand/format.rs
index c3ea7bb..fb04c17 100644
--- a/vimwiki-cli/src/subcommand/format.rs
+++ b/vimwiki-cli/src/subcommand/format.rs
@@ -1,6 +1,11 @@
 use crate::{CommonOpt, FormatSubcommand};
 use log::*;
-use std::{collections::HashSet, ffi::OsStr, io, path::Path};
+use std::{
+    collections::HashSet,
+    ffi::OsStr,
+    io::{self, Write},
+    path::Path,
+};
 use vimwiki::*;
 use walkdir::WalkDir;
 
@@ -98,7 +103,7 @@ fn process_file(
 
     // Otherwise, print to stdout
     } else {
-        println!("{}", text);
+        writeln!(io::stdout(), "{}", text)?;
     }
 
     Ok(())
-- 
2.43.0


From c244d621b4972cbe157cad41f3381afd5e53e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:17 +0000
Subject: [PATCH 55/57] fix: inspect ended with success when the end of its
 output was lost

---
 vimwiki-cli/src/subcommand/inspect.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/inspect.rs b/vimwiki-cli/src/subcommand/inspect.rs
index 4bdf0a1..46f81a3 100644
--- a/vimwiki-cli/src/subcommand/inspect.rs
+++ b/vimwiki-cli/src/subcommand/inspect.rs
@@ -30,7 +30,9 @@ pub fn inspect(
         writer.flush()?;
         Ok(())
     } else {
-        let stdout = io::stdout();
-        serde_json::to_writer_pretty(stdout, &values).map_err(io::Error::from)
+        let mut stdout = io::stdout();
+        serde_json::to_writer_pretty(&mut stdout, &values)
+            .map_err(io::Error::from)?;
+        stdout.flush()
     }
 }
-- 
2.43.0


From f3a601916b8455afa60f57f0c5ccfe485ed4f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:17 +0000
Subject: [PATCH 56/57] fix: formatting in place emptied a page when it could
 not be written

---
 vimwiki-cli/src/subcommand/format.rs | 49 +++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/format.rs b/vimwiki-cli/src/subcommand/format.rs
index fb04c17..d88699e 100644
--- a/vimwiki-cli/src/subcommand/format.rs
+++ b/vimwiki-cli/src/subcommand/format.rs
@@ -2,7 +2,8 @@ use crate::{CommonOpt, FormatSubcommand};
 use log::*;
 use std::{
     collections::HashSet,
-    ffi::OsStr,
+    ffi::{OsStr, OsString},
+    fs,
     io::{self, Write},
     path::Path,
 };
@@ -33,11 +34,14 @@ pub fn format(
 
         // Otherwise, we walk the directory
         } else {
-            for entry in WalkDir::new(path)
+            // NOTE: Collected up front as files get replaced along the way
+            let entries: Vec<_> = WalkDir::new(path)
                 .into_iter()
                 .filter_map(|e| e.ok())
                 .filter(|e| e.file_type().is_file())
-            {
+                .collect();
+
+            for entry in entries {
                 if let Some(ext) =
                     entry.path().extension().and_then(OsStr::to_str)
                 {
@@ -75,7 +79,7 @@ fn process_file(
     );
 
     // Load the file's text
-    let text = std::fs::read_to_string(input_path)?;
+    let text = fs::read_to_string(input_path)?;
 
     debug!("{:?} :: file loaded!", input_path);
 
@@ -99,7 +103,7 @@ fn process_file(
     // If indicated, we replace the file's contents inline
     if inplace {
         info!("Writing to {:?}", input_path);
-        std::fs::write(input_path, text)?;
+        replace_file(input_path, &text)?;
 
     // Otherwise, print to stdout
     } else {
@@ -108,3 +112,38 @@ fn process_file(
 
     Ok(())
 }
+
+/// Replaces the contents of the file at the given path such that the file has
+/// either its old or its new contents, even if we fail along the way
+fn replace_file(path: &Path, text: &str) -> io::Result<()> {
+    // We follow links so the file being linked to is what gets replaced, and
+    // leave files alone that we are not allowed to write
+    let path = path.canonicalize()?;
+    fs::OpenOptions::new().write(true).open(&path)?;
+
+    // NOTE: Must not have an extension that would make it a vimwiki file, and
+    //       is next to the file as it cannot be moved across filesystems
+    let mut name = OsString::from(".");
+    name.push(path.file_name().unwrap_or_default());
+    name.push(format!(".{}~", std::process::id()));
+    let tmp_path = path.with_file_name(name);
+
+    let result = write_file_like(&tmp_path, &path, text)
+        .and_then(|_| fs::rename(&tmp_path, &path));
+
+    if result.is_err() {
+        let _ = fs::remove_file(&tmp_path);
+    }
+
+    result
+}
+
+/// Writes text to a new file that has the same permissions as another file
+fn write_file_like(path: &Path, other: &Path, text: &str) -> io::Result<()> {
+    let mut file = fs::OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(path)?;
+    file.write_all(text.as_bytes())?;
+    file.set_permissions(fs::metadata(other)?.permissions())
+}
-- 
2.43.0


From 740a173821d89678c7a5424410dc032290600597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:17 +0000
Subject: [PATCH 57/57] fix: commands run at once could leave mixed entries in
 the cache

---
 vimwiki-cli/src/ast.rs | 50 ++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index cf1a072..1635b82 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -287,31 +287,11 @@ fn load_wiki_file(
     // Update our cache with the new file; old files get cleaned later
     if !has_cached_page && !no_cache {
         let cache_file_path = cache.join(checksum.as_str());
-        match fs::File::create(cache_file_path.as_path()) {
-            Ok(file) => {
-                let mut writer = io::BufWriter::new(file);
-                match serde_json::to_writer_pretty(&mut writer, &page) {
-                    Ok(()) => {
-                        if let Err(x) = writer.flush() {
-                            error!(
-                                "{:?} :: failed to write cache: {}",
-                                path, x
-                            );
-                        } else {
-                            debug!(
-                                "{:?} :: wrote cache to {:?}",
-                                path, cache_file_path
-                            );
-                        }
-                    }
-                    Err(x) => {
-                        error!("{:?} :: failed to write cache: {}", path, x);
-                    }
-                }
-            }
-            Err(x) => {
-                error!("{:?} :: open cache for write failed: {}", path, x);
+        match write_cache_file(cache_file_path.as_path(), &page) {
+            Ok(()) => {
+                debug!("{:?} :: wrote cache to {:?}", path, cache_file_path)
             }
+            Err(x) => error!("{:?} :: failed to write cache: {}", path, x),
         }
     }
 
@@ -322,6 +302,28 @@ fn load_wiki_file(
     })
 }
 
+/// Writes a page to the cache such that a file in the cache is never seen
+/// while only a part of it is written, which includes several processes
+/// writing the same file at once
+fn write_cache_file(path: &Path, page: &Page) -> io::Result<()> {
+    let tmp_path = path.with_extension(format!("{}.tmp", std::process::id()));
+
+    let result = fs::File::create(tmp_path.as_path())
+        .and_then(|file| {
+            let mut writer = io::BufWriter::new(file);
+            serde_json::to_writer_pretty(&mut writer, page)
+                .map_err(io::Error::from)?;
+            writer.flush()
+        })
+        .and_then(|_| fs::rename(tmp_path.as_path(), path));
+
+    if result.is_err() {
+        let _ = fs::remove_file(tmp_path);
+    }
+
+    result
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0

