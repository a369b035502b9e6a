From 4bf51f349b28787bb672bc6d341bf17d3d073a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 01/34] fix: format a list item that starts with a comment so
 that it parses again

---
 src/yaml/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9c27b94..ddc2de0 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -332,6 +332,10 @@ impl Yaml {
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
+                        // a list item needs something after its dash
+                        HashData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
+                            write!(f, " #{}", c)
+                        }
                         HashData::Comment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
@@ -375,6 +379,10 @@ impl Yaml {
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
+                        // a list item needs something after its dash
+                        ArrayData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
+                            write!(f, " #{}", c)
+                        }
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
                         ArrayData::InlineComment(c) => write!(f, " #{}", c),
                         ArrayData::Element(v) => {
-- 
2.43.0


From 93858ec81f4660f8c3c400ec83ac0d4c4200b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 02/34] fix: a nested list written on its parent's line no
 longer takes over the following items

'- - x' followed by '- y' was read as one list [[x, y]], because the
continuation of a list that starts on the line of its parent did not have to
be indented deeper than the parent. Parsing single-item nesting is no longer
exponential either.
---
 src/yaml.pest      |  9 +++++---
 src/yaml/parser.rs | 53 +++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aa93289..7f50f96 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -62,14 +62,17 @@ first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
 block_array = { commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
-alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
+alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
+alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
-alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
+alternative_aliased_yaml_value = { (alias ~ spaces)? ~ alternative_hash | (alias ~ SPACE_SEPARATOR*)? ~ alternative_array }
+newline_aliased_yaml_value = { alternative_aliased_hash | aliased_yaml_value }
+alternative_aliased_hash = { (alias ~ spaces)? ~ alternative_hash }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
+hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ newline_aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
 hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 9e664d1..2229cb0 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -348,6 +348,24 @@ impl YamlParser {
         }))
     }
 
+    fn newline_aliased_yaml_value(input: Node) -> InternalYamlResult<AliasedYaml> {
+        match_nodes!(input.into_children();
+            [alternative_aliased_hash(value)] => Ok(value),
+            [aliased_yaml_value(value)] => Ok(value))
+    }
+
+    fn alternative_aliased_hash(input: Node) -> InternalYamlResult<AliasedYaml> {
+        match_nodes!(input.into_children();
+        [alias(alias), alternative_hash(val)] => Ok(AliasedYaml {
+            alias: Some(alias),
+            value: val,
+        }),
+        [alternative_hash(val)] => Ok(AliasedYaml {
+            alias: None,
+            value: val,
+        }))
+    }
+
     fn hash_key(input: Node) -> InternalYamlResult<String> {
         Ok(input.as_str().trim_end().to_string())
     }
@@ -356,6 +374,7 @@ impl YamlParser {
         //println!("{:#?}", input);
         match_nodes!(input.into_children();
                 [hash_key(key), block_array_aliased_yaml_value(value)] => Ok(HashElement { key, value }),
+                [hash_key(key), newline_aliased_yaml_value(value)] => Ok(HashElement { key, value }),
         )
     }
 
@@ -480,17 +499,35 @@ impl YamlParser {
         ))
     }
 
-    fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
+    fn alternative_array_continuation(input: Node) -> InternalYamlResult<Vec<ArrayData>> {
         match_nodes!(input.into_children();
-        [first_block_array_element(element1),first_block_array_element(element2), block_array_data(elements).., commentnls(cs)] => Ok(
-            Yaml::Array(
-                element1.into_iter()
-                .chain(element2.into_iter())
+            [commentnls(cs), first_block_array_element(element), block_array_data(elements)..] => Ok(
+                cs.into_iter().map(|c| ArrayData::Comment(c))
+                .chain(element.into_iter())
                 .chain(elements.into_iter().flatten())
-                .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
                 .collect()
-            )
-        ))
+            ),
+        )
+    }
+
+    fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
+        match_nodes!(input.into_children();
+            [first_block_array_element(element1), alternative_array_continuation(cont), commentnls(cs)] => Ok(
+                Yaml::Array(
+                    element1.into_iter()
+                    .chain(cont.into_iter())
+                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                    .collect()
+                )
+            ),
+            [first_block_array_element(element1), commentnls(cs)] => Ok(
+                Yaml::Array(
+                    element1.into_iter()
+                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                    .collect()
+                )
+            ),
+        )
     }
 
     fn commentnls(input: Node) -> InternalYamlResult<Vec<String>> {
-- 
2.43.0


From 60764c185a68a5828385abfe6d2b34434489fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 03/34] fix: accept a comment before the first item of a list
 that follows '&name' or a trailing space

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 7f50f96..235e0ec 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -60,7 +60,7 @@ inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ i
 block_array_element = { "-" ~ SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value }
 first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
-block_array = { commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
+block_array = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
 alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
 alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
-- 
2.43.0


From 01fec276b804b3be18abfa4a33be9adbef86af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 04/34] fix: read block scalars by the indentation of their own
 first line

A block scalar under the first key of a list item took over the following
keys, leading blank lines were dropped, lines indented with other white space
lost it, blank lines were counted by bytes (twice with CRLF), and an
indentation indicator of 0, one that does not fit a number, or one larger than
the lines are long made the parser panic.
---
 src/yaml.pest      | 15 +++++----
 src/yaml/parser.rs | 84 ++++++++++++++++++++++++++--------------------
 2 files changed, 57 insertions(+), 42 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 235e0ec..0f5c7eb 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -41,13 +41,16 @@ string = { unquoted_string | double_quoted_string | single_quoted_string }
 inline_array_string = { unquoted_inline_string | double_quoted_string | single_quoted_string }
 
 block_string = @{ (!NEWLINE ~ ANY)+ | "" }
-block_empty_lines = @{ NEWLINE* }
+block_empty_lines = @{ (!PEEK[-2..] ~ " "* ~ NEWLINE)* }
+block_leading_empty_lines = @{ (" "* ~ NEWLINE)* }
+block_leading_short_lines = @{ (!(PEEK ~ " ") ~ " "* ~ NEWLINE)* }
 string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
-string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
-string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
-string_multiline_indent = { (NUMBER+)* } 
-string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_indent ~ string_multiline_content }
-string_multiline_literal = { "|" ~ string_block_chomping? ~  string_multiline_indent  ~ string_multiline_content }
+string_multiline_trailing = @{ (NEWLINE ~ " "* ~ &NEWLINE)* }
+string_multiline_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_empty_lines ~ (PEEK ~ PUSH(" "+) ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_indented_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_short_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_indent = { NUMBER+ }
+string_multiline_folded = { ">" ~ string_block_chomping? ~ (string_multiline_indent ~ string_multiline_indented_content | string_multiline_content) }
+string_multiline_literal = { "|" ~ string_block_chomping? ~ (string_multiline_indent ~ string_multiline_indented_content | string_multiline_content) }
 
 string_block_chomping = { "-" | "+" }
 
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 2229cb0..597a060 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -234,10 +234,15 @@ impl YamlParser {
     }
 
     fn block_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok((0..input.as_str().len())
-            .into_iter()
-            .map(|_| "".to_string())
-            .collect())
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn block_leading_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn block_leading_short_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_block_chomping(input: Node) -> InternalYamlResult<BlockChomping> {
@@ -248,13 +253,11 @@ impl YamlParser {
         })
     }
 
-    fn string_multiline_indent(input: Node) -> InternalYamlResult<Option<usize>> {
-        Ok(if input.as_str().is_empty() {
-            None
-        } else {
-            let given: usize = input.as_str().parse().unwrap();
-            Some(given - 1)
-        })
+    fn string_multiline_indent(input: Node) -> InternalYamlResult<usize> {
+        match input.as_str().parse::<usize>() {
+            Ok(given) if given > 0 => Ok(given),
+            _ => Err(input.error("invalid indentation indicator")),
+        }
     }
 
     fn string_multiline_content_part(input: Node) -> InternalYamlResult<Vec<String>> {
@@ -265,12 +268,23 @@ impl YamlParser {
     }
 
     fn string_multiline_trailing(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok(input.as_str().chars().filter(|c| *c == '\n').map(|_| String::new()).collect())
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_multiline_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [block_empty_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+        [block_leading_empty_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+            Ok(es.into_iter()
+                .chain(std::iter::once(b))
+                .chain(bs.into_iter().flat_map(|x| x))
+                .chain(trailing)
+                .collect())
+        })
+    }
+
+    fn string_multiline_indented_content(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [block_leading_short_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
             Ok(es.into_iter()
                 .chain(std::iter::once(b))
                 .chain(bs.into_iter().flat_map(|x| x))
@@ -281,11 +295,13 @@ impl YamlParser {
 
     fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
+        [string_multiline_content(cs)] => Ok(Yaml::FoldedString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_content(cs)] => Ok(Yaml::FoldedString(cs, chomp)),
+        [string_multiline_indent(indent), string_multiline_indented_content(cs)] => Ok(Yaml::FoldedString(
+            remove_indent(indent, cs), BlockChomping::Clip
         )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), chomp
+        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_indented_content(cs)] => Ok(Yaml::FoldedString(
+            remove_indent(indent, cs), chomp
         )))
 
         // string_block_chomping
@@ -293,11 +309,13 @@ impl YamlParser {
 
     fn string_multiline_literal(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
+        [string_multiline_content(cs)] => Ok(Yaml::LiteralString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_content(cs)] => Ok(Yaml::LiteralString(cs, chomp)),
+        [string_multiline_indent(indent), string_multiline_indented_content(cs)] => Ok(Yaml::LiteralString(
+            remove_indent(indent, cs), BlockChomping::Clip
         )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), chomp
+        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_indented_content(cs)] => Ok(Yaml::LiteralString(
+            remove_indent(indent, cs), chomp
         )))
     }
 
@@ -581,25 +599,19 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
-fn count_whitespace_bytes_at_start(input: &str) -> usize {
-    input
-        .chars()
-        .take_while(|ch| ch.is_whitespace() && *ch != '\n')
-        .map(|ch| ch.len_utf8())
-        .sum()
+/// One empty line per line end in the given blank text
+fn empty_lines(input: &str) -> Vec<String> {
+    input.lines().map(|_| String::new()).collect()
 }
 
-fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
-    let indent = indent.unwrap_or_else(|| count_whitespace_bytes_at_start(&lines[0]));
-
+/// Remove the indentation that is left of the lines of a block scalar with an indentation
+/// indicator. The grammar already removed the indentation of the parent and one more space.
+fn remove_indent(indent: usize, lines: Vec<String>) -> Vec<String> {
     lines
         .into_iter()
-        .map(|x| {
-            if x.is_empty() {
-                x
-            } else {
-                x[indent..].to_string()
-            }
+        .map(|line| {
+            let spaces = line.chars().take(indent - 1).take_while(|c| *c == ' ').count();
+            line[spaces..].to_string()
         })
         .collect()
 }
-- 
2.43.0


From ec66425822e0b1e1f3e62b83f18b918a120d5fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 05/34] fix: format a list in a list in a list so that it
 parses back to the same nesting

---
 src/yaml/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index ddc2de0..1e82a69 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -399,7 +399,13 @@ impl Yaml {
                                 write!(f, "{}-", indent(spaces))?;
                             };
 
-                            v.format(f, spaces, element)
+                            // a third list on the same line would take over the items of the second
+                            if same_line && v.alias.is_none() && matches!(v.value, Yaml::Array(_)) {
+                                write!(f, " ")?;
+                                v.format(f, spaces, None)
+                            } else {
+                                v.format(f, spaces, element)
+                            }
                         }
                     }?
                 }
-- 
2.43.0


From 890b83af30ef0fc6f9cd7ffa0b480f2cf563e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 06/34] fix: keys after an aliased mapping under a list item's
 first key belong to the item

'- a: &x' followed by an indented mapping and then 'b:' at the column of 'a'
read 'b' into the aliased mapping, because the line end after the alias was
skipped together with the indentation.
---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 0f5c7eb..414367d 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -69,9 +69,9 @@ alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARAT
 alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
-alternative_aliased_yaml_value = { (alias ~ spaces)? ~ alternative_hash | (alias ~ SPACE_SEPARATOR*)? ~ alternative_array }
+alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ (alternative_hash | alternative_array) }
 newline_aliased_yaml_value = { alternative_aliased_hash | aliased_yaml_value }
-alternative_aliased_hash = { (alias ~ spaces)? ~ alternative_hash }
+alternative_aliased_hash = { (alias ~ SPACE_SEPARATOR*)? ~ alternative_hash }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-- 
2.43.0


From 7b37e7e418b58d4154ac4e71af89894d46edf95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 07/34] fix: format block scalars with an indented first line
 so that they parse back

The indentation indicator was left out when blank lines came first, and on the
line of a list item's dash it was counted from the wrong indentation.
---
 src/yaml/mod.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 1e82a69..47f53f0 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -131,6 +131,34 @@ impl Yaml {
             .is_none()
     }
 }
+impl Yaml {
+    /// Is this a block scalar of which the first text line is indented?
+    fn needs_indent_indicator(&self) -> bool {
+        match self {
+            Yaml::LiteralString(lines, _) | Yaml::FoldedString(lines, _) => lines
+                .iter()
+                .find(|line| !line.is_empty())
+                .map_or(false, |line| line.starts_with(" ")),
+            _ => false,
+        }
+    }
+
+    /// Is the first value, when this collection is written after a dash, a block scalar with
+    /// an indentation indicator?
+    fn starts_with_indent_indicator(&self) -> bool {
+        match self {
+            Yaml::Hash(data) => match data.first() {
+                Some(HashData::Element(e)) => e.value.value.needs_indent_indicator(),
+                _ => false,
+            },
+            Yaml::Array(data) => match data.first() {
+                Some(ArrayData::Element(e)) => e.value.needs_indent_indicator(),
+                _ => false,
+            },
+            _ => false,
+        }
+    }
+}
 impl YamlInsert for Yaml {
     fn for_hash<F, R, A: Additive>(&mut self, path: &YamlPath, f: &F, r: &R) -> A
     where
@@ -400,7 +428,11 @@ impl Yaml {
                             };
 
                             // a third list on the same line would take over the items of the second
-                            if same_line && v.alias.is_none() && matches!(v.value, Yaml::Array(_)) {
+                            // and an indentation indicator has to count from its own line's indentation
+                            if v.alias.is_none()
+                                && (same_line && matches!(v.value, Yaml::Array(_))
+                                    || v.value.starts_with_indent_indicator())
+                            {
                                 write!(f, " ")?;
                                 v.format(f, spaces, None)
                             } else {
@@ -463,7 +495,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " |")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if self.needs_indent_indicator() {
                             write!(f, "2")?;
                         }
                     }
@@ -476,7 +508,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " >")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if self.needs_indent_indicator() {
                             write!(f, "2")?;
                         }
                     }
-- 
2.43.0


From 0943052909177ba1ffc8100d4df31c3f36b48a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 08/34] fix: accept blank lines between '&name' and a comment
 in front of a collection

---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 414367d..4d09bb5 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -63,7 +63,7 @@ inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ i
 block_array_element = { "-" ~ SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value }
 first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
-block_array = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
+block_array = { blank ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
 alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
 alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
@@ -78,7 +78,7 @@ aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ newline_aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
-hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
+hash = { blank ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
 
 alternative_hash_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element ~ (hash_element_data)* ~ DROP }
 alternative_hash = { first_hash_element ~ alternative_hash_continuation? ~ commentnls }
-- 
2.43.0


From e46bba8da2b4aedc9afc0e5f81c5d0ce1385c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 09/34] fix: read a value on the line after its key without its
 indentation, and quotes and '&name' there as such

---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 4d09bb5..daaaf2c 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -73,8 +73,8 @@ alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ (alternative_ha
 newline_aliased_yaml_value = { alternative_aliased_hash | aliased_yaml_value }
 alternative_aliased_hash = { (alias ~ SPACE_SEPARATOR*)? ~ alternative_hash }
 
-yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
-aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
+yaml_value= { hash | array | SPACE_SEPARATOR* ~ (string_multiline_literal | string_multiline_folded | inline_value) }
+aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ newline_aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
-- 
2.43.0


From eb2bf58f235cfad02eb1d45a9fe275cb42e587e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 10/34] fix: a path with an index finds the items of an inline
 list

---
 src/yaml/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 47f53f0..107613f 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -188,14 +188,18 @@ impl YamlInsert for Yaml {
                     _ => A::zero(),
                 }
             }
-            YamlPath::Indexes(indexes, conditions, _) => match self {
+            YamlPath::Indexes(indexes, conditions, other) => match self {
                 Yaml::InlineArray(elements) => {
                     let mut count = A::zero();
                     for index in indexes.iter() {
                         let element_opt = elements.get_mut(*index);
                         if let Some(element) = element_opt {
                             if element.fits_conditions(conditions) {
-                                count = count + element.for_hash(path, f, r)
+                                count = count
+                                    + match other {
+                                        Some(other) => element.for_hash(other, f, r),
+                                        None => r(element),
+                                    }
                             }
                         }
                     }
@@ -220,12 +224,16 @@ impl YamlInsert for Yaml {
                 _ => A::zero(),
             },
             //YamlPath::AllIndexes(Some(other_path)) => match self {
-            YamlPath::AllIndexes(conditions, _) => match self {
+            YamlPath::AllIndexes(conditions, other) => match self {
                 Yaml::InlineArray(elements) => {
                     let mut count = A::zero();
                     for element in elements.iter_mut() {
                         if element.fits_conditions(conditions) {
-                            count = count + element.for_hash(path, f, r)
+                            count = count
+                                + match other {
+                                    Some(other) => element.for_hash(other, f, r),
+                                    None => r(element),
+                                }
                         }
                     }
                     count
-- 
2.43.0


From 644e84fac3ac3867e3468928b9d1ad552361d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 11/34] fix: report a path index that is too large as an error
 instead of panicking

---
 src/path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 1f3cd36..cca7af3 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -32,7 +32,10 @@ impl PathParser {
     }
 
     fn index_number(input: Node) -> PathResult<Vec<usize>> {
-        Ok(vec![input.as_str().parse().unwrap()]) // TODO: remove unwrap
+        match input.as_str().parse() {
+            Ok(index) => Ok(vec![index]),
+            Err(_) => Err(input.error("index is too large")),
+        }
     }
     fn index_all(input: Node) -> PathResult<()> {
         Ok(())
-- 
2.43.0


From 74795547b7830e421a75d4b5732b6288068f3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 12/34] fix: format collections that lost elements so that they
 parse back with their comments

---
 src/yaml/mod.rs | 52 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 107613f..7aeb730 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -143,6 +143,16 @@ impl Yaml {
         }
     }
 
+    /// Can a comment be written on the line on which this value ends?
+    fn takes_inline_comment(&self) -> bool {
+        match self {
+            Yaml::Hash(data) => data.is_empty(),
+            Yaml::Array(data) => data.is_empty(),
+            Yaml::LiteralString(_, _) | Yaml::FoldedString(_, _) => false,
+            _ => true,
+        }
+    }
+
     /// Is the first value, when this collection is written after a dash, a block scalar with
     /// an indentation indicator?
     fn starts_with_indent_indicator(&self) -> bool {
@@ -363,19 +373,29 @@ impl Yaml {
                 write!(f, "}}")
             }
             Yaml::Hash(v) => {
-                if v.is_empty() {
-                    return write!(f, " {{}}");
+                let empty = !v.iter().any(|d| matches!(d, HashData::Element(_)));
+                if empty {
+                    write!(f, " {{}}")?;
                 }
+                // can a comment be written on the current line?
+                let mut after_value = empty || matches!(parent, Some(Parent::Array));
                 for (idx, element) in v.iter().enumerate() {
+                    let on_this_line = after_value;
+                    after_value = match element {
+                        HashData::Element(e) => e.value.value.takes_inline_comment(),
+                        _ => false,
+                    };
                     match element {
+                        HashData::InlineComment(c) if on_this_line => write!(f, " #{}", c),
                         // a list item needs something after its dash
-                        HashData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
+                        HashData::Comment(c)
+                            if idx == 0 && !empty && matches!(parent, Some(Parent::Array)) =>
+                        {
                             write!(f, " #{}", c)
                         }
-                        HashData::Comment(c) => {
+                        HashData::Comment(c) | HashData::InlineComment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        HashData::InlineComment(c) => write!(f, " #{}", c),
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
@@ -410,17 +430,29 @@ impl Yaml {
                 write!(f, "]")
             }
             Yaml::Array(v) => {
-                if v.is_empty() {
-                    return write!(f, " []");
+                let empty = !v.iter().any(|d| matches!(d, ArrayData::Element(_)));
+                if empty {
+                    write!(f, " []")?;
                 }
+                // can a comment be written on the current line?
+                let mut after_value = empty || matches!(parent, Some(Parent::Array));
                 for (idx, element) in v.iter().enumerate() {
+                    let on_this_line = after_value;
+                    after_value = match element {
+                        ArrayData::Element(e) => e.value.takes_inline_comment(),
+                        _ => false,
+                    };
                     match element {
+                        ArrayData::InlineComment(c) if on_this_line => write!(f, " #{}", c),
                         // a list item needs something after its dash
-                        ArrayData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
+                        ArrayData::Comment(c)
+                            if idx == 0 && !empty && matches!(parent, Some(Parent::Array)) =>
+                        {
                             write!(f, " #{}", c)
                         }
-                        ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
-                        ArrayData::InlineComment(c) => write!(f, " #{}", c),
+                        ArrayData::Comment(c) | ArrayData::InlineComment(c) => {
+                            write!(f, "\n{}#{}", indent(spaces), c)
+                        }
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
-- 
2.43.0


From 97f8e5d6a66a9f3595e6d7028f5250b778453a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 13/34] fix: format a document whose root is an inline or empty
 collection so that it parses

---
 src/yaml.pest        |  2 +-
 src/yaml/document.rs | 10 +++++++++-
 src/yaml/parser.rs   |  3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index daaaf2c..34a0e7c 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -98,5 +98,5 @@ leading_comments = { (blanknl* ~ commentnl ~ blanknl*)* }
 blank = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | (SPACE_SEPARATOR* ~ NEWLINE)? }
 blanknl = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | SPACE_SEPARATOR* ~ NEWLINE }
 
-document = { hash | array }
+document = { hash | array | inline_hash }
 yaml = { SOI ~ leading_comments ~ "---" ~ blanknl ~ commentnls ~ document ~ blank ~ (comment ~ blank)* ~ spaces ~ EOI }
diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 2e6faea..b73a7ad 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -82,7 +82,15 @@ impl Document {
         for item in self.items.iter() {
             match item {
                 DocumentData::Comment(c) => write!(&mut s, "\n#{}", c),
-                DocumentData::Yaml(y) => y.format(&mut s, 0, None),
+                DocumentData::Yaml(y) => {
+                    let mut root = String::new();
+                    y.format(&mut root, 0, None)?;
+                    // only a collection can be the root, and it starts on its own line
+                    match root.strip_prefix(' ') {
+                        Some(root) => write!(&mut s, "\n{}", root),
+                        None => write!(&mut s, "{}", root),
+                    }
+                }
             }?;
         }
         Ok(s)
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 597a060..80f4f13 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -573,7 +573,8 @@ impl YamlParser {
     fn document(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
         [hash(h)] => Ok(h),
-        [array(a)] => Ok(a))
+        [array(a)] => Ok(a),
+        [inline_hash(h)] => Ok(h))
     }
 
     fn yaml(input: Node) -> InternalYamlResult<Document> {
-- 
2.43.0


From 71f15dd814018396d51704864a2dabee9865e7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 14/34] fix: keep exactly the line breaks around more indented
 lines of a folded scalar

---
 src/yaml/string.rs | 56 ++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 398b3db..ff46d21 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -41,35 +41,33 @@ pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
     if lines.is_empty() {
         return String::new();
     }
-    let start = lines[0].to_string();
-
-    let result = lines
-        .into_iter()
-        .skip(1)
-        .fold((start, false), |(s, prev_was_empty), element| {
-            let mut c = s.clone(); // TODO
-            let is_empty = if element.is_empty() {
-                c.push_str("\n");
-                true
-            } else {
-                let without_indent = &element; // TODO: remove
-
-                if without_indent.starts_with(" ") {
-                    c.push_str("\n");
-                    c.push_str(without_indent);
-                    c.push_str("\n");
-                    true
-                } else {
-                    if !prev_was_empty {
-                        c.push_str(" ");
-                    }
-                    c.push_str(without_indent);
-                    false
-                }
-            };
-            (c, is_empty)
-        })
-        .0;
+    let mut result = String::new();
+    let mut empty_lines = 0;
+    let mut previous_was_indented = None;
+    for line in lines {
+        if line.is_empty() {
+            empty_lines += 1;
+            continue;
+        }
+        let is_indented = line.starts_with(' ') || line.starts_with('\t');
+        let newlines = match previous_was_indented {
+            None => empty_lines,
+            // Line breaks around more indented lines are not folded
+            Some(previous_was_indented) if previous_was_indented || is_indented => empty_lines + 1,
+            Some(_) => empty_lines,
+        };
+        if newlines == 0 && previous_was_indented.is_some() {
+            result.push(' ');
+        }
+        result.push_str(&"\n".repeat(newlines));
+        result.push_str(line);
+        empty_lines = 0;
+        previous_was_indented = Some(is_indented);
+    }
+    if previous_was_indented.is_none() {
+        empty_lines -= 1; // the last line end is added below
+    }
+    result.push_str(&"\n".repeat(empty_lines));
     handle_ending_newlines(result, chomping)
 }
 
-- 
2.43.0


From e776b5c24920bc5d48cd0cb454bfb7885252f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 15/34] fix: fold a text without adding an empty line for a
 long first word or losing repeated spaces

---
 src/yaml/string.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index ff46d21..a56db99 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -76,8 +76,13 @@ fn split_on_length(input: String, length: usize) -> Vec<String> {
     let mut s = String::new();
     let mut first = true;
     for word in input.split(" ") {
-        if s.len() + word.len() + 1 > length {
-            result.push(s.clone());
+        // a break stands for exactly one space
+        let can_break = !word.is_empty() && !s.ends_with(' ');
+        if can_break && s.len() + word.len() + 1 > length {
+            // there is nothing to end yet when the first word is too long
+            if !s.is_empty() {
+                result.push(s.clone());
+            }
             s = word.to_string();
         } else {
             if !first {
-- 
2.43.0


From dcb09ef1194791bbae625df4195f6b9e880684b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 16/34] fix: quote strings that would be read as an anchor, a
 list item, a key or null when serialized or prettied

---
 src/yaml/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 7aeb730..17c96a5 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -655,8 +655,8 @@ impl<T: Pretty> Pretty for Vec<T> {
 
 // Returns true when a string can be written as a plain (unquoted) YAML scalar in block context.
 // Rules based on yaml_subset's grammar:
-//   - start disallowed: [ ] { } " ' # > | newline
-//   - anywhere disallowed: ": " (colon-space), # , newlines
+//   - start disallowed: [ ] { } " ' # > | & * newline, "- "
+//   - anywhere disallowed: ": " (colon-space), a colon at the end, # , newlines
 // Also rejects strings that serde's untagged-enum Content mechanism misinterprets:
 // untagged enum deserialization calls deserialize_any to collect into Content, and
 // deserialize_any maps UnquotedString("2") → visit_i64(2) → Content::I64(2).
@@ -665,18 +665,26 @@ impl<T: Pretty> Pretty for Vec<T> {
 // so Vec<String> fields next to integer fields in the same struct both work.
 // Note: inline_breaking_chars must also be checked for inline (flow) context.
 fn can_be_unquoted_in_block(s: &str) -> bool {
-    if s.is_empty() || s.starts_with(' ') || s.ends_with(' ') {
+    if s.is_empty() || s.starts_with(char::is_whitespace) || s.ends_with(char::is_whitespace) {
         return false;
     }
     match s.chars().next().unwrap() {
         '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' => return false,
+        // an anchor or a reference to one
+        '&' | '*' => return false,
         _ => {}
     }
-    if s.contains(": ") || s.contains('#') || s.contains('\n') || s.contains('\r') {
+    // a list item or a key
+    if s.split(char::is_whitespace).next() == Some("-")
+        || s.split(char::is_whitespace).any(|word| word.ends_with(':'))
+    {
+        return false;
+    }
+    if s.contains('#') || s.contains('\n') || s.contains('\r') {
         return false;
     }
     !s.parse::<i64>().is_ok() && !s.parse::<f64>().is_ok()
-        && !matches!(s, "true" | "false" | "null" | "~")
+        && !matches!(s, "true" | "false" | "null" | "Null" | "NULL" | "~")
 }
 
 fn inline_breaking_chars(s: &str) -> bool {
-- 
2.43.0


From 39d488dd9c47cc32b29bf547b35d5da97e204d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 17/34] fix: pretty quotes list items again when it puts the
 list on one line

---
 src/yaml/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 17c96a5..bfd3c40 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -765,7 +765,9 @@ impl Pretty for Yaml {
                         let elems: Vec<Yaml> = prettied
                             .iter()
                             .filter_map(|d| match d {
-                                ArrayData::Element(e) => Some(e.value.clone()),
+                                ArrayData::Element(e) => {
+                                    Some(e.value.clone().pretty_with_options(true, false))
+                                }
                                 _ => None,
                             })
                             .collect();
-- 
2.43.0


From ee5c64a9601affcddbe52dbf2fa1dba132271c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 18/34] fix: pretty rewrites quoted strings only to block
 scalars that stand for the same text

---
 src/yaml/mod.rs | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index bfd3c40..802f82b 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -31,7 +31,7 @@ use crate::utils::indent;
 use crate::yaml::insert::Additive;
 use crate::yaml::string::parse_double_quoted_string;
 use crate::yaml::string::parse_single_quoted_string;
-use crate::yaml::string::{create_folded, create_literal};
+use crate::yaml::string::{create_folded, create_literal, parse_folded};
 use crate::yaml::string::SingleQuotedStringEscapedChar;
 use crate::YamlPath;
 use std::fmt::Write;
@@ -693,6 +693,18 @@ fn inline_breaking_chars(s: &str) -> bool {
         || s.contains('>') || s.contains('|')
 }
 
+// Can the text be written as a block scalar? It needs some text, and a line end in it is always "\n".
+fn fits_literal(s: &str) -> bool {
+    !s.contains('\r') && s.contains(|c| c != ' ' && c != '\n')
+}
+
+// The lines of a folded scalar for the text, if there are lines that stand for exactly that text.
+fn try_create_folded(s: &str, line_length: usize, chomping: BlockChomping) -> Option<Vec<String>> {
+    let lines = create_folded(s.to_string(), line_length);
+    let folded = parse_folded(lines.iter().map(|l| &l[..]).collect(), chomping);
+    (fits_literal(s) && folded == s).then_some(lines)
+}
+
 fn str_to_single_quoted_parts(s: &str) -> Vec<SingleQuotedStringPart> {
     let mut parts: Vec<SingleQuotedStringPart> = Vec::new();
     let mut buf = String::new();
@@ -799,35 +811,38 @@ impl Pretty for Yaml {
                 let s = parse_double_quoted_string(&parts);
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
-                if contains_escape {
-                    Yaml::LiteralString(create_literal(s), chomping)
-                } else if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
-                } else {
-                    Yaml::DoubleQuotedString(parts)
+                if contains_escape && fits_literal(&s) {
+                    return Yaml::LiteralString(create_literal(s), chomping);
+                }
+                if !contains_escape && total_length > max_line_length {
+                    if let Some(lines) = try_create_folded(&s, max_line_length, chomping) {
+                        return Yaml::FoldedString(lines, chomping);
+                    }
                 }
+                Yaml::DoubleQuotedString(parts)
             }
             Yaml::SingleQuotedString(parts) => {
+                if in_inline {
+                    return Yaml::SingleQuotedString(parts);
+                }
                 let contains_newline = parts
                     .iter()
                     .any(|x| matches!(x, SingleQuotedStringPart::BlankLines(_)));
                 let s = parse_single_quoted_string(&parts);
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
-                if contains_newline {
+                if contains_newline && fits_literal(&s) {
                     return Yaml::LiteralString(create_literal(s), chomping);
                 }
-                if !in_inline && can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
+                if can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
                     return Yaml::UnquotedString(s);
                 }
-                if in_inline {
-                    return Yaml::SingleQuotedString(parts);
-                }
-                if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
-                } else {
-                    Yaml::SingleQuotedString(parts)
+                if !contains_newline && total_length > max_line_length {
+                    if let Some(lines) = try_create_folded(&s, max_line_length, chomping) {
+                        return Yaml::FoldedString(lines, chomping);
+                    }
                 }
+                Yaml::SingleQuotedString(parts)
             }
             Yaml::LiteralString(lines, chomping) => Yaml::LiteralString(lines, chomping),
             Yaml::FoldedString(lines, chomping) => Yaml::FoldedString(lines, chomping),
-- 
2.43.0


From ca550919d073f732dc64fa81a77f8c4924f24ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 19/34] fix: serialize map keys that need quotes as a value

---
 src/yaml/serializer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 8fc2c34..7b0f8e5 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -141,10 +141,11 @@ fn str_to_yaml(s: &str) -> Yaml {
 }
 
 fn yaml_to_key_string(yaml: Yaml) -> Result<String, YamlSerializeError> {
-    use super::string::parse_double_quoted_string;
+    use super::string::{parse_double_quoted_string, parse_single_quoted_string};
     match yaml {
         Yaml::UnquotedString(s) => Ok(s),
         Yaml::DoubleQuotedString(ref parts) => Ok(parse_double_quoted_string(parts)),
+        Yaml::SingleQuotedString(ref parts) => Ok(parse_single_quoted_string(parts)),
         _ => Err(YamlSerializeError("non-string map key".to_string())),
     }
 }
-- 
2.43.0


From f6adf237ae66371b158de7fb59f508ba9f0e8dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 20/34] fix: deserialize the 128-bit integers that the
 serializer writes

---
 src/yaml/deserializer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 049b962..e56eb9c 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -235,6 +235,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected integer"))
         }
     }
+    fn deserialize_i128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<i128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_i128(v))
+        } else {
+            Err(Self::Error::custom("expected integer"))
+        }
+    }
     fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_u64(visitor)
     }
@@ -254,6 +264,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected unsigned integer"))
         }
     }
+    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<u128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_u128(v))
+        } else {
+            Err(Self::Error::custom("expected unsigned integer"))
+        }
+    }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_f64(visitor)
     }
-- 
2.43.0


From 022b65feda0c13d7fac2e757f7f371db3e64b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 21/34] fix: resolve a reference to the last anchor definition
 before it, also inside ignored values, and never to itself

---
 src/yaml/deserializer.rs | 86 ++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 29 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index e56eb9c..8085c42 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -5,7 +5,6 @@ use super::string::{
     parse_double_quoted_string, parse_folded, parse_literal, parse_single_quoted_string,
 };
 use super::{AliasedYaml, ArrayData, HashData, Yaml};
-use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
 
@@ -51,55 +50,82 @@ fn yaml_to_string(yaml: &Yaml) -> Option<String> {
     }
 }
 
-type Anchors = Rc<RefCell<HashMap<String, Yaml>>>;
+/// The values of the anchors, by the unique names that [`bind`] gave them
+type Anchors = Rc<HashMap<String, Yaml>>;
 
-fn register(anchors: &Anchors, aliased: &AliasedYaml) {
+/// Collect the values of all anchors and let each reference use the last definition before it.
+/// A reference without one, for example to a value that it is part of, keeps its own name.
+fn bind(yaml: &mut Yaml, names: &mut HashMap<String, String>, anchors: &mut HashMap<String, Yaml>) {
+    match yaml {
+        Yaml::Anchor(name) => {
+            if let Some(unique_name) = names.get(name) {
+                *name = unique_name.clone();
+            }
+        }
+        Yaml::Hash(data) => {
+            for d in data {
+                if let HashData::Element(e) = d {
+                    bind_aliased(&mut e.value, names, anchors);
+                }
+            }
+        }
+        Yaml::Array(data) => {
+            for d in data {
+                if let ArrayData::Element(e) = d {
+                    bind_aliased(e, names, anchors);
+                }
+            }
+        }
+        Yaml::InlineHash(data) => data.iter_mut().for_each(|(_, v)| bind(v, names, anchors)),
+        Yaml::InlineArray(data) => data.iter_mut().for_each(|v| bind(v, names, anchors)),
+        _ => (),
+    }
+}
+
+fn bind_aliased(
+    aliased: &mut AliasedYaml,
+    names: &mut HashMap<String, String>,
+    anchors: &mut HashMap<String, Yaml>,
+) {
+    bind(&mut aliased.value, names, anchors);
     if let Some(name) = &aliased.alias {
-        anchors.borrow_mut().insert(name.clone(), aliased.value.clone());
+        let unique_name = format!("{name}#{}", anchors.len());
+        names.insert(name.clone(), unique_name.clone());
+        anchors.insert(unique_name, aliased.value.clone());
     }
 }
 
 fn resolve(anchors: &Anchors, name: &str) -> Result<Yaml, YamlDeserializeError> {
     anchors
-        .borrow()
         .get(name)
         .cloned()
         .ok_or_else(|| YamlDeserializeError(format!("undefined anchor: {name}")))
 }
 
-fn hash_entries(anchors: &Anchors, data: Vec<HashData>) -> Vec<(String, Yaml)> {
+fn hash_entries(data: Vec<HashData>) -> Vec<(String, Yaml)> {
     data.into_iter()
         .filter_map(|d| match d {
-            HashData::Element(e) => {
-                register(anchors, &e.value);
-                Some((e.key, e.value.value))
-            }
+            HashData::Element(e) => Some((e.key, e.value.value)),
             HashData::InlineComment(_) | HashData::Comment(_) => None,
         })
         .collect()
 }
 
-fn seq_values(anchors: &Anchors, elements: Vec<ArrayData>) -> Vec<Yaml> {
+fn seq_values(elements: Vec<ArrayData>) -> Vec<Yaml> {
     elements
         .into_iter()
         .filter_map(|d| match d {
-            ArrayData::Element(e) => {
-                register(anchors, &e);
-                Some(e.value)
-            }
+            ArrayData::Element(e) => Some(e.value),
             ArrayData::InlineComment(_) | ArrayData::Comment(_) => None,
         })
         .collect()
 }
 
-fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDeserializeError> {
-    match yaml {
-        Yaml::Anchor(ref name) => {
-            let resolved = resolve(&anchors, name)?;
-            Ok((resolved, anchors))
-        }
-        other => Ok((other, anchors)),
+fn into_resolved(mut yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDeserializeError> {
+    while let Yaml::Anchor(ref name) = yaml {
+        yaml = resolve(&anchors, name)?;
     }
+    Ok((yaml, anchors))
 }
 
 // ─── Main Deserializer ───────────────────────────────────────────────────────
@@ -110,8 +136,10 @@ pub struct YamlDeserializer {
 }
 
 impl YamlDeserializer {
-    pub fn new(yaml: Yaml) -> Self {
-        Self { yaml, anchors: Rc::new(RefCell::new(HashMap::new())) }
+    pub fn new(mut yaml: Yaml) -> Self {
+        let mut anchors = HashMap::new();
+        bind(&mut yaml, &mut HashMap::new(), &mut anchors);
+        Self { yaml, anchors: Rc::new(anchors) }
     }
 
     fn with(yaml: Yaml, anchors: Anchors) -> Self {
@@ -184,12 +212,12 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_string(parse_single_quoted_string(parts))
             }
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -341,7 +369,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
@@ -370,7 +398,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -413,7 +441,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             // Newtype / tuple / struct variant: single-key map where the key is
             // the variant name and the value is the variant's content.
             Yaml::Hash(data) => {
-                let mut entries = hash_entries(&anchors, data);
+                let mut entries = hash_entries(data);
                 if entries.len() == 1 {
                     let (variant, value) = entries.remove(0);
                     visitor.visit_enum(StrEnumAccess { variant, value, anchors })
-- 
2.43.0


From 095d8c9560dea81fc2eb588a952bbd26d0bc9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 22/34] fix: move_to_subfield leaves fields where they are when
 the subfield can't take them

---
 src/yaml/insert.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index b1d48c0..fdf30d7 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -138,18 +138,24 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
-                let fields: Vec<_> = fields_to_move
+                let mut fields: Vec<_> = fields_to_move
                     .iter()
+                    .filter(|key| **key != subfield)
                     .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
                     .collect();
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
-                        for (key, value) in fields.iter() {
+                        // a subfield that is no hash can't take the fields
+                        fields.retain(|(key, value)| {
                             let path = key.parse().unwrap();
-                            subfield_value.insert_into_hash(&path, &value, true);
+                            subfield_value.insert_into_hash(&path, &value, true) > 0
+                        });
+                        if fields.is_empty() {
+                            0
+                        } else {
+                            1
                         }
-                        1
                     } else {
                         let value = Yaml::Hash(
                             fields
-- 
2.43.0


From ae21b526f9355dcfe27012c4a8fc56955bd93653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 23/34] fix: move_to_map_with_field_as_key keeps the old map
 when the new map already exists

---
 src/yaml/insert.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index fdf30d7..2f7cabf 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -284,13 +284,17 @@ pub trait YamlInsert {
                                         .collect(),
                                 ),
                             };
-                            hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
-                            let old = AliasedYaml {
-                                alias: result.alias.clone(),
-                                value: Yaml::Hash(old_hashes),
-                            };
-                            hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
-                            1
+                            let inserted =
+                                hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
+                            // the fields stay in the old map if there already is a new map
+                            if inserted > 0 {
+                                let old = AliasedYaml {
+                                    alias: result.alias.clone(),
+                                    value: Yaml::Hash(old_hashes),
+                                };
+                                hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
+                            }
+                            inserted
                         } else {
                             0
                         }
-- 
2.43.0


From bf82bc3184c273fb109f6d7b8d6147cf04668efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 24/34] fix: a path with spaces between its parts parses
 instead of panicking

---
 src/path.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.pest b/src/path.pest
index c63d648..a59c821 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,4 +1,4 @@
-WHITESPACE = { " " }
+WHITESPACE = _{ " " }
 
 key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
 pure_key = { key_items+ }
-- 
2.43.0


From 05f1535191b72ea5e8a34045ec5bc6b5bf271ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 25/34] fix: keep the space after a long first word when a text
 is folded

---
 src/yaml/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index a56db99..ad562bc 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -89,8 +89,8 @@ fn split_on_length(input: String, length: usize) -> Vec<String> {
                 s.push_str(" ");
             }
             s.push_str(word);
-            first = false;
         }
+        first = false;
     }
     if !s.is_empty() {
         result.push(s.clone());
-- 
2.43.0


From b50b87a337a0fcaf59b7099f1954e8c1dd519135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 26/34] fix: moving fields takes names as names, so that a '.'
 or '|' in one loses no field

---
 src/yaml/insert.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index 2f7cabf..a6ad4fb 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -30,6 +30,11 @@ impl<T> Additive for MyVec<T> {
     }
 }
 
+// The path to a field by its name, whatever characters the name has.
+fn field_path(name: &str) -> YamlPath {
+    YamlPath::Key(name.to_string(), Vec::new(), None)
+}
+
 pub trait YamlInsert {
     fn for_hash<F, R, A: Additive>(&mut self, path: &YamlPath, f: &F, r: &R) -> A
     where
@@ -148,8 +153,7 @@ pub trait YamlInsert {
                     let res = if let Some(subfield_value) = subfield_value_opt {
                         // a subfield that is no hash can't take the fields
                         fields.retain(|(key, value)| {
-                            let path = key.parse().unwrap();
-                            subfield_value.insert_into_hash(&path, &value, true) > 0
+                            subfield_value.insert_into_hash(&field_path(key), &value, true) > 0
                         });
                         if fields.is_empty() {
                             0
@@ -170,11 +174,11 @@ pub trait YamlInsert {
                                 .collect(),
                         );
                         let new = AliasedYaml { alias: None, value };
-                        hash.insert_into_hash(&subfield.parse().unwrap(), &new, false);
+                        hash.insert_into_hash(&field_path(&subfield), &new, false);
                         1
                     };
                     for (key, _) in fields {
-                        hash.remove_from_hash(&key.parse().unwrap());
+                        hash.remove_from_hash(&field_path(key));
                     }
                     res
                 } else {
@@ -214,15 +218,14 @@ pub trait YamlInsert {
                                     {
                                         if let Some(s) = key.as_string() {
                                             if keeps.contains(&s) || s.is_empty() {
-                                                hash_data
-                                                    .remove_from_hash(&selector.parse().unwrap());
+                                                hash_data.remove_from_hash(&field_path(&selector));
                                                 old_hashes.extend(comments.clone());
                                                 comments.clear();
                                                 old_hashes.push(hash_data);
                                                 last_added_to = None
                                             } else {
                                                 let mut value = hash_element.value.clone();
-                                                value.remove_from_hash(&selector.parse().unwrap());
+                                                value.remove_from_hash(&field_path(&selector));
 
                                                 let new_hash_element =
                                                     HashData::Element(HashElement {
@@ -285,14 +288,14 @@ pub trait YamlInsert {
                                 ),
                             };
                             let inserted =
-                                hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
+                                hash.insert_into_hash(&field_path(&new_map_name), &new, false);
                             // the fields stay in the old map if there already is a new map
                             if inserted > 0 {
                                 let old = AliasedYaml {
                                     alias: result.alias.clone(),
                                     value: Yaml::Hash(old_hashes),
                                 };
-                                hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
+                                hash.insert_into_hash(&field_path(&old_map_name), &old, true);
                             }
                             inserted
                         } else {
-- 
2.43.0


From 588976c2f7df5614df64e8e93267743346765756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 27/34] fix: spaces in a path's names are read the same
 wherever they are

---
 src/path.pest | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/path.pest b/src/path.pest
index a59c821..eac16bc 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,10 +1,10 @@
 WHITESPACE = _{ " " }
 
 key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
-pure_key = { key_items+ }
+pure_key = @{ key_items+ }
 
-field = { (!("=") ~ ANY)+ }
-value = { (!("." | "|") ~ ANY)+ }
+field = @{ (!("=") ~ ANY)+ }
+value = @{ (!("." | "|") ~ ANY)+ }
 condition = { field ~ "=" ~ value }
 key = { pure_key ~ ( "|" ~ condition )* }
 
-- 
2.43.0


From 7addc7a9e4b1791ec83fd67673a00202ca66d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 28/34] fix: don't fold a text before a tab, which makes the
 line more indented

---
 src/yaml/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index ad562bc..3bdaafa 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -76,8 +76,8 @@ fn split_on_length(input: String, length: usize) -> Vec<String> {
     let mut s = String::new();
     let mut first = true;
     for word in input.split(" ") {
-        // a break stands for exactly one space
-        let can_break = !word.is_empty() && !s.ends_with(' ');
+        // a break stands for exactly one space, but not before a line that looks indented
+        let can_break = !word.is_empty() && !word.starts_with('\t') && !s.ends_with(' ');
         if can_break && s.len() + word.len() + 1 > length {
             // there is nothing to end yet when the first word is too long
             if !s.is_empty() {
-- 
2.43.0


From d6660f68ada73620abed339b9d30b8d5ef23527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 29/34] fix: an index with one space behind it is an index

---
 src/path.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.pest b/src/path.pest
index eac16bc..1d3cce2 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -8,7 +8,7 @@ value = @{ (!("." | "|") ~ ANY)+ }
 condition = { field ~ "=" ~ value }
 key = { pure_key ~ ( "|" ~ condition )* }
 
-index_number = { ASCII_DIGIT+ }
+index_number = @{ ASCII_DIGIT+ }
 index_all = { "*" }
 index = _{ "[" ~ (index_number | index_all) ~ "]" ~ ( "|" ~ condition )* }
 
-- 
2.43.0


From 8a47b04e63cfae9456727899e63b67472e4a590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 30/34] fix: line ends in quoted scalars may be CRLF or CR, and
 CR ends a line of a block scalar

In a file with CRLF line ends a quoted scalar that spans lines kept the carriage
returns as text, and an escaped line end was rejected.
---
 src/yaml.pest      | 10 +++++-----
 src/yaml/parser.rs | 11 ++++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 34a0e7c..7610368 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -21,18 +21,18 @@ unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements)
 unquoted_string = @{ unquoted_string_start_elements ~ unquoted_string_elements* }
 string_value = @{ (("\\" ~ ANY) | (!(PEEK) ~ ANY))* }
 
-escaped_double_quote_char_value = { "n" | "\\" | "r" | "t" | "\"" | "\n" }
+escaped_double_quote_char_value = { "n" | "\\" | "r" | "t" | "\"" | NEWLINE }
 escaped_double_quote_char = _{ "\\" ~ escaped_double_quote_char_value }
-double_quote_text = { (!("\"" | "\\" | "\n") ~ ANY)+ }
+double_quote_text = { (!("\"" | "\\" | NEWLINE) ~ ANY)+ }
 double_quote_without_escape = { escaped_double_quote_char | blank_lines | removable_newline | double_quote_text }
 double_quote_content = { double_quote_without_escape* }
 double_quoted_string = { PUSH("\"") ~ double_quote_content ~ POP ~ SPACE_SEPARATOR* }
 
 single_quote = { "'" }
 single_quote_char = _{ "'" ~ single_quote }
-blank_lines = { "\n" ~ "\n"+ }
-removable_newline = { "\n" }
-single_quote_text = { (!("'" | "\n") ~ ANY)+ }
+blank_lines = { NEWLINE ~ NEWLINE+ }
+removable_newline = { NEWLINE }
+single_quote_text = { (!("'" | NEWLINE) ~ ANY)+ }
 escaped_single_quote_char = { single_quote_char | blank_lines | removable_newline | single_quote_text }
 single_quote_content = { escaped_single_quote_char* }
 single_quoted_string = { PUSH("'") ~ single_quote_content ~ POP ~ SPACE_SEPARATOR* }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 80f4f13..af641c2 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -115,7 +115,7 @@ impl YamlParser {
     ) -> InternalYamlResult<DoubleQuotedStringEscapedChar> {
         match input.as_str().chars().next().unwrap() {
             'n' => Ok(DoubleQuotedStringEscapedChar::Newline),
-            '\n' => Ok(DoubleQuotedStringEscapedChar::RealNewline),
+            '\n' | '\r' => Ok(DoubleQuotedStringEscapedChar::RealNewline),
             'r' => Ok(DoubleQuotedStringEscapedChar::CarriageReturn),
             't' => Ok(DoubleQuotedStringEscapedChar::Tab),
             '\\' => Ok(DoubleQuotedStringEscapedChar::Backslash),
@@ -133,7 +133,7 @@ impl YamlParser {
     }
 
     fn blank_lines(input: Node) -> InternalYamlResult<usize> {
-        Ok(input.as_str().lines().count() - 1)
+        Ok(count_newlines(input.as_str()) - 1)
     }
 
     fn double_quote_without_escape(input: Node) -> InternalYamlResult<DoubleQuotedStringPart> {
@@ -602,7 +602,12 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
 
 /// One empty line per line end in the given blank text
 fn empty_lines(input: &str) -> Vec<String> {
-    input.lines().map(|_| String::new()).collect()
+    vec![String::new(); count_newlines(input)]
+}
+
+/// The amount of line ends: "\n", "\r\n" or "\r"
+fn count_newlines(input: &str) -> usize {
+    input.replace("\r\n", "\n").matches(['\n', '\r']).count()
 }
 
 /// Remove the indentation that is left of the lines of a block scalar with an indentation
-- 
2.43.0


From b4c4ce99319855e5963e861831d600674b1407fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 31/34] fix: keep the quotes of texts that start with a YAML
 indicator ('%', '@', '`', '!', '? ')

---
 src/yaml/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 802f82b..aac2c3e 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -672,10 +672,12 @@ fn can_be_unquoted_in_block(s: &str) -> bool {
         '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' => return false,
         // an anchor or a reference to one
         '&' | '*' => return false,
+        // a tag, a directive and reserved characters in YAML
+        '!' | '%' | '@' | '`' => return false,
         _ => {}
     }
     // a list item or a key
-    if s.split(char::is_whitespace).next() == Some("-")
+    if matches!(s.split(char::is_whitespace).next(), Some("-" | "?"))
         || s.split(char::is_whitespace).any(|word| word.ends_with(':'))
     {
         return false;
-- 
2.43.0


From b394af9feb3667af68d89531f2873a0a797fe033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 32/34] fix: parsing invalid text with keys or lists at one
 column took exponential time

After the alternative hash or array failed at a position, the same hash or array was tried there
again, and a key with a space behind its ':' tried its value on the next lines twice: every level
of nesting doubled the work.
---
 src/yaml.pest      | 14 +++++++++++---
 src/yaml/parser.rs | 41 +++++++++++++++++++++++++++++++++++++++--
 2 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 7610368..f956474 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -68,14 +68,22 @@ array = { inline_array | block_array }
 alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
 alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
 
-block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
+block_array_aliased_yaml_value = { alternative_aliased_yaml_value | same_line_aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ (alternative_hash | alternative_array) }
-newline_aliased_yaml_value = { alternative_aliased_hash | aliased_yaml_value }
+newline_aliased_yaml_value = { alternative_aliased_hash | &SPACE_SEPARATOR ~ aliased_yaml_value | !SPACE_SEPARATOR ~ unindented_aliased_yaml_value }
 alternative_aliased_hash = { (alias ~ SPACE_SEPARATOR*)? ~ alternative_hash }
 
+// The values that are left once the alternative hash and array have failed: they are not tried again
+// at the same position, as that would double the work for every level of nesting
+line_end = _{ SPACE_SEPARATOR* ~ (NEWLINE | "#") }
+same_line_yaml_value = { &line_end ~ (hash | block_array) | SPACE_SEPARATOR* ~ (string_multiline_literal | string_multiline_folded | inline_value) }
+same_line_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ same_line_yaml_value }
+unindented_yaml_value = { &line_end ~ hash | array | string_multiline_literal | string_multiline_folded | inline_value }
+unindented_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ unindented_yaml_value }
+
 yaml_value= { hash | array | SPACE_SEPARATOR* ~ (string_multiline_literal | string_multiline_folded | inline_value) }
 aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ newline_aliased_yaml_value) }
+hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ !NEWLINE ~ block_array_aliased_yaml_value | blanknl ~ newline_aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
 hash = { blank ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index af641c2..7697be6 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -343,7 +343,43 @@ impl YamlParser {
     fn block_array_aliased_yaml_value(input: Node) -> InternalYamlResult<AliasedYaml> {
         match_nodes!(input.into_children();
             [alternative_aliased_yaml_value(value)] => Ok(value),
-            [aliased_yaml_value(value)] => Ok(value))
+            [same_line_aliased_yaml_value(value)] => Ok(value))
+    }
+
+    fn same_line_yaml_value(input: Node) -> InternalYamlResult<Yaml> {
+        match_nodes!(input.into_children();
+            [hash(value)] => Ok(value),
+            [block_array(value)] => Ok(value),
+            [string_multiline_literal(value)] => Ok(value),
+            [string_multiline_folded(value)] => Ok(value),
+            [inline_value(value)] => Ok(value))
+    }
+
+    fn same_line_aliased_yaml_value(input: Node) -> InternalYamlResult<AliasedYaml> {
+        match_nodes!(input.into_children();
+        [alias(alias), same_line_yaml_value(value)] => Ok(AliasedYaml {
+            alias: Some(alias),
+            value,
+        }),
+        [same_line_yaml_value(value)] => Ok(AliasedYaml { alias: None, value }))
+    }
+
+    fn unindented_yaml_value(input: Node) -> InternalYamlResult<Yaml> {
+        match_nodes!(input.into_children();
+            [hash(value)] => Ok(value),
+            [array(value)] => Ok(value),
+            [string_multiline_literal(value)] => Ok(value),
+            [string_multiline_folded(value)] => Ok(value),
+            [inline_value(value)] => Ok(value))
+    }
+
+    fn unindented_aliased_yaml_value(input: Node) -> InternalYamlResult<AliasedYaml> {
+        match_nodes!(input.into_children();
+        [alias(alias), unindented_yaml_value(value)] => Ok(AliasedYaml {
+            alias: Some(alias),
+            value,
+        }),
+        [unindented_yaml_value(value)] => Ok(AliasedYaml { alias: None, value }))
     }
 
     fn alternative_aliased_yaml_value(input: Node) -> InternalYamlResult<AliasedYaml> {
@@ -369,7 +405,8 @@ impl YamlParser {
     fn newline_aliased_yaml_value(input: Node) -> InternalYamlResult<AliasedYaml> {
         match_nodes!(input.into_children();
             [alternative_aliased_hash(value)] => Ok(value),
-            [aliased_yaml_value(value)] => Ok(value))
+            [aliased_yaml_value(value)] => Ok(value),
+            [unindented_aliased_yaml_value(value)] => Ok(value))
     }
 
     fn alternative_aliased_hash(input: Node) -> InternalYamlResult<AliasedYaml> {
-- 
2.43.0


From 415cae83bc642de7919f8539c252c7d7db3556ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 33/34] fix: find_values copied all earlier values for every
 value it found

---
 src/yaml/insert.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index a6ad4fb..552b5d1 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -19,8 +19,9 @@ pub struct MyVec<T>(pub Vec<T>);
 
 impl<T> std::ops::Add<MyVec<T>> for MyVec<T> {
     type Output = Self;
-    fn add(self, rhs: MyVec<T>) -> Self::Output {
-        Self(self.0.into_iter().chain(rhs.0.into_iter()).collect())
+    fn add(mut self, rhs: MyVec<T>) -> Self::Output {
+        self.0.extend(rhs.0);
+        self
     }
 }
 
-- 
2.43.0


From 54633775c03958592d0ad3fb71081a65fc5cc54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 34/34] fix: a field that is named twice is moved into the
 subfield once

---
 src/yaml/insert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index 552b5d1..3504081 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -146,8 +146,10 @@ pub trait YamlInsert {
             Yaml::Hash(_data) => {
                 let mut fields: Vec<_> = fields_to_move
                     .iter()
-                    .filter(|key| **key != subfield)
-                    .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
+                    .enumerate()
+                    // a field that is named twice is moved once
+                    .filter(|(i, key)| **key != subfield && !fields_to_move[..*i].contains(key))
+                    .filter_map(|(_, key)| hash.key_value_owned(key).map(|val| (key, val)))
                     .collect();
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
-- 
2.43.0

