From 08607fab9871b75716694dd5c4b2faf9088b4845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 01/11] fix: separate results by newlines in the output file

The sink printed every result with println! but wrote it to the file given
with --out without a line ending, so all results ran together.
---
 dandy-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index 275fdd8..afd9299 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -298,7 +298,7 @@ fn main() {
     let mut sink = |s: &str| {
         println!("{s}");
         if let Some(f) = out_file.as_mut() {
-            f.write_all(s.as_bytes()).unwrap();
+            writeln!(f, "{s}").unwrap();
         };
     };
 
-- 
2.43.0


From 7a3046b33ce2dcd02ff71b12c9f5f03fd616b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 02/11] fix: keep the last path components of absolute paths

last_n_components collected the components to a path in reverse order; when
the root directory was among them, pushing it replaced the whole path.
---
 dandy-cli/src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index afd9299..c44b915 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -349,10 +349,12 @@ pub fn last_n_components(path: &Path, n: Option<usize>) -> Option<String> {
         return Some(path.display().to_string());
     };
     (n != 0).then(|| {
-        let new_path = path.components().rev().take(n).collect::<PathBuf>();
-        new_path
-            .components()
-            .rev()
+        // Note: the components may not be collected to a path in reverse order, since pushing the root directory
+        // to a path replaces everything before it
+        let mut last_components = path.components().rev().take(n).collect::<Vec<_>>();
+        last_components.reverse();
+        last_components
+            .into_iter()
             .collect::<PathBuf>()
             .display()
             .to_string()
-- 
2.43.0


From 117732a56cf8e2d6106419429493165411ac799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 03/11] fix: don't panic on labels that don't fit in the ASCII
 art

The range replaced by a label was computed by mixing byte and char offsets, and
could end after the end of the line or inside of a multi-byte char.
---
 dandy-draw/src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 7726f2a..4b0730f 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -419,15 +419,17 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
                 if arrow.arrow.left != arrow.arrow.right {
                     // Note that label can be non-ascii (as for ε), so make sure we replace correct amnt of spaces
                     let label = arrow.arrow.label();
-                    let range = {
-                        // We need to replace the nth *char* which is not necessarily same as the nth byte (we could
-                        // have inserted labels to the left)
-                        let start = right_x_idx(arrow.arrow.left);
-                        let start = bot_line.char_indices().nth(start).unwrap().0;
-                        // We need to replace equally many spaces as the label has (visible) chars
-                        start + 1..start + label.chars().count() + 1
-                    };
-                    bot_line.replace_range(range, &label);
+                    // We need to replace the nth *char* which is not necessarily same as the nth byte (we could
+                    // have inserted labels to the left), and equally many chars as the label has (visible) chars
+                    let start = right_x_idx(arrow.arrow.left) + 1;
+                    let end = start + label.chars().count();
+                    let mut chars = bot_line.chars().collect::<Vec<_>>();
+                    if chars.len() < end {
+                        // The label is longer than what is left of the line
+                        chars.resize(end, ' ');
+                    }
+                    chars.splice(start..end, label.chars());
+                    bot_line = chars.into_iter().collect();
                 } else {
                     // Space is tight, so don't print this
                     // let label = arrow.arrow.label();
-- 
2.43.0


From ff1f2495c7585f59c227de129bf7b948844e6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 04/11] fix: escape all reserved characters when printing a
 regex
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only reserved characters of one byte were escaped, so an escaped ε or ∅ was
printed as the empty string or the empty language.
---
 dandy/src/regex/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 9f282bb..da14a80 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -194,10 +194,8 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
-                    if g.len() == 1
-                        && ['(', ')', '∅', 'ε', '|', '*', '+', '\\']
-                            .contains(&g.chars().next().unwrap())
-                    {
+                    // Just as when parsing, it is the first char of the grapheme that matters
+                    if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
                         acc.push('\\');
                         acc.push_str(g);
                     } else {
-- 
2.43.0


From 3e10476f1c63da601bbbd3ab4e8a2b0d2ec44311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 05/11] fix: keep adjacent graphemes apart when printing a
 regex

A combining mark that was a symbol of its own, as in (a)(\u0308), was printed
directly after the symbol before it and became a part of it.
---
 dandy/src/regex/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index da14a80..b1d0a6f 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -55,6 +55,7 @@ use crate::nfa::{Nfa, NfaState};
 use std::collections::HashMap;
 use std::iter;
 use std::rc::Rc;
+use unicode_segmentation::UnicodeSegmentation;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Regex {
@@ -195,7 +196,10 @@ impl Regex {
                 }
                 RegexChar::Grapheme(g) => {
                     // Just as when parsing, it is the first char of the grapheme that matters
-                    if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
+                    // A grapheme that would become one with what is before it must be kept apart from it
+                    if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\'])
+                        || Self::would_join(acc, g)
+                    {
                         acc.push('\\');
                         acc.push_str(g);
                     } else {
@@ -206,6 +210,15 @@ impl Regex {
         }
     }
 
+    /// Checks if the last grapheme of a string would become longer if the given grapheme is appended to the string
+    fn would_join(string: &str, grapheme: &str) -> bool {
+        let Some(last) = string.graphemes(true).next_back() else {
+            return false;
+        };
+        let joined = format!("{last}{grapheme}");
+        joined.graphemes(true).next() != Some(last)
+    }
+
     /// We turn a tree to a NFA recursively. `counter` is used to get the number of the next state.
     /// `char_idx` gives the index of a given character in the alphabet (and inserts the character
     /// if it didn't exist already). `send_to` is the state that the subtree should transition to
-- 
2.43.0


From c7c9d858204d1876919d0e5c61088a4df4faf37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 06/11] fix: preserve surrounding whitespace when printing a
 regex

A whitespace symbol first or last in an expression, as in '( a)', was printed
as-is and ignored when parsing the printed expression.
---
 dandy/src/regex/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index b1d0a6f..addf018 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -159,6 +159,13 @@ impl Regex {
     pub fn to_string(&self) -> String {
         let mut acc = String::new();
         Self::build_string(&self.tree, &mut acc);
+        // Surrounding whitespace is ignored when parsing, so it needs to be protected
+        if acc.starts_with(char::is_whitespace) {
+            acc.insert(0, '\\');
+        }
+        if acc.ends_with(char::is_whitespace) {
+            acc = format!("({acc})");
+        }
         acc
     }
 
-- 
2.43.0


From dd170ca4b31bedd94f0ad54611c01602b29ad0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 07/11] fix: print no unneeded parentheses around alternatives
 and symbols

---
 dandy/src/regex/mod.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index addf018..64438da 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -158,7 +158,11 @@ impl Regex {
     /// *This is subject to change*
     pub fn to_string(&self) -> String {
         let mut acc = String::new();
-        Self::build_string(&self.tree, &mut acc);
+        match &self.tree {
+            // No parentheses are needed around the whole expression
+            RegexTree::Alt(seq) => Self::build_alternatives(seq, &mut acc),
+            tree => Self::build_string(tree, &mut acc),
+        }
         // Surrounding whitespace is ignored when parsing, so it needs to be protected
         if acc.starts_with(char::is_whitespace) {
             acc.insert(0, '\\');
@@ -178,20 +182,19 @@ impl Regex {
             }
             RegexTree::Alt(seq) => {
                 acc.push('(');
-                let mut iter = seq.iter();
-                if let Some(first) = iter.next() {
-                    Self::build_string(first, acc);
-                    for item in iter {
-                        acc.push('|');
-                        Self::build_string(item, acc);
-                    }
-                }
+                Self::build_alternatives(seq, acc);
                 acc.push(')');
             }
             RegexTree::Repeat(seq) => {
-                acc.push('(');
-                Self::build_string(seq, acc);
-                acc.push(')');
+                // A grapheme may only be followed by the graphemes that followed it when it was parsed (parentheses
+                // become part of some graphemes), so don't add parentheses unless they are needed
+                if matches!(**seq, RegexTree::Char(_)) {
+                    Self::build_string(seq, acc);
+                } else {
+                    acc.push('(');
+                    Self::build_string(seq, acc);
+                    acc.push(')');
+                }
                 acc.push('*');
             }
             RegexTree::Char(c) => match c {
@@ -217,6 +220,17 @@ impl Regex {
         }
     }
 
+    fn build_alternatives(alternatives: &[RegexTree], acc: &mut String) {
+        let mut iter = alternatives.iter();
+        if let Some(first) = iter.next() {
+            Self::build_string(first, acc);
+            for item in iter {
+                acc.push('|');
+                Self::build_string(item, acc);
+            }
+        }
+    }
+
     /// Checks if the last grapheme of a string would become longer if the given grapheme is appended to the string
     fn would_join(string: &str, grapheme: &str) -> bool {
         let Some(last) = string.graphemes(true).next_back() else {
-- 
2.43.0


From 4110e43baf4cca812aa8c73d86a03f0e09388418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:52 +0000
Subject: [PATCH 08/11] fix: ASCII art draws the entry arrow at the initial
 state instead of always at the first one

---
 dandy-draw/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 4b0730f..7a57469 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -332,13 +332,17 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
     let arrows = group_arrows(arrows);
     let (arrows, levels) = place_arrows(arrows);
 
+    // If the initial state isn't the first one, we need space for the entry arrow between the states too
+    let entry_between = !states[0].initial;
+    let state_width = widest_state_name + if entry_between { 9 } else { 7 };
+
     let left_x_idx = |idx: usize| -> usize {
         //-> ((a))
-        5 + (7 + widest_state_name) * idx
+        5 + state_width * idx
     };
     let right_x_idx = |idx: usize| -> usize {
         //-> ((a))
-        6 + widest_state_name + (7 + widest_state_name) * idx
+        6 + widest_state_name + state_width * idx
     };
     let art_width = right_x_idx(states.len()) - 1;
 
@@ -354,8 +358,12 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
         };
 
         let mut acc = String::with_capacity(art_width);
-        acc.push_str("-> ");
-        states.iter().for_each(|state| {
+        let entry = |state: &State| if state.initial { "->" } else { "  " };
+        acc.push_str(&format!("{} ", entry(&states[0])));
+        states.iter().enumerate().for_each(|(idx, state)| {
+            if entry_between && idx > 0 {
+                acc.push_str(entry(state));
+            }
             if state.accepting {
                 acc.push_str(&format!("(( {} )) ", pad(state.name, widest_state_name)))
             } else {
-- 
2.43.0


From d69086bc0ed6dbaf11711289f7921ee5955a6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 09/11] fix: do not paint the last line of a canvas drawing
 again in the colour of the text

Every figure is stroked when it is drawn; stroking once more at the end
repainted the last line or circle in whatever colour was set last.
---
 dandy-draw/src/canvas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-draw/src/canvas.rs b/dandy-draw/src/canvas.rs
index 5308ca4..ab91095 100644
--- a/dandy-draw/src/canvas.rs
+++ b/dandy-draw/src/canvas.rs
@@ -26,7 +26,7 @@ impl Drawer for CanvasDrawer {
     }
 
     fn finish_drawing(&mut self) {
-        self.context.stroke();
+        self.context.begin_path();
     }
 
     fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32) {
-- 
2.43.0


From 14209e96c6024a3886943de0b1acb102e9a8b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 10/11] fix: centre the text of drawings on a canvas element

A CanvasDrawer made from an element did not set the text alignment that
one made from a context sets, so labels were drawn off centre.
---
 dandy-draw/src/canvas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-draw/src/canvas.rs b/dandy-draw/src/canvas.rs
index ab91095..b213896 100644
--- a/dandy-draw/src/canvas.rs
+++ b/dandy-draw/src/canvas.rs
@@ -16,7 +16,7 @@ impl CanvasDrawer {
 
     pub fn from_element(canvas: HtmlCanvasElement) -> Option<Self> {
         let context = canvas.get_context("2d").ok()??.dyn_into().ok()?;
-        Some(Self { context })
+        Some(Self::new(context))
     }
 }
 
-- 
2.43.0


From da20a389b610563d3fb6f5ce6789a48b9232df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:21 +0000
Subject: [PATCH 11/11] fix: show lines of no width as nothing on a canvas

A canvas ignores a line width of zero and keeps the one before, so such
lines and circles appeared in the width of whatever was drawn earlier.
---
 dandy-draw/src/canvas.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dandy-draw/src/canvas.rs b/dandy-draw/src/canvas.rs
index b213896..73c4255 100644
--- a/dandy-draw/src/canvas.rs
+++ b/dandy-draw/src/canvas.rs
@@ -30,6 +30,10 @@ impl Drawer for CanvasDrawer {
     }
 
     fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32) {
+        // a canvas ignores such a width and would use the previous one
+        if thickness <= 0.0 {
+            return;
+        }
         self.context.begin_path();
         self.context.set_line_width(thickness as f64);
         self.context
@@ -55,6 +59,10 @@ impl Drawer for CanvasDrawer {
     }
 
     fn draw_line(&mut self, from: Pos2, to: Pos2, thickness: f32) {
+        // a canvas ignores such a width and would use the previous one
+        if thickness <= 0.0 {
+            return;
+        }
         self.context.begin_path();
         self.context.set_line_width(thickness as f64);
         self.context.move_to(from.x as f64, from.y as f64);
-- 
2.43.0

