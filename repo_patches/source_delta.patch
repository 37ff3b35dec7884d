From e649ca27b3f250a8806e19c4004664f245908af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 01/48] fix: wrap_to_width: find newlines by byte offset, not
 character count

The positions are used to slice the text, so any multi-byte character before
a newline made it panic or split in the wrong place.
---
 src/line.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 275ba0b..8da8508 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -389,8 +389,7 @@ impl Line {
         assert!(width > 0);
         let newline_positions: Vec<usize> = self
             .text
-            .chars()
-            .enumerate()
+            .char_indices()
             .filter_map(|(n, c)| if c == '\n' { Some(n) } else { None })
             .chain(Some(self.text.len()))
             .collect();
-- 
2.43.0


From cf7fee7628d53af80c92b0af1e88209617fa49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 02/48] fix: wrapping must adjust every span at or after the
 edit

The loop stopped at the first span starting at or after the inserted newline,
so spans between it and the edit kept stale positions: attributes shifted and
later operations panicked.
---
 src/line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 8da8508..05e524c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -473,8 +473,8 @@ impl Line {
                     continue;
                 }
             }
-            if element.start >= range.start {
-                break; // all subsequent elements will be before the edit
+            if element.start < range.start {
+                break; // all preceding elements will be before the edit
             }
         }
     }
-- 
2.43.0


From 626ae03148f7f5d3dbc13d717aee88ff36212c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 03/48] fix: wrapped rows must not overflow because of
 whitespace

Whitespace at the end of the text (or of a paragraph) was left in place even
when it didn't fit in the width, and an indented paragraph whose first word
doesn't fit beside its indentation was left overlong unless it was the first.
---
 src/line.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 05e524c..d63734c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -404,9 +404,12 @@ impl Line {
             if start >= end {
                 continue;
             }
+            let seg_start = start;
+            let seg_end = end;
             let wrap_vec = textwrap::wrap(&self.text[start..end], width);
             let mut edit_vec = Vec::with_capacity(wrap_vec.len());
             let mut cur_end = start;
+            let mut row_start = start;
             for el in wrap_vec.into_iter() {
                 // We're pretty sure we didn't use any features that would require
                 // an owned Cow. In fact, if we're wrong, the whole feature won't
@@ -424,26 +427,34 @@ impl Line {
                     continue;
                 }
                 assert!(start >= cur_end);
-                if start != 0 {
+                if start != seg_start {
                     edit_vec.push(cur_end..start);
                 }
+                row_start = start;
                 cur_end = end;
             }
+            // textwrap doesn't count the whitespace at the end of the last
+            // row. If it doesn't fit, drop it, as we do for the other rows.
+            if textwrap::core::display_width(&self.text[row_start..seg_end])
+                > width
+            {
+                self.replace_range(cur_end..seg_end, "");
+            }
             for range in edit_vec.into_iter().rev() {
-                if range.start > 0
-                    && self.text.as_bytes()[range.start - 1] == b'\n'
-                {
-                    continue;
-                }
-                self.erase_and_insert_newline(range);
+                self.replace_range(range, "\n");
             }
         }
     }
     // Internal use only.
     #[cfg(feature = "wrap")]
-    fn erase_and_insert_newline(&mut self, range: std::ops::Range<usize>) {
-        let delta_bytes = 1 - (range.end as isize - range.start as isize);
-        self.text.replace_range(range.clone(), "\n");
+    fn replace_range(
+        &mut self,
+        range: std::ops::Range<usize>,
+        replacement: &str,
+    ) {
+        let delta_bytes = replacement.len() as isize
+            - (range.end as isize - range.start as isize);
+        self.text.replace_range(range.clone(), replacement);
         let mut elements_len = self.elements.len();
         let mut i = self.elements.len();
         loop {
-- 
2.43.0


From ee36dd7a585b54e20fbcf67d6c71193a1ed10389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 04/48] fix: wrapping text that ends in a hyphen must still
 respect its words

textwrap forgets the last word boundary of such text, so its last two words
were treated as one, which could then be broken in the middle.
---
 src/line.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index d63734c..fd61bcd 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -406,7 +406,12 @@ impl Line {
             }
             let seg_start = start;
             let seg_end = end;
-            let wrap_vec = textwrap::wrap(&self.text[start..end], width);
+            let wrap_vec = textwrap::wrap(
+                &self.text[start..end],
+                textwrap::Options::new(width).word_separator(
+                    textwrap::WordSeparator::Custom(find_words),
+                ),
+            );
             let mut edit_vec = Vec::with_capacity(wrap_vec.len());
             let mut cur_end = start;
             let mut row_start = start;
@@ -491,6 +496,31 @@ impl Line {
     }
 }
 
+/// The words of some text, for wrapping purposes. This is `textwrap`'s default
+/// algorithm, except that that loses the last word boundary of any text that
+/// ends with a hyphen.
+#[cfg(feature = "wrap")]
+fn find_words(
+    text: &str,
+) -> Box<dyn Iterator<Item = textwrap::core::Word<'_>> + '_> {
+    let body = text.trim_end_matches(['-', '\u{AD}']);
+    let mut words: Vec<_> =
+        textwrap::WordSeparator::new().find_words(body).collect();
+    if body.len() < text.len() {
+        // There is never a word boundary just before a hyphen, unless there
+        // is a space there.
+        let start = match words.last() {
+            Some(last) if last.whitespace.is_empty() => {
+                body.len() - last.word.len()
+            }
+            _ => body.len(),
+        };
+        words.truncate(words.len() - (start != body.len()) as usize);
+        words.push(textwrap::core::Word::from(&text[start..]));
+    }
+    Box::new(words.into_iter())
+}
+
 impl Default for Line {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 69c1de3ea4b6701f755c556aff30b9c2dc8d1f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 05/48] fix: wrapping must never prefer an overlong row to a
 short one

With textwrap's default penalties, a word could be left sticking out past the
margin when putting it on the next row would leave a gap of about 50 columns.
---
 src/line.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index fd61bcd..f46d6e2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -406,11 +406,21 @@ impl Line {
             }
             let seg_start = start;
             let seg_end = end;
+            // By default, textwrap will rather overflow a row than leave one
+            // with a large gap. We never want that.
+            let mut penalties = textwrap::wrap_algorithms::Penalties::new();
+            penalties.overflow_penalty = penalties
+                .overflow_penalty
+                .max(width.saturating_mul(width).saturating_mul(4));
             let wrap_vec = textwrap::wrap(
                 &self.text[start..end],
-                textwrap::Options::new(width).word_separator(
-                    textwrap::WordSeparator::Custom(find_words),
-                ),
+                textwrap::Options::new(width)
+                    .word_separator(textwrap::WordSeparator::Custom(
+                        find_words,
+                    ))
+                    .wrap_algorithm(textwrap::WrapAlgorithm::OptimalFit(
+                        penalties,
+                    )),
             );
             let mut edit_vec = Vec::with_capacity(wrap_vec.len());
             let mut cur_end = start;
-- 
2.43.0


From 5e79a091c65a60bddbf73171dbaf59ef8502c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 06/48] fix: endfills_same_as must consider bold and dim

They can change the look of an inverse or underlined blank.
---
 src/line.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index f46d6e2..4be66fa 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -637,8 +637,17 @@ impl LineChar {
         let a_inverse = self.style.contains(Style::INVERSE);
         let b_inverse = other.style.contains(Style::INVERSE);
         if a_inverse != b_inverse {
-            false
-        } else if a_inverse {
+            return false;
+        }
+        // Boldness and dimness can alter the foreground color, which is only
+        // visible in a blank if it's inverted or underlined.
+        let intensity = Style::BOLD | Style::DIM;
+        if (a_inverse || a_underline)
+            && (self.style & intensity) != (other.style & intensity)
+        {
+            return false;
+        }
+        if a_inverse {
             debug_assert!(b_inverse);
             if a_underline && self.bg != other.bg {
                 return false;
-- 
2.43.0


From d4517b1acef756f84085b7e56ba927470b7987e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 07/48] fix: recognize an SGR sequence directly after an
 unrelated escape

---
 src/line/add_ansi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index 277630f..fe83e09 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -22,7 +22,10 @@ impl Line {
                 if ch != '\x1B' {
                     continue;
                 }
-                let Some((_, ch)) = char_indices.next() else {
+                // (leave the next character where it is if it isn't a `[`; it
+                // could itself be an escape)
+                let mut lookahead = char_indices.clone();
+                let Some((_, ch)) = lookahead.next() else {
                     break;
                 };
                 if ch != '[' {
-- 
2.43.0


From da68d64a3b9a5804a477b42d7bb9751916e807ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 08/48] fix: ignore enormous SGR codes instead of treating them
 as a reset

---
 src/line/add_ansi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index fe83e09..8b4da87 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -69,7 +69,11 @@ impl Line {
                 let mut codes = input_line[unescaped_start + param_start
                     ..unescaped_start + param_end]
                     .split(';')
-                    .map(|code| code.parse::<u32>().unwrap_or(0));
+                    .map(|code| match code {
+                        "" => 0,
+                        // (a code too big to parse is an unknown code)
+                        _ => code.parse::<u32>().unwrap_or(u32::MAX),
+                    });
                 while let Some(code) = codes.next() {
                     match code {
                         0 => drop(self.reset_all()),
-- 
2.43.0


From 74cf82375f7733728056f7104a48af46fd506fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 09/48] fix: saving history must work without an existing file,
 and never lose the only copy

The first save of a new history always failed, because there was no old
file to rename. For the same reason, if a save was interrupted right after
the old file was renamed, the next save would delete the backup -- the only
remaining copy of the history -- and then fail.
---
 src/history.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index c2e460a..a865734 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -110,8 +110,8 @@ impl History {
         }?;
         let handler = Box::new(move |history: &History| -> io::Result<()> {
             history.write_history_to(&build_path)?;
-            let _ = remove_file(&backup_path);
-            rename(&history_path, &backup_path)?;
+            // This atomically replaces the old file (if there is one). Until
+            // it succeeds, the old file *and* any backup are left alone.
             rename(&build_path, &history_path)?;
             let _ = remove_file(&backup_path);
             Ok(())
-- 
2.43.0


From 6ab922a736ae734d562dda94563b6f92fd0f610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 10/48] fix: write_history_to must report errors from the final
 flush

---
 src/history.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index a865734..3350fef 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -152,8 +152,8 @@ impl History {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
         }
-        drop(f);
-        Ok(())
+        // Dropping a `BufWriter` ignores errors!
+        f.flush()
     }
     /// Sets the maximum number of lines that will be saved in the history. If
     /// more lines than this are added, the oldest lines will be removed. This
-- 
2.43.0


From eb6703d290807568f0c83d465777afb9b0fde243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:38 +0000
Subject: [PATCH 11/48] fix: autosave the history when it is dropped, as
 documented

---
 src/history.rs | 13 +++++++++++++
 src/lib.rs     |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index 3350fef..ed1d4c1 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -109,6 +109,10 @@ impl History {
             Err(x) => Err(x),
         }?;
         let handler = Box::new(move |history: &History| -> io::Result<()> {
+            if history.lines.is_empty() && !history_path.exists() {
+                // There's nothing to save, and nothing to replace.
+                return Ok(());
+            }
             history.write_history_to(&build_path)?;
             // This atomically replaces the old file (if there is one). Until
             // it succeeds, the old file *and* any backup are left alone.
@@ -245,6 +249,15 @@ impl History {
     }
 }
 
+impl Drop for History {
+    fn drop(&mut self) {
+        if let Some(autosave_handler) = self.autosave_handler.take() {
+            // There's nobody left to report an error to.
+            let _ = (autosave_handler)(self);
+        }
+    }
+}
+
 impl Default for History {
     fn default() -> Self {
         Self::new()
diff --git a/src/lib.rs b/src/lib.rs
index 74cac3a..e77fdde 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -809,6 +809,12 @@ impl Drop for InputOutput {
             *LISO_OUTPUT_TX.lock() = None;
         }
         self.actually_blocking_die();
+        // The Liso thread may hold onto its reference a little longer than we
+        // do, so drop (and thus save) the `History` here and now.
+        #[cfg(feature = "history")]
+        drop(std::mem::take(
+            &mut *self.history.write().unwrap_or_else(|x| x.into_inner()),
+        ));
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
         #[cfg(feature = "capture-stderr")]
-- 
2.43.0


From 71b2caf9dd39f10a48c649767c8f972d3d433a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:16 +0000
Subject: [PATCH 12/48] fix: crossterm set_attrs: reset when the *background*
 color goes away

---
 src/term/cross.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index a94032c..e4bae87 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -290,7 +290,7 @@ impl Term for Crossterminal {
     ) -> LifeOrDeath {
         if self.cur_style != style
             || (self.cur_fg != fg && fg.is_none())
-            || (self.cur_bg != bg && fg.is_none())
+            || (self.cur_bg != bg && bg.is_none())
         {
             queue!(self.stdout, style::SetAttribute(CtAttribute::Reset))?;
             // TODO: check if this is needed
-- 
2.43.0


From 20e20e9484db3d277483db45fb25dbb9cbccc13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:16 +0000
Subject: [PATCH 13/48] fix: show the cursor and input even if nothing was
 rolled out before

Output before the first prompt (or a suspend_and_run when nothing was shown
yet) left the cursor hidden, because nothing had been remembered and so no
rollout was thought to be necessary.
---
 src/worker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 0237cf9..4295aa3 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -602,6 +602,7 @@ impl TtyState {
                 self.term.borrow_mut().suspend()?;
                 wat();
                 self.term.borrow_mut().unsuspend()?;
+                self.rollout_needed = true;
             }
             Request::Status(line) => {
                 if self.status != line {
@@ -1399,7 +1400,8 @@ fn tty_worker(
         input: String::new(),
         input_cursor: 0,
         term: RefCell::new(term),
-        rollout_needed: false,
+        // `Term::new` hid the cursor, so there's something to roll out.
+        rollout_needed: true,
         clipboard: String::new(),
         #[cfg(feature = "history")]
         history,
-- 
2.43.0


From 8c6c46ea1aa220cffe19871cc97fceb20846de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:16 +0000
Subject: [PATCH 14/48] fix: ring the bell right away, even if nothing else
 needs to be output

---
 src/worker.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4295aa3..4ffa482 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -635,7 +635,7 @@ impl TtyState {
                     }
                 }
             }
-            Request::Bell => self.term.borrow_mut().bell()?,
+            Request::Bell => self.ring_bell()?,
             Request::RawInput(input) => {
                 self.handle_input(tx, &input, ded_tx)?
             }
@@ -685,6 +685,12 @@ impl TtyState {
         }
         Ok(())
     }
+    fn ring_bell(&self) -> LifeOrDeath {
+        let mut term = self.term.borrow_mut();
+        term.bell()?;
+        // There may be no rollout to flush it for us!
+        term.flush()
+    }
     fn cursor_on<F>(&self, f: F) -> bool
     where
         F: FnOnce(char) -> bool,
@@ -1179,8 +1185,7 @@ impl TtyState {
         };
         match prev_history_index {
             None => {
-                let mut term = self.term.borrow_mut();
-                term.bell()?;
+                self.ring_bell()?;
             }
             Some(prev_history_index) => {
                 self.rollout_needed = true;
@@ -1204,8 +1209,7 @@ impl TtyState {
         let history = self.history.read().unwrap();
         match self.cur_history_index {
             None => {
-                let mut term = self.term.borrow_mut();
-                term.bell()?;
+                self.ring_bell()?;
             }
             Some(x) if x + 1 == history.get_lines().len() => {
                 assert!(self.orphaned_new_input.is_some());
@@ -1287,7 +1291,7 @@ impl TtyState {
         #[cfg(not(feature = "completion"))]
         {
             // TODO: localized "completion is not supported" message?
-            self.term.borrow_mut().bell()?;
+            self.ring_bell()?;
         }
         Ok(())
     }
-- 
2.43.0


From aa013ed3d6886f436d6a007a3a308e963599a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:16 +0000
Subject: [PATCH 15/48] fix: don't erase the last cell of a filled line of
 output

---
 src/worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4ffa482..30ff475 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -164,9 +164,10 @@ impl TtyState {
         };
         if trailit && cur_column < term_width {
             term.print_spaces((term_width - cur_column) as usize)?;
+            cur_column = term_width;
         }
         term.set_attrs(Style::empty(), None, None)?;
-        if cur_column != term_width {
+        if cur_column < term_width {
             term.clear_to_end_of_line()?;
         }
         term.newline()?;
-- 
2.43.0


From ed038babc666cee80cc59d7f9592c1d9f3a63dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 16/48] fix: a wide character that doesn't fit on a row goes on
 the next one

Instead, it was printed on top of the last column, and everything after it
was out of place.
---
 src/worker.rs | 57 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 30ff475..9685910 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -125,7 +125,11 @@ impl TtyState {
             for (idx, ch) in text.char_indices() {
                 let char_width =
                     UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
-                if (char_width > 0 && cur_column >= term_width) || ch == '\n' {
+                if (char_width > 0
+                    && cur_column > 0
+                    && cur_column + char_width > term_width)
+                    || ch == '\n'
+                {
                     if cur != idx {
                         term.print(&text[cur..idx])?;
                     }
@@ -229,6 +233,27 @@ impl TtyState {
         }
         Ok(())
     }
+    /// Fill the rest of the row with the given attributes (which are already
+    /// active), and begin a new row.
+    fn finish_row(
+        &self,
+        term: &mut RefMut<'_, Box<dyn Term>>,
+        term_width: u32,
+        (style, _, bg): (Style, Option<Color>, Option<Color>),
+        cur_column: u32,
+    ) -> LifeOrDeath {
+        if cur_column < term_width {
+            if style.contains(Style::INVERSE)
+                || style.contains(Style::UNDERLINE)
+                || bg.is_some()
+            {
+                term.print_spaces((term_width - cur_column) as usize)?;
+            } else {
+                term.clear_to_end_of_line()?;
+            }
+        }
+        term.newline()
+    }
     #[allow(clippy::too_many_arguments)]
     fn output_char(
         &self,
@@ -247,25 +272,23 @@ impl TtyState {
         let ch = lc.ch;
         let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
         if ch != '\n' {
+            if *cur_column > 0 && *cur_column + char_width > term_width {
+                // a wide character that doesn't fit on this row
+                self.finish_row(term, term_width, *cur_attr, *cur_column)?;
+                *cur_breaks += 1;
+                *cur_column = 0;
+            }
             term.print_char(ch)?;
             *cur_column += char_width;
-            *implied_newline = false;
+            if char_width > 0 {
+                *implied_newline = false;
+            }
         } else if ch == '\n' && *implied_newline {
             *implied_newline = false;
             return Ok(());
         }
         if (char_width > 0 && *cur_column >= term_width) || ch == '\n' {
-            if *cur_column < term_width {
-                if cur_attr.0.contains(Style::INVERSE)
-                    || cur_attr.0.contains(Style::UNDERLINE)
-                    || cur_attr.2.is_some()
-                {
-                    term.print_spaces((term_width - *cur_column) as usize)?;
-                } else {
-                    term.clear_to_end_of_line()?;
-                }
-            }
-            term.newline()?;
+            self.finish_row(term, term_width, *cur_attr, *cur_column)?;
             *implied_newline = ch != '\n';
             *cur_breaks += 1;
             *cur_column = 0;
@@ -283,8 +306,14 @@ impl TtyState {
         let ch = lc.ch;
         let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
         if ch != '\n' {
+            if *cur_column > 0 && *cur_column + char_width > term_width {
+                *cur_breaks += 1;
+                *cur_column = 0;
+            }
             *cur_column += char_width;
-            *implied_newline = false;
+            if char_width > 0 {
+                *implied_newline = false;
+            }
         } else if ch == '\n' && *implied_newline {
             *implied_newline = false;
             return Ok(());
-- 
2.43.0


From 703da31bb39fdcf613120361c5c72b8d3a3815a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 17/48] fix: prompt changes must always take effect, and reset
 the input cursor

- Clearing the input left the input cursor where it was, and the next key
  would panic.
- If the prompt text was the same as before, `input_allowed` was ignored.
---
 src/worker.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 9685910..4c478b3 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -649,19 +649,21 @@ impl TtyState {
                 clear_input,
             } => {
                 if self.prompt != line
+                    || self.input_allowed != input_allowed
                     || (clear_input && !self.input.is_empty())
                 {
                     self.rollout_needed = true;
-                    self.prompt = line;
-                    self.input_allowed = input_allowed;
-                    if clear_input {
-                        self.input.clear();
-                        #[cfg(feature = "history")]
-                        {
-                            self.cur_history_index = None;
-                            self.orphaned_new_input = None;
-                            self.history_original_line = None;
-                        }
+                }
+                self.prompt = line;
+                self.input_allowed = input_allowed;
+                if clear_input {
+                    self.input.clear();
+                    self.input_cursor = 0;
+                    #[cfg(feature = "history")]
+                    {
+                        self.cur_history_index = None;
+                        self.orphaned_new_input = None;
+                        self.history_original_line = None;
                     }
                 }
             }
-- 
2.43.0


From 3fd263204817444453dd68339a947d5b6ffe2bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 18/48] fix: *any* key dismisses a notice, as documented

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 4c478b3..89a9417 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1004,6 +1004,7 @@ impl TtyState {
             return Ok(());
         }
         for ch in input.chars() {
+            self.dismiss_notice()?;
             #[cfg(feature = "completion")]
             if ch == '\t' {
                 self.consecutive_completion_presses =
@@ -1086,6 +1087,7 @@ impl TtyState {
             Event::Resize(..) => self.rollin()?,
             Event::Mouse(..) => (),
             Event::Key(k) => {
+                self.dismiss_notice()?;
                 use crossterm::event::{KeyCode, KeyModifiers};
                 if k.modifiers.contains(KeyModifiers::CONTROL) {
                     #[cfg(feature = "completion")]
-- 
2.43.0


From e8b26ac107f8188d7ff46ff559982f4e714e6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 19/48] fix: history recall must survive swap_history at any
 moment

A history key handled after the history was swapped, but before BumpHistory,
would index past the end of the new history.
---
 src/worker.rs | 56 ++++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 89a9417..1fbf91a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -686,31 +686,9 @@ impl TtyState {
             Request::Custom(x) => tx.send(Response::Custom(x))?,
             #[cfg(feature = "history")]
             Request::BumpHistory => {
-                if self.cur_history_index.is_some() {
-                    let history = self.history.read().unwrap();
-                    let lines = history.get_lines();
-                    self.cur_history_index = None;
-                    if let Some(history_original_line) =
-                        self.history_original_line.as_ref()
-                    {
-                        for (i, x) in lines.iter().enumerate().rev() {
-                            if x == history_original_line {
-                                self.cur_history_index = Some(i);
-                                break;
-                            }
-                        }
-                    }
-                    match self.cur_history_index {
-                        None => {
-                            self.orphaned_new_input = None;
-                            self.history_original_line = None;
-                        }
-                        Some(x) => {
-                            self.history_original_line =
-                                Some(lines[x].clone());
-                        }
-                    }
-                }
+                let history = self.history.clone();
+                let history = history.read().unwrap();
+                self.find_place_in_history(history.get_lines());
             }
             #[cfg(feature = "completion")]
             Request::SetCompletor(completor) => self.completor = completor,
@@ -1209,9 +1187,31 @@ impl TtyState {
         ded_tx.send(deadline)?;
         Ok(())
     }
+    /// Called when the history may have been changed out from under us. Try
+    /// to find the same line again.
+    #[cfg(feature = "history")]
+    fn find_place_in_history(&mut self, lines: &[String]) {
+        let Some(index) = self.cur_history_index else {
+            return;
+        };
+        let original_line = self.history_original_line.as_ref();
+        if lines.get(index) == original_line {
+            return;
+        }
+        self.cur_history_index =
+            lines.iter().rposition(|x| Some(x) == original_line);
+        if self.cur_history_index.is_none() {
+            self.orphaned_new_input = None;
+            self.history_original_line = None;
+        }
+    }
     #[cfg(feature = "history")]
     fn history_prev(&mut self) -> LifeOrDeath {
-        let history = self.history.read().unwrap();
+        let history = self.history.clone();
+        let history = history.read().unwrap();
+        // the history may have been swapped already, even if we haven't
+        // gotten around to the BumpHistory request yet
+        self.find_place_in_history(history.get_lines());
         let prev_history_index = match self.cur_history_index {
             None => history.get_lines().len().checked_sub(1),
             Some(x) if x > 0 => Some(x - 1),
@@ -1240,7 +1240,9 @@ impl TtyState {
     }
     #[cfg(feature = "history")]
     fn history_next(&mut self) -> LifeOrDeath {
-        let history = self.history.read().unwrap();
+        let history = self.history.clone();
+        let history = history.read().unwrap();
+        self.find_place_in_history(history.get_lines());
         match self.cur_history_index {
             None => {
                 self.ring_bell()?;
-- 
2.43.0


From 3609c3c07603d27d25f14daafc963dbb567a5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:09 +0000
Subject: [PATCH 20/48] fix: redraw everything after a character that changes
 width

If a character was replaced by one with a different width, any following
characters that happened to be the same were left where they were.
---
 src/worker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 1fbf91a..25b3f7e 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -407,7 +407,11 @@ impl TtyState {
                         cur_column,
                         cur_breaks,
                     )?;
-                    if (a.ch == '\n') != (b.ch == '\n') {
+                    if (a.ch == '\n') != (b.ch == '\n')
+                        || UnicodeWidthChar::width(a.ch)
+                            != UnicodeWidthChar::width(b.ch)
+                    {
+                        // Whatever follows may no longer be in the same place.
                         // Simpler at this point just to clear everything.
                         term.clear_forward_and_reset()?;
                         cur_attr = (Style::empty(), None, None);
-- 
2.43.0


From 5569f5169ec74bf925cb0d3b754826646a630314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 21/48] fix: redo (or erase) the fill at the end of the input
 line when it changes

Whether the fill was redundant was decided by the last character that
differed, instead of by the attributes the line used to (and now does) end
with.
---
 src/worker.rs | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 25b3f7e..6ea8e91 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -371,7 +371,7 @@ impl TtyState {
         let mut cur_attr = (Style::empty(), None, None);
         let mut cur_column = 0;
         let mut cur_breaks = 0;
-        let mut endfill_redundant = false;
+        let mut cleared = false;
         let mut output_cursor_top = None;
         let mut output_cursor_left = None;
         let mut implied_newline = false;
@@ -416,6 +416,7 @@ impl TtyState {
                         term.clear_forward_and_reset()?;
                         cur_attr = (Style::empty(), None, None);
                         old_chars = None;
+                        cleared = true;
                     }
                     self.output_char(
                         &mut term,
@@ -428,7 +429,6 @@ impl TtyState {
                     )?;
                     real_column = cur_column;
                     real_breaks = cur_breaks;
-                    endfill_redundant = a.endfills_same_as(&b);
                 }
                 (None, Some(b)) => {
                     self.maybe_report(
@@ -459,7 +459,6 @@ impl TtyState {
                     )?;
                     real_column = cur_column;
                     real_breaks = cur_breaks;
-                    endfill_redundant = false;
                     break false;
                 }
                 (a, None) => {
@@ -492,7 +491,7 @@ impl TtyState {
                         } else {
                             term.clear_forward_and_reset()?;
                         }
-                        endfill_redundant = false;
+                        cleared = true;
                     }
                     break a.is_none();
                 }
@@ -538,9 +537,26 @@ impl TtyState {
             &mut output_cursor_top,
             term_width,
         );
-        if !ended_simultaneously || !endfill_redundant {
+        // What the end of the line is filled with depends only on the last
+        // element. If it's the same as it was, in the same place, and we
+        // haven't erased it, then there's nothing to do.
+        let old_last = self
+            .remembered_output
+            .as_ref()
+            .and_then(|x| x.output_line.elements.last());
+        let new_last = new_line.elements.last();
+        let endfill_redundant = ended_simultaneously
+            && !cleared
+            && match (old_last, new_last) {
+                (None, None) => true,
+                (Some(a), Some(b)) => {
+                    (a.style, a.fg, a.bg) == (b.style, b.fg, b.bg)
+                }
+                _ => false,
+            };
+        if !endfill_redundant {
             let trailit = endfill
-                && match new_line.elements.last() {
+                && match new_last {
                     None => false,
                     Some(el) => {
                         el.style.contains(Style::INVERSE)
@@ -548,6 +564,19 @@ impl TtyState {
                             || el.bg.is_some()
                     }
                 };
+            if !trailit && !cleared && cur_column < term_width {
+                // erase the old fill, if any
+                self.reconcile_cursors(
+                    &mut term,
+                    term_width,
+                    &mut real_column,
+                    &mut real_breaks,
+                    cur_column,
+                    cur_breaks,
+                )?;
+                term.set_attrs(Style::empty(), None, None)?;
+                term.clear_to_end_of_line()?;
+            }
             if trailit && cur_column < term_width {
                 self.reconcile_cursors(
                     &mut term,
-- 
2.43.0


From 60a26d4002aaff4a8267293f92021dfd1d512ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:23 +0000
Subject: [PATCH 22/48] fix: put the cursor in the right place when the input
 contains control characters

---
 src/worker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 6ea8e91..dbb2d54 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1402,8 +1402,11 @@ impl TtyState {
             if let Some(line) = self.prompt.as_ref() {
                 new_output.append_line(line);
             }
-            cursor_pos = Some(self.input_cursor + new_output.len());
-            new_output.add_text(&self.input);
+            // control characters (from history or completion) get expanded,
+            // so we can't just add `input_cursor`
+            new_output.add_text(&self.input[..self.input_cursor]);
+            cursor_pos = Some(new_output.len());
+            new_output.add_text(&self.input[self.input_cursor..]);
         }
         self.term.borrow_mut().hide_cursor()?;
         self.output_line_changes(&new_output, cursor_pos, false, true)?;
-- 
2.43.0


From 6e5e4b817765c7900dcfb18c4a14db0c548eafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 23/48] fix: erase the last row of the input area if scrolling
 colored it

On terminals with background color erase, a newline at the bottom of the
screen fills the new row with the current background color.
---
 src/worker.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index dbb2d54..1a1ed8c 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -564,8 +564,10 @@ impl TtyState {
                             || el.bg.is_some()
                     }
                 };
-            if !trailit && !cleared && cur_column < term_width {
-                // erase the old fill, if any
+            if !trailit && cur_column < term_width {
+                // Erase the old fill, if any. (Even if we just cleared this
+                // row, if we scrolled, then some terminals will have filled
+                // it with the background color again.)
                 self.reconcile_cursors(
                     &mut term,
                     term_width,
-- 
2.43.0


From 3bfb62c447b189aea5fb7dc2387b4b1d604806e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 24/48] fix: the heartbeat thread must survive the first
 notice's expiration

After the first notice expired, the heartbeat thread ended, so requesting
another notice would kill Liso. Also, a short notice after a long one would
stay until the long one's deadline.
---
 src/worker.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 1a1ed8c..46ec93e 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1438,30 +1438,22 @@ fn tty_worker(
     std::thread::Builder::new()
         .name("Liso heartbeat thread".to_owned())
         .spawn(move || {
-            let mut deadlines = Vec::with_capacity(4);
-            loop {
-                if deadlines.is_empty() {
-                    match ded_rx.recv() {
-                        Ok(x) => deadlines.push(x),
-                        Err(_) => break,
-                    };
-                } else {
+            // There's only one notice at a time, so only the newest deadline
+            // matters.
+            use std::sync::mpsc::RecvTimeoutError;
+            while let Ok(mut deadline) = ded_rx.recv() {
+                loop {
                     let now = Instant::now();
-                    if !deadlines.is_empty() && now >= deadlines[0] {
-                        deadlines.remove(0);
-                        match req_tx_clone.send(Request::Heartbeat) {
-                            Ok(_) => break,
-                            Err(_) => return,
+                    if now >= deadline {
+                        if req_tx_clone.send(Request::Heartbeat).is_err() {
+                            return;
                         }
+                        break;
                     }
-                    if !deadlines.is_empty() {
-                        use std::sync::mpsc::RecvTimeoutError;
-                        let interval = deadlines[0] - now;
-                        match ded_rx.recv_timeout(interval) {
-                            Ok(x) => deadlines.push(x),
-                            Err(RecvTimeoutError::Timeout) => (),
-                            Err(RecvTimeoutError::Disconnected) => return,
-                        }
+                    match ded_rx.recv_timeout(deadline - now) {
+                        Ok(x) => deadline = x,
+                        Err(RecvTimeoutError::Timeout) => (),
+                        Err(RecvTimeoutError::Disconnected) => return,
                     }
                 }
             }
-- 
2.43.0


From 29bc02e784684792b799cedcb27b35405131c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:24 +0000
Subject: [PATCH 25/48] fix: very long notice durations must not overflow and
 kill Liso

---
 src/worker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 46ec93e..94d6d17 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1217,7 +1217,11 @@ impl TtyState {
         ded_tx: &mut std_mpsc::SyncSender<Instant>,
     ) -> LifeOrDeath {
         self.rollout_needed = true;
-        let deadline = Instant::now() + duration;
+        let now = Instant::now();
+        // If that's too long to be represented, a century should do.
+        let deadline = now.checked_add(duration).unwrap_or_else(|| {
+            now + Duration::from_secs(100 * 365 * 24 * 60 * 60)
+        });
         self.notice = Some((line, deadline));
         ded_tx.send(deadline)?;
         Ok(())
-- 
2.43.0


From ba603266100d3dfb68549fbe955950a03ce5ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:13 +0000
Subject: [PATCH 26/48] fix: malformed UTF-8 input must neither crash Liso nor
 hold up later input

---
 src/term/cross.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index e4bae87..9da7c07 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -143,12 +143,11 @@ fn input_thread(
                     start += 1;
                     continue;
                 };
-                if (buf.len() - start) < num_bytes_needed {
-                    // Read more data before sending this along
-                    break;
-                }
-                let mut code = (b & (0b1111111 >> num_bytes_needed)) as u32;
                 for i in 1..num_bytes_needed {
+                    if start + i >= buf.len() {
+                        // Read more data before sending this along
+                        break 'processing;
+                    }
                     if buf[start + i] < 0x80 || buf[start + i] >= 0xC0 {
                         start += i;
                         // send the replacement character
@@ -162,12 +161,15 @@ fn input_thread(
                         req_tx.send(Request::CrosstermEvent(event))?;
                         continue 'processing;
                     }
-                    code = (code << 6) | (buf[start + i] & 0x3F) as u32;
                 }
+                // send the decoded character (or, for overlong forms,
+                // surrogates, and the like, the replacement character)
+                let ch =
+                    std::str::from_utf8(&buf[start..start + num_bytes_needed])
+                        .ok()
+                        .and_then(|x| x.chars().next())
+                        .unwrap_or('\u{fffd}');
                 start += num_bytes_needed;
-                // send the decoded character
-                let code = if code > 0x10FFFF { 0xFFFD } else { code };
-                let ch = char::from_u32(code).unwrap();
                 let event = KeyEvent {
                     code: event::KeyCode::Char(ch),
                     modifiers: event::KeyModifiers::empty(),
-- 
2.43.0


From 2ec67431a68392196050fc3c3fa2a992c0da93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 27/48] fix: report Dead when the terminal hangs up, and
 survive control-D while suspended

---
 src/lib.rs        |  6 +++++-
 src/term/cross.rs | 31 ++++++++++++++++++++++---------
 src/term/vt52.rs  | 35 ++++++++++++++++++++++++-----------
 src/unix_util.rs  | 20 ++++++++++++++++++++
 src/worker.rs     | 23 +++++++++++++++++------
 5 files changed, 88 insertions(+), 27 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e77fdde..7a53d73 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,11 +157,15 @@ pub use completion::*;
 mod stderr_capture;
 
 #[cfg(unix)]
-use unix_util::InterruptibleStdinThread;
+use unix_util::{stdin_has_ended, InterruptibleStdinThread};
 
 #[cfg(not(unix))]
 pub(crate) struct InterruptibleStdinThread;
 #[cfg(not(unix))]
+pub(crate) fn stdin_has_ended() -> bool {
+    true
+}
+#[cfg(not(unix))]
 impl InterruptibleStdinThread {
     pub fn new(
         _join_handle: std::thread::JoinHandle<()>,
diff --git a/src/term/cross.rs b/src/term/cross.rs
index 9da7c07..a961e73 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -244,7 +244,9 @@ impl Crossterminal {
             std::thread::Builder::new()
                 .name("Liso input processing thread".to_owned())
                 .spawn(move || {
-                    let _ = input_thread(input_rx, req_tx);
+                    let _ = input_thread(input_rx, req_tx.clone());
+                    // no more input, we've been hung up on
+                    let _ = req_tx.send(Request::Die);
                 })
                 .unwrap();
             std::thread::Builder::new()
@@ -258,6 +260,11 @@ impl Crossterminal {
                             Err(x) if x.kind() == ErrorKind::Interrupted => {
                                 continue
                             } // as though nothing happened
+                            Ok(0) if !stdin_has_ended() => {
+                                // control-D, typed in cooked mode
+                                buf[0] = 4;
+                                1
+                            }
                             Ok(0) | Err(_) => break,
                             Ok(x) => x,
                         };
@@ -455,30 +462,36 @@ impl Term for Crossterminal {
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        queue!(
+        // Even if we've been hung up on, do as much of this as we can.
+        let queued = queue!(
             self.stdout,
             cursor::Show,
             terminal::EnableLineWrap,
             style::ResetColor,
             style::SetAttribute(CtAttribute::Reset),
             terminal::Clear(terminal::ClearType::FromCursorDown)
-        )?;
-        terminal::disable_raw_mode()?;
+        );
+        let disabled = terminal::disable_raw_mode();
         self.cur_style = Style::PLAIN;
         self.cur_fg = None;
         self.cur_bg = None;
-        self.stdout.flush()?;
+        let flushed = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
         self.suspended = true;
+        queued?;
+        disabled?;
+        flushed?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let result = if !self.suspended {
+            self.suspend()
+        } else {
+            Ok(())
+        };
         self.input_thread.interrupt();
-        Ok(())
+        result
     }
 }
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b9fdfbf..d295d39 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -145,6 +145,11 @@ impl Vt52 {
                         Err(x) if x.kind() == ErrorKind::Interrupted => {
                             continue
                         } // as though nothing happened
+                        Ok(0) if !stdin_has_ended() => {
+                            // control-D, typed in cooked mode
+                            buf[0] = 4;
+                            1
+                        }
                         Ok(0) | Err(_) => break,
                         Ok(x) => x,
                     };
@@ -157,7 +162,9 @@ impl Vt52 {
         let input_thread = std::thread::Builder::new()
             .name("Liso input processing thread".to_owned())
             .spawn(move || {
-                let _ = input_thread(input_rx, req_tx);
+                let _ = input_thread(input_rx, req_tx.clone());
+                // no more input, we've been hung up on
+                let _ = req_tx.send(Request::Die);
             })
             .unwrap();
         let stdout = std::io::stdout();
@@ -404,24 +411,30 @@ impl Term for Vt52 {
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        if self.white_on_black {
-            write!(self.stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")?;
+        // Even if we've been hung up on, do as much of this as we can.
+        let written = if self.white_on_black {
+            write!(self.stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")
         } else {
-            write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")?;
-        }
-        self.stdout.flush()?;
+            write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")
+        };
+        let flushed = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
-        terminal::disable_raw_mode()?;
+        let disabled = terminal::disable_raw_mode();
         self.suspended = true;
+        written?;
+        flushed?;
+        disabled?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let result = if !self.suspended {
+            self.suspend()
+        } else {
+            Ok(())
+        };
         self.input_thread.interrupt();
-        Ok(())
+        result
     }
 }
diff --git a/src/unix_util.rs b/src/unix_util.rs
index 3a70842..87f455b 100644
--- a/src/unix_util.rs
+++ b/src/unix_util.rs
@@ -6,7 +6,9 @@ use std::{
     thread::JoinHandle,
 };
 
+use crossterm::tty::IsTty;
 use nix::{
+    libc,
     sys::{
         pthread::pthread_kill,
         signal::{
@@ -16,6 +18,24 @@ use nix::{
     unistd::{close, dup, dup2, pipe},
 };
 
+/// Called when a read from stdin returned zero bytes. If that's because a
+/// control-D was typed while the terminal was in cooked mode (which happens
+/// when we're suspended), more input may follow, and this returns `false`. If
+/// we've been hung up on, or it isn't a terminal to begin with, this returns
+/// `true`.
+pub(crate) fn stdin_has_ended() -> bool {
+    if !std::io::stdin().is_tty() {
+        return true;
+    }
+    let mut fd = libc::pollfd {
+        fd: 0,
+        events: libc::POLLIN,
+        revents: 0,
+    };
+    let hangup = libc::POLLHUP | libc::POLLERR | libc::POLLNVAL;
+    unsafe { libc::poll(&mut fd, 1, 0) > 0 && fd.revents & hangup != 0 }
+}
+
 pub(crate) fn sigstop_ourselves() {
     let _ = raise(Signal::SIGSTOP);
 }
diff --git a/src/worker.rs b/src/worker.rs
index 94d6d17..c3269c6 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1492,6 +1492,21 @@ fn tty_worker(
         #[cfg(feature = "completion")]
         own_output: Output { tx: req_tx },
     };
+    // No matter how this ends, we have to clean up after ourselves.
+    let result = tty_loop(&mut state, &rx, &mut tx, &mut ded_tx);
+    let result = result.and_then(|_| state.rollin());
+    let result = state.cleanup().and(result);
+    crossterm::terminal::disable_raw_mode()?;
+    drop(rx);
+    result
+}
+
+fn tty_loop(
+    state: &mut TtyState,
+    rx: &std_mpsc::Receiver<Request>,
+    tx: &mut tokio_mpsc::UnboundedSender<Response>,
+    ded_tx: &mut std_mpsc::SyncSender<Instant>,
+) -> LifeOrDeath {
     let mut dying = false;
     'outer: while let Some(request) = if dying {
         rx.try_recv().ok()
@@ -1501,7 +1516,7 @@ fn tty_worker(
         if let Request::Die = request {
             break;
         }
-        state.handle(&mut tx, &mut ded_tx, request)?;
+        state.handle(tx, ded_tx, request)?;
         loop {
             use std_mpsc::TryRecvError;
             match rx.try_recv() {
@@ -1513,17 +1528,13 @@ fn tty_worker(
                         break;
                     }
                 }
-                Ok(request) => state.handle(&mut tx, &mut ded_tx, request)?,
+                Ok(request) => state.handle(tx, ded_tx, request)?,
                 Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => break 'outer,
             }
         }
         state.rollout()?;
     }
-    state.rollin()?;
-    state.cleanup()?;
-    crossterm::terminal::disable_raw_mode()?;
-    drop(rx);
     Ok(())
 }
 
-- 
2.43.0


From 6a2dfc5618ca9f2ffdca2bca3d189de5b532d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 28/48] fix: clean up the terminal even if the Liso thread
 itself panics

---
 src/worker.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index c3269c6..29dc1b5 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -8,6 +8,7 @@ use std::{
     cell::{RefCell, RefMut},
     io::BufRead,
     mem::swap,
+    panic::{self, AssertUnwindSafe},
     time::Instant,
 };
 
@@ -1493,8 +1494,15 @@ fn tty_worker(
         own_output: Output { tx: req_tx },
     };
     // No matter how this ends, we have to clean up after ourselves.
-    let result = tty_loop(&mut state, &rx, &mut tx, &mut ded_tx);
-    let result = result.and_then(|_| state.rollin());
+    let result = panic::catch_unwind(AssertUnwindSafe(|| {
+        tty_loop(&mut state, &rx, &mut tx, &mut ded_tx)
+    }));
+    let result = match result {
+        Ok(Ok(())) => state.rollin(),
+        Ok(x) => x,
+        // (don't roll in, that would erase the panic message)
+        Err(_) => Err(DummyError {}),
+    };
     let result = state.cleanup().and(result);
     crossterm::terminal::disable_raw_mode()?;
     drop(rx);
-- 
2.43.0


From ca400a80cd608546cd53f1fabc29943acfe757a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:24 +0000
Subject: [PATCH 29/48] fix: pipe mode must report the end of input once,
 accept any bytes, and suspend_and_run

---
 src/lib.rs    |  2 ++
 src/worker.rs | 54 ++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7a53d73..cf60881 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -460,6 +460,8 @@ enum Request {
     /// out. (The pipe worker doesn't interpret escape sequences and therefore
     /// does no such processing.)
     RawInput(String),
+    /// Sent when the pipe worker reaches the end of its input.
+    EndOfInput,
     /// Used to implement notices.
     Heartbeat,
     /// If the crossterm event system is being used, this is an event received.
diff --git a/src/worker.rs b/src/worker.rs
index 29dc1b5..6159ea6 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -6,7 +6,7 @@ use super::*;
 
 use std::{
     cell::{RefCell, RefMut},
-    io::BufRead,
+    io::{BufRead, Write},
     mem::swap,
     panic::{self, AssertUnwindSafe},
     time::Instant,
@@ -27,48 +27,68 @@ fn pipe_worker(
             .name("Liso input thread".to_owned())
             .spawn(move || {
                 let stdin = std::io::stdin();
+                let stdin_is_tty = stdin.is_tty();
                 let mut stdin = stdin.lock();
                 loop {
-                    let mut buf = String::new();
-                    match stdin.read_line(&mut buf) {
-                        Ok(_) => {
-                            while buf.ends_with('\n') || buf.ends_with('\r') {
-                                buf.pop();
+                    let mut buf = Vec::new();
+                    match stdin.read_until(b'\n', &mut buf) {
+                        Ok(x) if x > 0 => {
+                            let buf = String::from_utf8_lossy(&buf);
+                            let line = buf.trim_end_matches(['\n', '\r']);
+                            let request = Request::RawInput(line.to_owned());
+                            if req_tx.send(request).is_err() {
+                                break;
+                            }
+                        }
+                        _ => {
+                            if req_tx.send(Request::EndOfInput).is_err() {
+                                break;
                             }
-                            if req_tx.send(Request::RawInput(buf)).is_err() {
+                            if stdin_has_ended() {
+                                if stdin_is_tty {
+                                    // we've been hung up on
+                                    let _ = req_tx.send(Request::Die);
+                                }
                                 break;
                             }
+                            // it was only a control-D, so keep reading
                         }
-                        Err(_) => break,
                     }
                 }
             })
             .unwrap(),
     );
+    let result = pipe_loop(&rx, &tx);
+    input_thread.interrupt();
+    result
+}
+
+fn pipe_loop(
+    rx: &std_mpsc::Receiver<Request>,
+    tx: &tokio_mpsc::UnboundedSender<Response>,
+) -> LifeOrDeath {
+    let mut stdout = std::io::stdout();
     while let Ok(request) = rx.recv() {
         match request {
             #[cfg(feature = "wrap")]
             Request::Output(line) | Request::OutputWrapped(line) => {
-                std::println!("{}", line.text);
+                writeln!(stdout, "{}", line.text)?;
             }
             #[cfg(not(feature = "wrap"))]
             Request::Output(line) => {
-                std::println!("{}", line.text);
+                writeln!(stdout, "{}", line.text)?;
             }
             // stderr will not be captured if the pipe worker is being used.
             #[cfg(feature = "capture-stderr")]
             Request::StderrLine(_) => unreachable!(),
-            Request::RawInput(x) => {
-                if tx.send(Response::Input(x)).is_err() {
-                    break;
-                }
-            }
+            Request::RawInput(x) => tx.send(Response::Input(x))?,
+            Request::EndOfInput => tx.send(Response::Finish)?,
+            Request::SuspendAndRun(mut wat) => wat(),
             Request::Die => break,
             Request::Custom(x) => tx.send(Response::Custom(x))?,
             _ => (),
         }
     }
-    input_thread.interrupt();
     Ok(())
 }
 
@@ -710,6 +730,8 @@ impl TtyState {
             Request::CrosstermEvent(event) => {
                 self.handle_event(tx, event, ded_tx)?
             }
+            // Only the pipe worker's input thread sends this.
+            Request::EndOfInput => (),
             Request::Die => return Ok(()),
             Request::Heartbeat => {
                 if let Some((_, deadline)) = self.notice {
-- 
2.43.0


From 784436286d912150921f466d6b165d85a0a753b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:25 +0000
Subject: [PATCH 30/48] fix: another InputOutput must not be creatable until
 the old one is gone

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cf60881..d340200 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -810,11 +810,13 @@ impl Output {
 
 impl Drop for InputOutput {
     fn drop(&mut self) {
+        self.actually_blocking_die();
+        // (not until now, or another `InputOutput` could be created while
+        // we're still shutting down)
         #[cfg(feature = "global")]
         {
             *LISO_OUTPUT_TX.lock() = None;
         }
-        self.actually_blocking_die();
         // The Liso thread may hold onto its reference a little longer than we
         // do, so drop (and thus save) the `History` here and now.
         #[cfg(feature = "history")]
-- 
2.43.0


From 86ee757a5429c9f52a988a2389cca1c0e5c8404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:25 +0000
Subject: [PATCH 31/48] fix: stderr capture must not look for newlines in stale
 data

---
 src/stderr_capture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index fe8ad84..33692f9 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -217,7 +217,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
                 Ok(x) => {
                     let mut last_newline_pos = None;
                     let end_pos = buf_pos + x;
-                    while let Some(p) = buf[buf_pos..]
+                    while let Some(p) = buf[buf_pos..end_pos]
                         .iter()
                         .position(|x| *x == b'\n')
                         .map(|x| x + buf_pos)
-- 
2.43.0


From e26b5a92a877ebf0d6cd077be9679ff2f93f8bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 32/48] fix: VT52: discard non-ASCII input bytes instead of
 looping forever

---
 src/term/vt52.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index d295d39..7acd511 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -85,6 +85,7 @@ fn input_thread(
             } else if buf[start] >= 0x80 {
                 // We have to discard the meta bytes we receive
                 // TODO: are these sent sometimes?
+                start += 1;
             } else {
                 let mut text_end = start + 1;
                 while text_end < buf.len()
-- 
2.43.0


From 2fc95139cb6d63370cae353266b975936593cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 33/48] fix: VT52: input placeholders must be as wide as the
 character

---
 src/term/vt52.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 7acd511..aa3d5d0 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -283,7 +283,10 @@ impl Term for Vt52 {
     }
     fn print_char(&mut self, ch: char) -> LifeOrDeath {
         if ch >= '\u{0080}' {
-            self.stdout.write_all(b"\x7F")?;
+            let width = UnicodeWidthChar::width(ch).unwrap_or(0);
+            for _ in 0..width {
+                self.stdout.write_all(b"\x7F")?;
+            }
         } else {
             self.stdout.write_all(&[ch as u8])?;
         }
-- 
2.43.0


From 80a4ceb2f0647dc65e33a12cab2d702b27f9e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 34/48] fix: VT52: interrupt the right thread when shutting
 down

---
 src/term/vt52.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index aa3d5d0..a52a362 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -136,6 +136,14 @@ impl Vt52 {
         };
         let (input_tx, input_rx) = std_mpsc::sync_channel(1);
         std::thread::Builder::new()
+            .name("Liso input processing thread".to_owned())
+            .spawn(move || {
+                let _ = input_thread(input_rx, req_tx.clone());
+                // no more input, we've been hung up on
+                let _ = req_tx.send(Request::Die);
+            })
+            .unwrap();
+        let input_thread = std::thread::Builder::new()
             .name("Liso raw stdin thread".to_owned())
             .spawn(move || {
                 let stdin = std::io::stdin();
@@ -160,14 +168,6 @@ impl Vt52 {
                 }
             })
             .unwrap();
-        let input_thread = std::thread::Builder::new()
-            .name("Liso input processing thread".to_owned())
-            .spawn(move || {
-                let _ = input_thread(input_rx, req_tx.clone());
-                // no more input, we've been hung up on
-                let _ = req_tx.send(Request::Die);
-            })
-            .unwrap();
         let stdout = std::io::stdout();
         let mut ret = Vt52 {
             stdout,
-- 
2.43.0


From fdce5ad11dcc47fa5415209bb278cf596b371441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:04 +0000
Subject: [PATCH 35/48] fix: VT52: keep track of the colors we start with

---
 src/term/vt52.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index a52a362..ee23843 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -174,7 +174,8 @@ impl Vt52 {
             old_hook: None,
             suspended: true,
             cur_style: Style::PLAIN,
-            cur_fg: num_colors - 1,
+            // (`unsuspend` will set these)
+            cur_fg: 15,
             cur_bg: 0,
             num_colors,
             white_on_black,
@@ -388,10 +389,15 @@ impl Term for Vt52 {
         if self.white_on_black {
             self.stdout
                 .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x20\x1Bc\x2F")?;
+            self.cur_fg = 0;
+            self.cur_bg = 15;
         } else {
             self.stdout
                 .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
+            self.cur_fg = 15;
+            self.cur_bg = 0;
         }
+        self.cur_style = Style::PLAIN;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
-- 
2.43.0


From 2872054578a76235b2091ef04fc1ec47b2fcb8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:05 +0000
Subject: [PATCH 36/48] fix: VT52: don't output ANSI escape sequences when
 panicking

---
 src/term/vt52.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index ee23843..59eb879 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -184,6 +184,15 @@ impl Vt52 {
         ret.unsuspend()?;
         Ok(ret)
     }
+    /// Resets the colors, clears everything below the cursor, turns line wrap
+    /// on, and shows the cursor.
+    fn reset_sequence(&self) -> &'static [u8] {
+        if self.white_on_black {
+            b"\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be"
+        } else {
+            b"\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be"
+        }
+    }
 }
 
 impl Term for Vt52 {
@@ -400,16 +409,10 @@ impl Term for Vt52 {
         self.cur_style = Style::PLAIN;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
+        let reset_sequence = self.reset_sequence();
         panic::set_hook(Box::new(move |info| {
             let mut stdout = std::io::stdout();
-            let _ = queue!(
-                stdout,
-                cursor::Show,
-                terminal::EnableLineWrap,
-                style::ResetColor,
-                style::SetAttribute(CtAttribute::Reset),
-                terminal::Clear(terminal::ClearType::FromCursorDown)
-            );
+            let _ = stdout.write_all(reset_sequence);
             let _ = stdout.flush();
             let _ = terminal::disable_raw_mode();
             default_hook(info)
@@ -422,11 +425,7 @@ impl Term for Vt52 {
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
         // Even if we've been hung up on, do as much of this as we can.
-        let written = if self.white_on_black {
-            write!(self.stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")
-        } else {
-            write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")
-        };
+        let written = self.stdout.write_all(self.reset_sequence());
         let flushed = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
-- 
2.43.0


From dc43c14c40d7273bfb6d298c94dd0e90be6d091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:36 +0000
Subject: [PATCH 37/48] fix: shutting down after Dead must not count as another
 Dead

---
 src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d340200..35be254 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -910,11 +910,8 @@ impl InputOutput {
             // already dead!
             return;
         }
-        loop {
-            if let Response::Dead = self.read_async().await {
-                break;
-            }
-        }
+        // (not `read_async`, we don't want to count our own death)
+        while self.rx.recv().await.is_some() {}
     }
     fn actually_blocking_die(&mut self) {
         if self.output.tx.send(Request::Die).is_err() {
@@ -922,10 +919,13 @@ impl InputOutput {
             return;
         }
         loop {
-            match self.try_read() {
-                None => std::thread::yield_now(),
-                Some(Response::Dead) => break,
-                _ => (),
+            // (not `try_read`, we don't want to count our own death)
+            match self.rx.try_recv() {
+                Err(tokio_mpsc::error::TryRecvError::Empty) => {
+                    std::thread::yield_now()
+                }
+                Err(tokio_mpsc::error::TryRecvError::Disconnected) => break,
+                Ok(_) => (),
             }
         }
     }
-- 
2.43.0


From 66c942704615a12f6610a7ed9e819546eb7368d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:52 +0000
Subject: [PATCH 38/48] fix: don't erase panic messages

---
 src/lib.rs        |  1 -
 src/term.rs       |  4 ++++
 src/term/cross.rs |  3 +++
 src/term/vt52.rs  |  3 +++
 src/worker.rs     | 10 ++++++++++
 5 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 35be254..717ae76 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,7 +119,6 @@ use std::{
     time::{Duration, Instant},
 };
 
-#[cfg(not(feature = "global"))]
 use std::sync::atomic::{AtomicBool, Ordering};
 
 #[cfg(feature = "history")]
diff --git a/src/term.rs b/src/term.rs
index 00345e3..7ecc2da 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -7,6 +7,10 @@ use cross::Crossterminal;
 mod vt52;
 use vt52::Vt52;
 
+/// Set by our panic hooks. Once a panic message has been output to the terminal,
+/// the cursor isn't where we left it.
+pub(crate) static PANICKED: AtomicBool = AtomicBool::new(false);
+
 /// A wrapper for a particular terminal engine, supporting input and output.
 ///
 /// We always use `crossterm` for enabling/disabling raw mode and for detecting
diff --git a/src/term/cross.rs b/src/term/cross.rs
index a961e73..2437b62 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -453,6 +453,9 @@ impl Term for Crossterminal {
             );
             let _ = stdout.flush();
             let _ = terminal::disable_raw_mode();
+            if tty::IsTty::is_tty(&std::io::stderr()) {
+                PANICKED.store(true, Ordering::Relaxed);
+            }
             default_hook(info)
         }));
         terminal::enable_raw_mode()?;
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 59eb879..7dc3faf 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -415,6 +415,9 @@ impl Term for Vt52 {
             let _ = stdout.write_all(reset_sequence);
             let _ = stdout.flush();
             let _ = terminal::disable_raw_mode();
+            if tty::IsTty::is_tty(&std::io::stderr()) {
+                PANICKED.store(true, Ordering::Relaxed);
+            }
             default_hook(info)
         }));
         terminal::enable_raw_mode()?;
diff --git a/src/worker.rs b/src/worker.rs
index 6159ea6..bb4da86 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -369,6 +369,7 @@ impl TtyState {
         if break_after {
             debug_assert!(endfill);
         }
+        self.forget_output_if_panicked();
         let mut real_column;
         let mut real_breaks;
         if let Some(rem) = self.remembered_output.as_ref() {
@@ -1393,7 +1394,16 @@ impl TtyState {
         }
         Ok(())
     }
+    /// If a panic message has been output since we last looked, don't touch
+    /// what's above the cursor anymore.
+    fn forget_output_if_panicked(&mut self) {
+        if PANICKED.swap(false, Ordering::Relaxed) {
+            self.remembered_output = None;
+            self.rollout_needed = true;
+        }
+    }
     pub fn rollin(&mut self) -> LifeOrDeath {
+        self.forget_output_if_panicked();
         if let Some(rem) = self.remembered_output.take() {
             self.rollout_needed = true;
             let mut term = self.term.borrow_mut();
-- 
2.43.0


From fb57ad7d0f95c050b1b949f0354038aba98be0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:09 +0000
Subject: [PATCH 39/48] fix: stderr capture: don't close stderr when the
 capture ends

Until the capture thread put the original stderr back in its place, any
file opened by another thread became stderr (and was then closed by the
capture thread), and whatever was written to stderr was lost.
---
 src/stderr_capture.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 33692f9..a9f6631 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -11,7 +11,13 @@ use libc::c_int;
 use parking_lot::Mutex;
 
 const STDERR_FD: c_int = 2;
-static STDERR_CAPTURE_THREAD: Mutex<Option<JoinHandle<()>>> = Mutex::new(None);
+static STDERR_CAPTURE: Mutex<Option<Capture>> = Mutex::new(None);
+
+struct Capture {
+    thread: JoinHandle<()>,
+    /// a duplicate of the original stderr
+    real_stderr: c_int,
+}
 
 fn pipe() -> Result<(c_int, c_int), c_int> {
     #[cfg(any(target_family = "windows", target_family = "unix"))]
@@ -152,7 +158,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     let mut lock;
     loop {
         wait_until_not_captured();
-        lock = STDERR_CAPTURE_THREAD.lock();
+        lock = STDERR_CAPTURE.lock();
         match lock.as_ref() {
             None => break,
             Some(_) => continue,
@@ -191,7 +197,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         return;
     }
     close(w); // it is now staying alive as STDERR_FD
-    *lock = Some(std::thread::spawn(move || {
+    let thread = std::thread::spawn(move || {
         let mut buf = vec![0u8; 128];
         let mut buf_pos = 0;
         'outer: loop {
@@ -280,7 +286,6 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         // sent "successfully" were lost. Oh well.
         dup2(real_stderr, STDERR_FD)
             .expect("Unable to reduplicate stderr back into place!");
-        close(real_stderr);
         // Any remaining output waiting in the pipe, process.
         while let Ok(amount) = read(r, &mut buf[..]) {
             if amount == 0 {
@@ -289,14 +294,22 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
             let _ = write_all(STDERR_FD, &buf[..amount]);
         }
         close(r);
-    }));
+    });
+    *lock = Some(Capture {
+        thread,
+        real_stderr,
+    });
 }
 
 pub(crate) fn wait_until_not_captured() {
-    let mut lock = STDERR_CAPTURE_THREAD.lock();
+    let mut lock = STDERR_CAPTURE.lock();
     if let Some(x) = lock.take() {
-        close(STDERR_FD); // :(
-        let _ = x.join();
+        // The capture thread will find that its pipe has ended. (Don't just
+        // close stderr, not even for a moment: the next file that's opened by
+        // another thread would become stderr.)
+        let _ = dup2(x.real_stderr, STDERR_FD);
+        let _ = x.thread.join();
+        close(x.real_stderr);
     }
     // Do not drop the lock until here! Nobody else should be allowed to
     // think they can join before us!
-- 
2.43.0


From 804fb0799c85a86909fccd5bf1a020ac8721a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:48 +0000
Subject: [PATCH 40/48] fix: stderr capture: don't lose what's written just
 before the end

Lines which had been captured, but not output when the Liso thread was
told to stop, were silently lost.
---
 src/stderr_capture.rs |  3 ---
 src/worker.rs         | 24 +++++++++++++++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index a9f6631..92eba86 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -281,9 +281,6 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         // Small possibility that some bytes will be mixed up if a lot of
         // stderr output is happening at once. Oh well. That's an unavoidable
         // cost of your program bypassing the "so" part of "liso".
-        //
-        // There's also a small possibility that one or more StderrLines we
-        // sent "successfully" were lost. Oh well.
         dup2(real_stderr, STDERR_FD)
             .expect("Unable to reduplicate stderr back into place!");
         // Any remaining output waiting in the pipe, process.
diff --git a/src/worker.rs b/src/worker.rs
index bb4da86..74e1b0e 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1527,7 +1527,18 @@ fn tty_worker(
     };
     // No matter how this ends, we have to clean up after ourselves.
     let result = panic::catch_unwind(AssertUnwindSafe(|| {
-        tty_loop(&mut state, &rx, &mut tx, &mut ded_tx)
+        tty_loop(&mut state, &rx, &mut tx, &mut ded_tx)?;
+        // Everything that was written to stderr until now gets output.
+        #[cfg(feature = "capture-stderr")]
+        {
+            stderr_capture::wait_until_not_captured();
+            for request in rx.try_iter() {
+                if let Request::StderrLine(_) = request {
+                    state.handle(&mut tx, &mut ded_tx, request)?;
+                }
+            }
+        }
+        Ok(())
     }));
     let result = match result {
         Ok(Ok(())) => state.rollin(),
@@ -1537,6 +1548,17 @@ fn tty_worker(
     };
     let result = state.cleanup().and(result);
     crossterm::terminal::disable_raw_mode()?;
+    // If we couldn't output all captured lines (and maybe one of them is our
+    // own panic message), put them where they would've gone without us.
+    #[cfg(feature = "capture-stderr")]
+    {
+        stderr_capture::wait_until_not_captured();
+        for request in rx.try_iter() {
+            if let Request::StderrLine(text) = request {
+                let _ = writeln!(std::io::stderr(), "{}", text);
+            }
+        }
+    }
     drop(rx);
     result
 }
-- 
2.43.0


From ef395a74a3188ca2005a8a1b0ded6de89d1c4c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:48 +0000
Subject: [PATCH 41/48] fix: stderr capture: don't wait for child processes
 when shutting down

If a child process had inherited the captured stderr, dropping the
InputOutput hung until that process ended.
---
 src/stderr_capture.rs | 86 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 80 insertions(+), 6 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 92eba86..2a941d4 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -17,6 +17,8 @@ struct Capture {
     thread: JoinHandle<()>,
     /// a duplicate of the original stderr
     real_stderr: c_int,
+    /// a pipe; writing to it tells the capture thread not to wait any longer
+    stop: (c_int, c_int),
 }
 
 fn pipe() -> Result<(c_int, c_int), c_int> {
@@ -123,6 +125,27 @@ fn read(fd: c_int, buf: &mut [u8]) -> Result<usize, c_int> {
     return Err(libc::ENOSYS);
 }
 
+/// Wait until there's something to read (or the end of it). Returns false if
+/// there isn't, and we've been told via `stop` not to wait for more.
+fn wait_for_data(_fd: c_int, _stop: c_int) -> bool {
+    #[cfg(target_family = "unix")]
+    loop {
+        let pollfd = |fd| libc::pollfd {
+            fd,
+            events: libc::POLLIN,
+            revents: 0,
+        };
+        let mut fds = [pollfd(_fd), pollfd(_stop)];
+        let result = unsafe { libc::poll(fds.as_mut_ptr(), 2, -1) };
+        if result < 0 && errno::errno().0 == libc::EINTR {
+            continue;
+        }
+        return result < 0 || fds[0].revents != 0;
+    }
+    #[allow(unreachable_code)]
+    return true;
+}
+
 fn write_all(fd: c_int, mut buf: &[u8]) -> Result<(), c_int> {
     #[cfg(any(target_family = "windows", target_family = "unix"))]
     while !buf.is_empty() {
@@ -177,9 +200,25 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
             return;
         }
     };
+    let (stop_r, stop_w) = match pipe() {
+        Ok(x) => x,
+        Err(x) => {
+            close(r);
+            close(w);
+            let _ = output.tx.send(crate::Request::StderrLine(format!(
+                "pipe() returned error {:?} when attempting to capture stderr.",
+                x
+            )));
+            return;
+        }
+    };
     let real_stderr = match dup(STDERR_FD) {
         Ok(x) => x,
         Err(x) => {
+            close(r);
+            close(w);
+            close(stop_r);
+            close(stop_w);
             let _ = output.tx.send(crate::Request::StderrLine(format!(
                 "dup(STDERR_FD) returned error {:?} when attempting to capture stderr.",
                 x
@@ -190,6 +229,9 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     if let Err(x) = dup2(w, STDERR_FD) {
         close(r);
         close(w);
+        close(stop_r);
+        close(stop_w);
+        close(real_stderr);
         let _ = output.tx.send(crate::Request::StderrLine(format!(
             "dup2() returned error {:?} when attempting to capture stderr.",
             x
@@ -204,7 +246,11 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
             if buf_pos == buf.len() {
                 buf.resize(buf.len() + 128, 0u8);
             }
-            match read(r, &mut buf[buf_pos..]) {
+            let result = match wait_for_data(r, stop_r) {
+                true => read(r, &mut buf[buf_pos..]),
+                false => Ok(0),
+            };
+            match result {
                 Ok(0) => {
                     // stderr ended?!
                     if buf_pos > 0 {
@@ -284,17 +330,42 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         dup2(real_stderr, STDERR_FD)
             .expect("Unable to reduplicate stderr back into place!");
         // Any remaining output waiting in the pipe, process.
-        while let Ok(amount) = read(r, &mut buf[..]) {
-            if amount == 0 {
-                break;
+        let mut ended = false;
+        while !ended && wait_for_data(r, stop_r) {
+            match read(r, &mut buf[..]) {
+                Ok(amount) if amount > 0 => {
+                    let _ = write_all(STDERR_FD, &buf[..amount]);
+                }
+                _ => ended = true,
+            }
+        }
+        match dup(real_stderr) {
+            Ok(real_stderr) if !ended => {
+                // The pipe is also the stderr of child processes which are
+                // still running. Don't make anybody wait for them.
+                std::thread::spawn(move || {
+                    while let Ok(amount) = read(r, &mut buf[..]) {
+                        if amount == 0 {
+                            break;
+                        }
+                        let _ = write_all(real_stderr, &buf[..amount]);
+                    }
+                    close(r);
+                    close(real_stderr);
+                });
+            }
+            x => {
+                close(r);
+                if let Ok(real_stderr) = x {
+                    close(real_stderr);
+                }
             }
-            let _ = write_all(STDERR_FD, &buf[..amount]);
         }
-        close(r);
     });
     *lock = Some(Capture {
         thread,
         real_stderr,
+        stop: (stop_r, stop_w),
     });
 }
 
@@ -305,7 +376,10 @@ pub(crate) fn wait_until_not_captured() {
         // close stderr, not even for a moment: the next file that's opened by
         // another thread would become stderr.)
         let _ = dup2(x.real_stderr, STDERR_FD);
+        let _ = write_all(x.stop.1, &[0]);
         let _ = x.thread.join();
+        close(x.stop.0);
+        close(x.stop.1);
         close(x.real_stderr);
     }
     // Do not drop the lock until here! Nobody else should be allowed to
-- 
2.43.0


From c226a0099b93b4035b435fff013abc592d0d0620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:24 +0000
Subject: [PATCH 42/48] fix: stderr capture: don't end the next InputOutput's
 capture

Dropping an InputOutput could put an end to the stderr capture of the
next one, if that was created by another thread meanwhile.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 717ae76..ff9b8e1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -810,6 +810,8 @@ impl Output {
 impl Drop for InputOutput {
     fn drop(&mut self) {
         self.actually_blocking_die();
+        #[cfg(feature = "capture-stderr")]
+        stderr_capture::wait_until_not_captured();
         // (not until now, or another `InputOutput` could be created while
         // we're still shutting down)
         #[cfg(feature = "global")]
@@ -824,8 +826,6 @@ impl Drop for InputOutput {
         ));
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
-        #[cfg(feature = "capture-stderr")]
-        stderr_capture::wait_until_not_captured();
     }
 }
 
-- 
2.43.0


From 361a9c152629f7951b0ea9c6d7aca626cda2c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:33 +0000
Subject: [PATCH 43/48] fix: assume 80 columns if the terminal doesn't know its
 size

Terminals at the other end of a serial line, and pseudo-terminals nobody has
told a size, report a width of zero. That made the output thread panic (or, in
release builds, draw garbage).
---
 src/term.rs       | 9 +++++++++
 src/term/cross.rs | 2 +-
 src/term/vt52.rs  | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/term.rs b/src/term.rs
index 7ecc2da..dc48385 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -50,6 +50,15 @@ pub(crate) trait Term {
     fn cleanup(&mut self) -> LifeOrDeath;
 }
 
+/// How wide the terminal is. If we can't find out, or it says it doesn't know
+/// (as when it's at the other end of a serial line), assume 80 columns.
+fn terminal_width() -> u32 {
+    match crossterm::terminal::size() {
+        Ok((width, _)) if width > 0 => width as u32,
+        _ => 80,
+    }
+}
+
 pub(crate) fn new_term(
     req_tx: &std_mpsc::Sender<Request>,
 ) -> Result<Box<dyn Term>, DummyError> {
diff --git a/src/term/cross.rs b/src/term/cross.rs
index 2437b62..d8d414f 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -423,7 +423,7 @@ impl Term for Crossterminal {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        terminal_width()
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 7dc3faf..ab4b762 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -386,7 +386,7 @@ impl Term for Vt52 {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        terminal_width()
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
-- 
2.43.0


From 8f55d8557c6e34c3cd9967c06516412de0b924db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 44/48] fix: with LISO_CROSSTERM_INPUT on UNIX, shutting down
 hung

---
 src/term/cross.rs | 56 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index d8d414f..800cf25 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -3,6 +3,7 @@ use super::*;
 use std::{
     io::{ErrorKind, Write},
     panic,
+    sync::Arc,
 };
 
 use crossterm::{event::KeyEvent, style::Colors, *};
@@ -17,9 +18,25 @@ pub(crate) struct Crossterminal {
     cur_style: Style,
     cur_fg: Option<Color>,
     cur_bg: Option<Color>,
-    input_thread: InterruptibleStdinThread,
+    input_thread: InputThread,
 }
 
+/// The thread that reads our input.
+enum InputThread {
+    /// We read it ourselves.
+    Raw(InterruptibleStdinThread),
+    /// `crossterm` reads it. Interrupting this thread wouldn't help, because
+    /// `crossterm` would just try again.
+    Crossterm {
+        join_handle: std::thread::JoinHandle<()>,
+        stop: Arc<AtomicBool>,
+    },
+}
+
+/// How often the thread that reads input through `crossterm` checks whether it
+/// should stop.
+const CROSSTERM_POLL_INTERVAL: Duration = Duration::from_millis(100);
+
 fn parse_csi_sequence(
     seq: &[u8],
     req_tx: &mut std_mpsc::Sender<Request>,
@@ -228,17 +245,28 @@ impl Crossterminal {
             }
         };
         let input_thread = if crossterm_input {
-            std::thread::Builder::new()
+            let stop = Arc::new(AtomicBool::new(false));
+            let stop_clone = stop.clone();
+            let join_handle = std::thread::Builder::new()
                 .name("Liso input thread".to_owned())
                 .spawn(move || {
-                    while let Ok(event) = crossterm::event::read() {
+                    while !stop_clone.load(Ordering::Relaxed) {
+                        match crossterm::event::poll(CROSSTERM_POLL_INTERVAL) {
+                            Ok(true) => (),
+                            Ok(false) => continue,
+                            Err(_) => break,
+                        }
+                        let Ok(event) = crossterm::event::read() else {
+                            break;
+                        };
                         if req_tx.send(Request::CrosstermEvent(event)).is_err()
                         {
                             break;
                         }
                     }
                 })
-                .unwrap()
+                .unwrap();
+            InputThread::Crossterm { join_handle, stop }
         } else {
             let (input_tx, input_rx) = std_mpsc::sync_channel(1);
             std::thread::Builder::new()
@@ -249,7 +277,7 @@ impl Crossterminal {
                     let _ = req_tx.send(Request::Die);
                 })
                 .unwrap();
-            std::thread::Builder::new()
+            let join_handle = std::thread::Builder::new()
                 .name("Liso raw stdin thread".to_owned())
                 .spawn(move || {
                     let stdin = std::io::stdin();
@@ -273,7 +301,8 @@ impl Crossterminal {
                         }
                     }
                 })
-                .unwrap()
+                .unwrap();
+            InputThread::Raw(InterruptibleStdinThread::new(join_handle))
         };
         let stdout = std::io::stdout();
         let mut ret = Crossterminal {
@@ -283,7 +312,7 @@ impl Crossterminal {
             cur_style: Style::PLAIN,
             cur_fg: None,
             cur_bg: None,
-            input_thread: InterruptibleStdinThread::new(input_thread),
+            input_thread,
         };
         ret.unsuspend()?;
         Ok(ret)
@@ -494,7 +523,18 @@ impl Term for Crossterminal {
         } else {
             Ok(())
         };
-        self.input_thread.interrupt();
+        match &mut self.input_thread {
+            InputThread::Raw(thread) => thread.interrupt(),
+            InputThread::Crossterm { join_handle, stop } => {
+                stop.store(true, Ordering::Relaxed);
+                // Don't wait forever. If only part of a multi-byte sequence has
+                // been typed, `crossterm` won't return until the rest has.
+                let deadline = Instant::now() + CROSSTERM_POLL_INTERVAL * 5;
+                while !join_handle.is_finished() && Instant::now() < deadline {
+                    std::thread::sleep(Duration::from_millis(1));
+                }
+            }
+        }
         result
     }
 }
-- 
2.43.0


From 39945f6902cfd959338d65536f328e0d69090825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 45/48] fix: releasing a key was handled like pressing it, if
 reported

---
 src/worker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 74e1b0e..03ecb36 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1120,12 +1120,15 @@ impl TtyState {
         if !self.input_allowed {
             return Ok(());
         }
+        use crossterm::event::{KeyCode, KeyEventKind, KeyModifiers};
         match event {
             Event::Resize(..) => self.rollin()?,
             Event::Mouse(..) => (),
+            // We only care about keys being pressed, not about their release
+            // (which is always reported on Windows)
+            Event::Key(k) if k.kind == KeyEventKind::Release => (),
             Event::Key(k) => {
                 self.dismiss_notice()?;
-                use crossterm::event::{KeyCode, KeyModifiers};
                 if k.modifiers.contains(KeyModifiers::CONTROL) {
                     #[cfg(feature = "completion")]
                     if k.code == KeyCode::Char('i') {
-- 
2.43.0


From d4ccb900f743f5fbcee6755b55efd68a08dc9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 46/48] fix: a bracketed paste, read by crossterm, caused a
 panic

---
 src/worker.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 03ecb36..a5d2cf1 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1231,9 +1231,8 @@ impl TtyState {
                 }
             }
             Event::FocusGained | Event::FocusLost => (),
-            Event::Paste(_) => {
-                unreachable!("we don't turn bracketed paste on so we should never get this event")
-            }
+            // We don't turn bracketed paste on, but somebody else may have.
+            Event::Paste(text) => self.handle_input(tx, &text, ded_tx)?,
         }
         Ok(())
     }
-- 
2.43.0


From 316596ae83a6481a57a19cd858830f6e85528f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 47/48] fix: control-\, control-H and some others, read by
 crossterm, were not recognized

---
 src/worker.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index a5d2cf1..6f05a2a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1176,8 +1176,11 @@ impl TtyState {
                         #[cfg(unix)]
                         // Control-Z
                         KeyCode::Char('z') => self.handle_suspend()?,
-                        // Break (control-backslash)
-                        KeyCode::Char('\\') => {
+                        // Backspace
+                        KeyCode::Char('h') => self.handle_delete_back()?,
+                        // Break (control-backslash, which crossterm calls
+                        // control-4 on UNIX)
+                        KeyCode::Char('\\') | KeyCode::Char('4') => {
                             tx.send(Response::Break)?;
                         }
                         // Control-I (Tab)
@@ -1186,7 +1189,12 @@ impl TtyState {
                         KeyCode::Char('j') | KeyCode::Char('m') => {
                             self.handle_return(tx, ded_tx)?
                         }
-                        // Unknown control character
+                        // Unknown control character (again, crossterm has its
+                        // own names for some of them)
+                        KeyCode::Char(' ') => tx.send(Response::Unknown(0))?,
+                        KeyCode::Char(x @ '5'..='7') => {
+                            tx.send(Response::Unknown(x as u8 - b'5' + 0x1D))?;
+                        }
                         KeyCode::Char(x) => {
                             if ('\u{0040}'..='\u{007e}').contains(&x) {
                                 tx.send(Response::Unknown((x as u8) & 0x1F))?;
-- 
2.43.0


From 4cea2e76069055aa9a719685e485c8107f6b0d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:04 +0000
Subject: [PATCH 48/48] fix: a history whose first line begins with U+FEFF must
 survive being reloaded

---
 src/history.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index ed1d4c1..a61f3ae 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -152,6 +152,10 @@ impl History {
     /// `from_file`, that's up to you to build *using* this function.
     pub fn write_history_to<P: AsRef<Path>>(&self, path: P) -> io::Result<()> {
         let mut f = BufWriter::new(File::create(path)?);
+        if self.lines.first().map_or(false, |x| x.starts_with('\u{FEFF}')) {
+            // So that the one that is part of the line will survive reading.
+            f.write_all("\u{FEFF}".as_bytes())?;
+        }
         for line in self.lines.iter() {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
-- 
2.43.0

