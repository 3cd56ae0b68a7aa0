From 35d063b1119e575bdb0e4adbb992f7d2d4d53d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 01/39] fix: reset attributes when the background color goes
 away

set_attrs looked at the foreground instead, so text after a colored
background kept that background as long as it had a foreground color.
---
 src/term/cross.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index a94032c..e4bae87 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -290,7 +290,7 @@ impl Term for Crossterminal {
     ) -> LifeOrDeath {
         if self.cur_style != style
             || (self.cur_fg != fg && fg.is_none())
-            || (self.cur_bg != bg && fg.is_none())
+            || (self.cur_bg != bg && bg.is_none())
         {
             queue!(self.stdout, style::SetAttribute(CtAttribute::Reset))?;
             // TODO: check if this is needed
-- 
2.43.0


From eeb7f08ce917e9918cb5a4fcd90d63200c202e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 02/39] fix: apply all of a prompt request

input_allowed was ignored if the prompt text stayed the same, and
clearing the input left the cursor where it was, beyond the end of the
now empty input, so that the next key made the output thread panic.
---
 src/worker.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 0237cf9..040431c 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -617,20 +617,23 @@ impl TtyState {
                 input_allowed,
                 clear_input,
             } => {
-                if self.prompt != line
-                    || (clear_input && !self.input.is_empty())
+                if self.prompt != line || self.input_allowed != input_allowed
                 {
                     self.rollout_needed = true;
                     self.prompt = line;
                     self.input_allowed = input_allowed;
-                    if clear_input {
+                }
+                if clear_input {
+                    if !self.input.is_empty() {
+                        self.rollout_needed = true;
                         self.input.clear();
-                        #[cfg(feature = "history")]
-                        {
-                            self.cur_history_index = None;
-                            self.orphaned_new_input = None;
-                            self.history_original_line = None;
-                        }
+                    }
+                    self.input_cursor = 0;
+                    #[cfg(feature = "history")]
+                    {
+                        self.cur_history_index = None;
+                        self.orphaned_new_input = None;
+                        self.history_original_line = None;
                     }
                 }
             }
-- 
2.43.0


From 4512f545f0fe387989688551628efd45d77f0ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 03/39] fix: ring the bell right away

The bell was queued but not flushed, so it only rang along with the next
change of the display.
---
 src/term/cross.rs | 1 +
 src/term/vt52.rs  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index e4bae87..cf1bcfb 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -373,6 +373,7 @@ impl Term for Crossterminal {
     }
     fn bell(&mut self) -> LifeOrDeath {
         queue!(self.stdout, style::Print("\u{0007}"))?;
+        self.stdout.flush()?;
         Ok(())
     }
     fn clear_all_and_reset(&mut self) -> LifeOrDeath {
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b9fdfbf..1d6ae02 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -324,6 +324,7 @@ impl Term for Vt52 {
     }
     fn bell(&mut self) -> LifeOrDeath {
         write!(self.stdout, "\x07")?;
+        self.stdout.flush()?;
         Ok(())
     }
     fn clear_all_and_reset(&mut self) -> LifeOrDeath {
-- 
2.43.0


From 6b471c81723a7a55767e8af21f958f5c7000690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 04/39] fix: let every key dismiss a notice

Keys that only send a response (control-C, control-T, escape, ...),
history keys and tab left the notice in place.
---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 040431c..e20b696 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -968,6 +968,7 @@ impl TtyState {
             return Ok(());
         }
         for ch in input.chars() {
+            self.dismiss_notice()?;
             #[cfg(feature = "completion")]
             if ch == '\t' {
                 self.consecutive_completion_presses =
@@ -1051,6 +1052,7 @@ impl TtyState {
             Event::Mouse(..) => (),
             Event::Key(k) => {
                 use crossterm::event::{KeyCode, KeyModifiers};
+                self.dismiss_notice()?;
                 if k.modifiers.contains(KeyModifiers::CONTROL) {
                     #[cfg(feature = "completion")]
                     if k.code == KeyCode::Char('i') {
-- 
2.43.0


From 59b179cb51482ea5a5d1a18fc1ad7d4ff624d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 05/39] fix: keep the heartbeat thread alive after a notice has
 expired

It ended after the first expiry, and the next notice then killed the
output thread. It also waited for deadlines in order of arrival, so that
a short notice after a long one was not removed in time.
---
 src/worker.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index e20b696..805a264 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1364,28 +1364,27 @@ fn tty_worker(
     std::thread::Builder::new()
         .name("Liso heartbeat thread".to_owned())
         .spawn(move || {
-            let mut deadlines = Vec::with_capacity(4);
+            use std::sync::mpsc::RecvTimeoutError;
+            // Only the newest notice is ever displayed, so its deadline is
+            // the only one that matters.
+            let mut deadline: Option<Instant> = None;
             loop {
-                if deadlines.is_empty() {
-                    match ded_rx.recv() {
-                        Ok(x) => deadlines.push(x),
-                        Err(_) => break,
-                    };
-                } else {
-                    let now = Instant::now();
-                    if !deadlines.is_empty() && now >= deadlines[0] {
-                        deadlines.remove(0);
-                        match req_tx_clone.send(Request::Heartbeat) {
-                            Ok(_) => break,
-                            Err(_) => return,
-                        }
-                    }
-                    if !deadlines.is_empty() {
-                        use std::sync::mpsc::RecvTimeoutError;
-                        let interval = deadlines[0] - now;
+                deadline = match deadline {
+                    None => match ded_rx.recv() {
+                        Ok(x) => Some(x),
+                        Err(_) => return,
+                    },
+                    Some(x) => {
+                        let interval =
+                            x.saturating_duration_since(Instant::now());
                         match ded_rx.recv_timeout(interval) {
-                            Ok(x) => deadlines.push(x),
-                            Err(RecvTimeoutError::Timeout) => (),
+                            Ok(x) => Some(x),
+                            Err(RecvTimeoutError::Timeout) => {
+                                match req_tx_clone.send(Request::Heartbeat) {
+                                    Ok(_) => None,
+                                    Err(_) => return,
+                                }
+                            }
                             Err(RecvTimeoutError::Disconnected) => return,
                         }
                     }
-- 
2.43.0


From 6a0f3f7dcf223772e2c10501f611447c094956cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 06/39] fix: accept any notice duration

Adding a very long duration such as Duration::MAX to the current time
made the output thread panic.
---
 src/worker.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 805a264..dd3e2d9 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -71,6 +71,10 @@ fn pipe_worker(
     Ok(())
 }
 
+/// How long a notice is displayed if the deadline can't be represented.
+const MAX_NOTICE_DURATION: Duration =
+    Duration::from_secs(60 * 60 * 24 * 365 * 100);
+
 #[derive(Debug)]
 struct RememberedOutput {
     output_line: Line,
@@ -1168,7 +1172,11 @@ impl TtyState {
         ded_tx: &mut std_mpsc::SyncSender<Instant>,
     ) -> LifeOrDeath {
         self.rollout_needed = true;
-        let deadline = Instant::now() + duration;
+        // (an absurdly long duration must not overflow)
+        let now = Instant::now();
+        let deadline = now
+            .checked_add(duration)
+            .unwrap_or_else(|| now + MAX_NOTICE_DURATION);
         self.notice = Some((line, deadline));
         ded_tx.send(deadline)?;
         Ok(())
-- 
2.43.0


From 291273f082f8233a1c4964f823ce7d6ae6e27f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 07/39] fix: don't trust an index into a history that has been
 swapped

Between swap_history and the BumpHistory request that it sends, the
output thread could use an index beyond the end of the new history, and
panic.
---
 src/worker.rs | 68 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index dd3e2d9..4603dee 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -661,29 +661,9 @@ impl TtyState {
             #[cfg(feature = "history")]
             Request::BumpHistory => {
                 if self.cur_history_index.is_some() {
-                    let history = self.history.read().unwrap();
-                    let lines = history.get_lines();
-                    self.cur_history_index = None;
-                    if let Some(history_original_line) =
-                        self.history_original_line.as_ref()
-                    {
-                        for (i, x) in lines.iter().enumerate().rev() {
-                            if x == history_original_line {
-                                self.cur_history_index = Some(i);
-                                break;
-                            }
-                        }
-                    }
-                    match self.cur_history_index {
-                        None => {
-                            self.orphaned_new_input = None;
-                            self.history_original_line = None;
-                        }
-                        Some(x) => {
-                            self.history_original_line =
-                                Some(lines[x].clone());
-                        }
-                    }
+                    let history = self.history.clone();
+                    let history = history.read().unwrap();
+                    self.find_place_in_history(history.get_lines());
                 }
             }
             #[cfg(feature = "completion")]
@@ -1181,9 +1161,45 @@ impl TtyState {
         ded_tx.send(deadline)?;
         Ok(())
     }
+    /// Find the historical line being edited in a changed `History`.
+    #[cfg(feature = "history")]
+    fn find_place_in_history(&mut self, lines: &[String]) {
+        self.cur_history_index = None;
+        if let Some(history_original_line) =
+            self.history_original_line.as_ref()
+        {
+            for (i, x) in lines.iter().enumerate().rev() {
+                if x == history_original_line {
+                    self.cur_history_index = Some(i);
+                    break;
+                }
+            }
+        }
+        match self.cur_history_index {
+            None => {
+                self.orphaned_new_input = None;
+                self.history_original_line = None;
+            }
+            Some(x) => {
+                self.history_original_line = Some(lines[x].clone());
+            }
+        }
+    }
+    /// If the `History` has been swapped, but the `BumpHistory` request hasn't
+    /// reached us yet, do now what it is going to make us do.
+    #[cfg(feature = "history")]
+    fn notice_swapped_history(&mut self, lines: &[String]) {
+        if let Some(i) = self.cur_history_index {
+            if lines.get(i) != self.history_original_line.as_ref() {
+                self.find_place_in_history(lines);
+            }
+        }
+    }
     #[cfg(feature = "history")]
     fn history_prev(&mut self) -> LifeOrDeath {
-        let history = self.history.read().unwrap();
+        let history = self.history.clone();
+        let history = history.read().unwrap();
+        self.notice_swapped_history(history.get_lines());
         let prev_history_index = match self.cur_history_index {
             None => history.get_lines().len().checked_sub(1),
             Some(x) if x > 0 => Some(x - 1),
@@ -1213,7 +1229,9 @@ impl TtyState {
     }
     #[cfg(feature = "history")]
     fn history_next(&mut self) -> LifeOrDeath {
-        let history = self.history.read().unwrap();
+        let history = self.history.clone();
+        let history = history.read().unwrap();
+        self.notice_swapped_history(history.get_lines());
         match self.cur_history_index {
             None => {
                 let mut term = self.term.borrow_mut();
-- 
2.43.0


From 87a96f4bfb46c589af35998c6ac048b2bf0cd780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 08/39] fix: report errors from the last write of the history

Dropping the BufWriter swallowed them, and the truncated file then
replaced the complete one.
---
 src/history.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index c2e460a..1483354 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -152,8 +152,7 @@ impl History {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
         }
-        drop(f);
-        Ok(())
+        f.flush()
     }
     /// Sets the maximum number of lines that will be saved in the history. If
     /// more lines than this are added, the oldest lines will be removed. This
-- 
2.43.0


From 2235b7b8b8b4f18677e2b9f718283d8ccc320528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 09/39] fix: save the history atomically, also the first time

Saving failed if the file didn't exist yet. If only the backup existed,
after an interrupted save, the next save deleted it before anything else
and then failed, so that everything was lost.
---
 src/history.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1483354..ca9e525 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -110,9 +110,10 @@ impl History {
         }?;
         let handler = Box::new(move |history: &History| -> io::Result<()> {
             history.write_history_to(&build_path)?;
-            let _ = remove_file(&backup_path);
-            rename(&history_path, &backup_path)?;
+            // This atomically replaces the old file, if any.
             rename(&build_path, &history_path)?;
+            // (There might be a backup from an interrupted save by an older
+            // version.)
             let _ = remove_file(&backup_path);
             Ok(())
         });
-- 
2.43.0


From d2a7f52ecf4662bb01c002d788b8e40a0e18f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 10/39] fix: autosave the history when it is dropped

This was documented, and is the default, but wasn't done.
---
 src/history.rs | 16 ++++++++++++++++
 src/worker.rs  |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index ca9e525..f25893d 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -19,6 +19,8 @@ pub struct History {
     autosave_handler: Option<Box<AutosaveHandlerFn>>,
     autosave_interval: Option<NonZeroUsize>,
     lines_since_last_autosave: usize,
+    /// Whether lines have been added since the last successful autosave.
+    unsaved: bool,
 }
 
 pub type AutosaveHandlerFn = dyn Fn(&History) -> io::Result<()> + Send + Sync;
@@ -40,6 +42,7 @@ impl History {
             autosave_handler: None,
             autosave_interval: None,
             lines_since_last_autosave: 0,
+            unsaved: false,
         }
     }
     /// Create a new History by reading the given file, with default options.
@@ -227,6 +230,7 @@ impl History {
             }
         }
         self.lines.push(line);
+        self.unsaved = true;
         if let Some(interval) = self.autosave_interval {
             self.lines_since_last_autosave += 1;
             if self.lines_since_last_autosave >= interval.get() {
@@ -234,6 +238,7 @@ impl History {
                 if let Some(autosave_handler) = self.autosave_handler.as_ref()
                 {
                     (autosave_handler)(self)?;
+                    self.unsaved = false;
                 }
             }
         }
@@ -245,6 +250,17 @@ impl History {
     }
 }
 
+impl Drop for History {
+    fn drop(&mut self) {
+        if self.unsaved {
+            if let Some(autosave_handler) = self.autosave_handler.as_ref() {
+                // there is nobody to report an error to
+                let _ = (autosave_handler)(self);
+            }
+        }
+    }
+}
+
 impl Default for History {
     fn default() -> Self {
         Self::new()
diff --git a/src/worker.rs b/src/worker.rs
index 4603dee..4790d94 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1496,6 +1496,9 @@ pub(crate) fn worker(
             std::env::var("TERM").as_ref().ok().map(String::as_str),
         )
     {
+        // (nobody but the `InputOutput` needs it in pipe mode)
+        #[cfg(feature = "history")]
+        drop(history);
         pipe_worker(req_tx, rx, tx)
     } else {
         #[cfg(feature = "capture-stderr")]
-- 
2.43.0


From e37db67cd7e317e4692413f23d30d10e2ff28e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 11/39] fix: break rows before a double-width character that
 doesn't fit

With one column left, it was put over the right margin, which displaced
everything after it.
---
 src/worker.rs | 60 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4790d94..2198ef5 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -83,6 +83,12 @@ struct RememberedOutput {
     cursor_left: u32,
 }
 
+/// Returns true if the given character doesn't fit on the current row anymore.
+fn needs_wrap(ch: char, cur_column: u32, term_width: u32) -> bool {
+    let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
+    char_width > 0 && cur_column > 0 && cur_column + char_width > term_width
+}
+
 struct TtyState {
     status: Option<Line>,
     prompt: Option<Line>,
@@ -129,7 +135,7 @@ impl TtyState {
             for (idx, ch) in text.char_indices() {
                 let char_width =
                     UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
-                if (char_width > 0 && cur_column >= term_width) || ch == '\n' {
+                if needs_wrap(ch, cur_column, term_width) || ch == '\n' {
                     if cur != idx {
                         term.print(&text[cur..idx])?;
                     }
@@ -180,6 +186,7 @@ impl TtyState {
     fn maybe_report(
         &self,
         index: usize,
+        ch: Option<char>,
         cur_column: u32,
         cur_breaks: u32,
         cursor_pos: Option<usize>,
@@ -189,7 +196,11 @@ impl TtyState {
     ) {
         if let Some(cursor_pos) = cursor_pos {
             if index == cursor_pos {
-                if cur_column >= term_width {
+                if ch.map_or(false, |ch| needs_wrap(ch, cur_column, term_width))
+                {
+                    *out_column = Some(0);
+                    *out_breaks = Some(cur_breaks + 1);
+                } else if cur_column >= term_width {
                     *out_column = Some(term_width);
                     *out_breaks = Some(cur_breaks);
                 } else {
@@ -232,6 +243,26 @@ impl TtyState {
         }
         Ok(())
     }
+    /// Fill or clear the rest of the current row.
+    fn finish_row(
+        &self,
+        term: &mut RefMut<'_, Box<dyn Term>>,
+        term_width: u32,
+        cur_attr: &(Style, Option<Color>, Option<Color>),
+        cur_column: u32,
+    ) -> LifeOrDeath {
+        if cur_column < term_width {
+            if cur_attr.0.contains(Style::INVERSE)
+                || cur_attr.0.contains(Style::UNDERLINE)
+                || cur_attr.2.is_some()
+            {
+                term.print_spaces((term_width - cur_column) as usize)?;
+            } else {
+                term.clear_to_end_of_line()?;
+            }
+        }
+        Ok(())
+    }
     #[allow(clippy::too_many_arguments)]
     fn output_char(
         &self,
@@ -249,6 +280,12 @@ impl TtyState {
         }
         let ch = lc.ch;
         let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
+        if needs_wrap(ch, *cur_column, term_width) {
+            self.finish_row(term, term_width, cur_attr, *cur_column)?;
+            term.newline()?;
+            *cur_breaks += 1;
+            *cur_column = 0;
+        }
         if ch != '\n' {
             term.print_char(ch)?;
             *cur_column += char_width;
@@ -258,16 +295,7 @@ impl TtyState {
             return Ok(());
         }
         if (char_width > 0 && *cur_column >= term_width) || ch == '\n' {
-            if *cur_column < term_width {
-                if cur_attr.0.contains(Style::INVERSE)
-                    || cur_attr.0.contains(Style::UNDERLINE)
-                    || cur_attr.2.is_some()
-                {
-                    term.print_spaces((term_width - *cur_column) as usize)?;
-                } else {
-                    term.clear_to_end_of_line()?;
-                }
-            }
+            self.finish_row(term, term_width, cur_attr, *cur_column)?;
             term.newline()?;
             *implied_newline = ch != '\n';
             *cur_breaks += 1;
@@ -285,6 +313,10 @@ impl TtyState {
     ) -> LifeOrDeath {
         let ch = lc.ch;
         let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
+        if needs_wrap(ch, *cur_column, term_width) {
+            *cur_breaks += 1;
+            *cur_column = 0;
+        }
         if ch != '\n' {
             *cur_column += char_width;
             *implied_newline = false;
@@ -355,6 +387,7 @@ impl TtyState {
                 (Some(a), Some(b)) => {
                     self.maybe_report(
                         b.index,
+                        Some(b.ch),
                         cur_column,
                         cur_breaks,
                         cursor_pos,
@@ -403,6 +436,7 @@ impl TtyState {
                 (None, Some(b)) => {
                     self.maybe_report(
                         b.index,
+                        Some(b.ch),
                         cur_column,
                         cur_breaks,
                         cursor_pos,
@@ -472,6 +506,7 @@ impl TtyState {
             debug_assert!(!ended_simultaneously);
             self.maybe_report(
                 b.index,
+                Some(b.ch),
                 cur_column,
                 cur_breaks,
                 cursor_pos,
@@ -501,6 +536,7 @@ impl TtyState {
         }
         self.maybe_report(
             new_line.text.len(),
+            None,
             cur_column,
             cur_breaks,
             cursor_pos,
-- 
2.43.0


From 5c843823f6185c7c9f1310b6a577892e3922d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 12/39] fix: remove stale padding and characters when the
 display changes

---
 src/line.rs   | 15 ++++++++++
 src/worker.rs | 76 ++++++++++++++++++++-------------------------------
 2 files changed, 45 insertions(+), 46 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 275ba0b..9f631d5 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -61,6 +61,21 @@ impl Line {
     pub fn as_str(&self) -> &str {
         &self.text
     }
+    /// Returns the attributes of the padding that should extend from the end
+    /// of the line to the edge of the terminal, if that padding is visible.
+    pub(crate) fn trailing_fill(
+        &self,
+    ) -> Option<(Style, Option<Color>, Option<Color>)> {
+        let el = self.elements.last()?;
+        if el.style.contains(Style::INVERSE)
+            || el.style.contains(Style::UNDERLINE)
+            || el.bg.is_some()
+        {
+            Some((el.style, el.fg, el.bg))
+        } else {
+            None
+        }
+    }
     fn append_text(&mut self, i: Cow<str>) {
         if i.len() == 0 {
             return;
diff --git a/src/worker.rs b/src/worker.rs
index 2198ef5..d44165f 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -377,7 +377,11 @@ impl TtyState {
         let mut cur_attr = (Style::empty(), None, None);
         let mut cur_column = 0;
         let mut cur_breaks = 0;
-        let mut endfill_redundant = false;
+        // The attributes of the padding at the end of what's on the screen
+        let mut old_fill = self
+            .remembered_output
+            .as_ref()
+            .and_then(|x| x.output_line.trailing_fill());
         let mut output_cursor_top = None;
         let mut output_cursor_left = None;
         let mut implied_newline = false;
@@ -414,11 +418,15 @@ impl TtyState {
                         cur_column,
                         cur_breaks,
                     )?;
-                    if (a.ch == '\n') != (b.ch == '\n') {
+                    if (a.ch == '\n') != (b.ch == '\n')
+                        || UnicodeWidthChar::width(a.ch)
+                            != UnicodeWidthChar::width(b.ch)
+                    {
                         // Simpler at this point just to clear everything.
                         term.clear_forward_and_reset()?;
                         cur_attr = (Style::empty(), None, None);
                         old_chars = None;
+                        old_fill = None;
                     }
                     self.output_char(
                         &mut term,
@@ -431,7 +439,6 @@ impl TtyState {
                     )?;
                     real_column = cur_column;
                     real_breaks = cur_breaks;
-                    endfill_redundant = a.endfills_same_as(&b);
                 }
                 (None, Some(b)) => {
                     self.maybe_report(
@@ -463,7 +470,6 @@ impl TtyState {
                     )?;
                     real_column = cur_column;
                     real_breaks = cur_breaks;
-                    endfill_redundant = false;
                     break false;
                 }
                 (a, None) => {
@@ -476,27 +482,8 @@ impl TtyState {
                             cur_column,
                             cur_breaks,
                         )?;
-                        if real_column == term_width
-                            && cur_column + 1 == term_width
-                        {
-                            term.print_spaces(1)?;
-                        } else if cur_column == term_width {
-                            term.newline()?;
-                            term.clear_forward_and_reset()?;
-                            real_column = 0;
-                            real_breaks += 1;
-                            self.reconcile_cursors(
-                                &mut term,
-                                term_width,
-                                &mut real_column,
-                                &mut real_breaks,
-                                cur_column,
-                                cur_breaks,
-                            )?;
-                        } else {
-                            term.clear_forward_and_reset()?;
-                        }
-                        endfill_redundant = false;
+                        term.clear_forward_and_reset()?;
+                        old_fill = None;
                     }
                     break a.is_none();
                 }
@@ -544,30 +531,27 @@ impl TtyState {
             &mut output_cursor_top,
             term_width,
         );
-        if !ended_simultaneously || !endfill_redundant {
-            let trailit = endfill
-                && match new_line.elements.last() {
-                    None => false,
-                    Some(el) => {
-                        el.style.contains(Style::INVERSE)
-                            || el.style.contains(Style::UNDERLINE)
-                            || el.bg.is_some()
-                    }
-                };
-            if trailit && cur_column < term_width {
-                self.reconcile_cursors(
-                    &mut term,
-                    term_width,
-                    &mut real_column,
-                    &mut real_breaks,
-                    cur_column,
-                    cur_breaks,
-                )?;
-                let last = new_line.elements.last().unwrap();
-                term.set_attrs(last.style, last.fg, last.bg)?;
+        let new_fill = if endfill { new_line.trailing_fill() } else { None };
+        if (!ended_simultaneously || new_fill != old_fill)
+            && cur_column < term_width
+        {
+            self.reconcile_cursors(
+                &mut term,
+                term_width,
+                &mut real_column,
+                &mut real_breaks,
+                cur_column,
+                cur_breaks,
+            )?;
+            if let Some((style, fg, bg)) = new_fill {
+                term.set_attrs(style, fg, bg)?;
                 term.print_spaces((term_width - cur_column) as usize)?;
                 cur_column = term_width;
                 real_column = cur_column;
+            } else {
+                // Remove the old padding, or color that scrolling brought in.
+                term.set_attrs(Style::empty(), None, None)?;
+                term.clear_to_end_of_line()?;
             }
         }
         term.set_attrs(Style::empty(), None, None)?;
-- 
2.43.0


From fcc2f4219970f27ac47f5ed6dd722978fc9c1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 13/39] fix: wrap styled, non-ASCII and whitespace-padded lines
 correctly

---
 src/line.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 9f631d5..f377331 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -404,8 +404,7 @@ impl Line {
         assert!(width > 0);
         let newline_positions: Vec<usize> = self
             .text
-            .chars()
-            .enumerate()
+            .char_indices()
             .filter_map(|(n, c)| if c == '\n' { Some(n) } else { None })
             .chain(Some(self.text.len()))
             .collect();
@@ -422,6 +421,8 @@ impl Line {
             }
             let wrap_vec = textwrap::wrap(&self.text[start..end], width);
             let mut edit_vec = Vec::with_capacity(wrap_vec.len());
+            let paragraph_start = start;
+            let mut last_start = start;
             let mut cur_end = start;
             for el in wrap_vec.into_iter() {
                 // We're pretty sure we didn't use any features that would require
@@ -440,26 +441,29 @@ impl Line {
                     continue;
                 }
                 assert!(start >= cur_end);
-                if start != 0 {
+                if start != paragraph_start {
                     edit_vec.push(cur_end..start);
                 }
+                last_start = start;
                 cur_end = end;
             }
+            // textwrap ignores whitespace at the end.
+            if textwrap::core::display_width(&self.text[last_start..end])
+                > width
+            {
+                self.replace_range(cur_end..end, "");
+            }
             for range in edit_vec.into_iter().rev() {
-                if range.start > 0
-                    && self.text.as_bytes()[range.start - 1] == b'\n'
-                {
-                    continue;
-                }
-                self.erase_and_insert_newline(range);
+                self.replace_range(range, "\n");
             }
         }
     }
     // Internal use only.
     #[cfg(feature = "wrap")]
-    fn erase_and_insert_newline(&mut self, range: std::ops::Range<usize>) {
-        let delta_bytes = 1 - (range.end as isize - range.start as isize);
-        self.text.replace_range(range.clone(), "\n");
+    fn replace_range(&mut self, range: std::ops::Range<usize>, with: &str) {
+        let delta_bytes =
+            with.len() as isize - (range.end as isize - range.start as isize);
+        self.text.replace_range(range.clone(), with);
         let mut elements_len = self.elements.len();
         let mut i = self.elements.len();
         loop {
@@ -489,8 +493,8 @@ impl Line {
                     continue;
                 }
             }
-            if element.start >= range.start {
-                break; // all subsequent elements will be before the edit
+            if element.start < range.start {
+                break; // all remaining elements are before the edit
             }
         }
     }
-- 
2.43.0


From b19678b0e75e1cc7fcc7dbedd760cbf817894870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 14/39] fix: never wrap to a line that is too wide

---
 src/line.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index f377331..c95a122 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -402,6 +402,13 @@ impl Line {
     #[cfg(feature = "wrap")]
     pub fn wrap_to_width(&mut self, width: usize) {
         assert!(width > 0);
+        // The default penalty can make overlong lines look preferable to very
+        // short ones.
+        let mut penalties = textwrap::wrap_algorithms::Penalties::new();
+        penalties.overflow_penalty = usize::MAX >> 16;
+        let options = textwrap::Options::new(width).wrap_algorithm(
+            textwrap::WrapAlgorithm::OptimalFit(penalties),
+        );
         let newline_positions: Vec<usize> = self
             .text
             .char_indices()
@@ -419,7 +426,7 @@ impl Line {
             if start >= end {
                 continue;
             }
-            let wrap_vec = textwrap::wrap(&self.text[start..end], width);
+            let wrap_vec = textwrap::wrap(&self.text[start..end], &options);
             let mut edit_vec = Vec::with_capacity(wrap_vec.len());
             let paragraph_start = start;
             let mut last_start = start;
-- 
2.43.0


From dc7bd4f8a70db1b3f01e77249d5ede5cdd47d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 15/39] fix: fill the last column too when padding an output
 line

---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index d44165f..a6cbcde 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -174,6 +174,7 @@ impl TtyState {
         };
         if trailit && cur_column < term_width {
             term.print_spaces((term_width - cur_column) as usize)?;
+            cur_column = term_width;
         }
         term.set_attrs(Style::empty(), None, None)?;
         if cur_column != term_width {
-- 
2.43.0


From e67258b5bbcc140ed9bc42673711a179abadf775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 16/39] fix: handle the end of the input and invalid UTF-8 in
 pipe mode

---
 src/lib.rs    |  4 ++++
 src/worker.rs | 22 +++++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 74cac3a..a4a09ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -456,6 +456,8 @@ enum Request {
     /// out. (The pipe worker doesn't interpret escape sequences and therefore
     /// does no such processing.)
     RawInput(String),
+    /// Sent by the pipe worker's input thread when there's no more input.
+    EndOfInput,
     /// Used to implement notices.
     Heartbeat,
     /// If the crossterm event system is being used, this is an event received.
@@ -559,6 +561,8 @@ pub enum Response {
     Discarded(String),
     /// Sent when the user types control-D on an empty line, which normally
     /// means that they are done providing input (possibly temporarily).
+    ///
+    /// In pipe mode, this is sent once, when the end of the input is reached.
     Finish,
     /// Sent when the user types control-T, which on some BSDs is a standard
     /// way to request that a program give a status report or other progress
diff --git a/src/worker.rs b/src/worker.rs
index a6cbcde..666f1a9 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -28,19 +28,22 @@ fn pipe_worker(
                 let stdin = std::io::stdin();
                 let mut stdin = stdin.lock();
                 loop {
-                    let mut buf = String::new();
-                    match stdin.read_line(&mut buf) {
+                    let mut buf = Vec::new();
+                    match stdin.read_until(b'\n', &mut buf) {
+                        Ok(0) | Err(_) => break,
                         Ok(_) => {
-                            while buf.ends_with('\n') || buf.ends_with('\r') {
+                            while matches!(buf.last(), Some(b'\n' | b'\r')) {
                                 buf.pop();
                             }
-                            if req_tx.send(Request::RawInput(buf)).is_err() {
-                                break;
+                            let line = String::from_utf8_lossy(&buf);
+                            let line = line.into_owned();
+                            if req_tx.send(Request::RawInput(line)).is_err() {
+                                return;
                             }
                         }
-                        Err(_) => break,
                     }
                 }
+                let _ = req_tx.send(Request::EndOfInput);
             })
             .unwrap(),
     );
@@ -62,6 +65,11 @@ fn pipe_worker(
                     break;
                 }
             }
+            Request::EndOfInput => {
+                if tx.send(Response::Finish).is_err() {
+                    break;
+                }
+            }
             Request::Die => break,
             Request::Custom(x) => tx.send(Response::Custom(x))?,
             _ => (),
@@ -669,7 +677,7 @@ impl TtyState {
             Request::CrosstermEvent(event) => {
                 self.handle_event(tx, event, ded_tx)?
             }
-            Request::Die => return Ok(()),
+            Request::Die | Request::EndOfInput => return Ok(()),
             Request::Heartbeat => {
                 if let Some((_, deadline)) = self.notice {
                     if Instant::now() >= deadline {
-- 
2.43.0


From a594e86957e5f6e6895987f0362fa75128998497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 17/39] fix: run functions given to suspend_and_run in pipe
 mode

---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index 666f1a9..4f396bd 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -65,6 +65,7 @@ fn pipe_worker(
                     break;
                 }
             }
+            Request::SuspendAndRun(mut wat) => wat(),
             Request::EndOfInput => {
                 if tx.send(Response::Finish).is_err() {
                     break;
-- 
2.43.0


From 3ea32ceabe97a4ebc9bd3709e92a5816b03f27ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 18/39] fix: don't panic when surrogates are typed

---
 src/term/cross.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index cf1bcfb..4308457 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -166,8 +166,7 @@ fn input_thread(
                 }
                 start += num_bytes_needed;
                 // send the decoded character
-                let code = if code > 0x10FFFF { 0xFFFD } else { code };
-                let ch = char::from_u32(code).unwrap();
+                let ch = char::from_u32(code).unwrap_or('\u{fffd}');
                 let event = KeyEvent {
                     code: event::KeyCode::Char(ch),
                     modifiers: event::KeyModifiers::empty(),
-- 
2.43.0


From fba9370934ed48dad71ab067ebe0d7c4738fffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 19/39] fix: don't hang on meta bytes on VT52 terminals

---
 src/term/vt52.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 1d6ae02..682d14a 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -85,6 +85,7 @@ fn input_thread(
             } else if buf[start] >= 0x80 {
                 // We have to discard the meta bytes we receive
                 // TODO: are these sent sometimes?
+                start += 1;
             } else {
                 let mut text_end = start + 1;
                 while text_end < buf.len()
-- 
2.43.0


From 684433a1e3910262469572eb798a0dcd80d837cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 20/39] fix: interrupt the right thread when shutting down a
 VT52

---
 src/term/vt52.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 682d14a..8fc3918 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -135,7 +135,7 @@ impl Vt52 {
             }
         };
         let (input_tx, input_rx) = std_mpsc::sync_channel(1);
-        std::thread::Builder::new()
+        let stdin_thread = std::thread::Builder::new()
             .name("Liso raw stdin thread".to_owned())
             .spawn(move || {
                 let stdin = std::io::stdin();
@@ -155,7 +155,7 @@ impl Vt52 {
                 }
             })
             .unwrap();
-        let input_thread = std::thread::Builder::new()
+        std::thread::Builder::new()
             .name("Liso input processing thread".to_owned())
             .spawn(move || {
                 let _ = input_thread(input_rx, req_tx);
@@ -171,7 +171,7 @@ impl Vt52 {
             cur_bg: 0,
             num_colors,
             white_on_black,
-            input_thread: InterruptibleStdinThread::new(input_thread),
+            input_thread: InterruptibleStdinThread::new(stdin_thread),
         };
         ret.unsuspend()?;
         Ok(ret)
-- 
2.43.0


From e83dbcd4c42b0680c4f50ca7e9bf44a888321c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 21/39] fix: print characters as wide as they are on VT52
 terminals

---
 src/term/vt52.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 8fc3918..f3a0b1b 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -275,12 +275,7 @@ impl Term for Vt52 {
         Ok(())
     }
     fn print_char(&mut self, ch: char) -> LifeOrDeath {
-        if ch >= '\u{0080}' {
-            self.stdout.write_all(b"\x7F")?;
-        } else {
-            self.stdout.write_all(&[ch as u8])?;
-        }
-        Ok(())
+        self.print(ch.encode_utf8(&mut [0u8; 4]))
     }
     fn print_spaces(&mut self, spaces: usize) -> LifeOrDeath {
         for _ in 0..spaces {
-- 
2.43.0


From 2e385f419583e7071804aa1332ec5ded2e31a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 22/39] fix: don't allow another instance until the old one is
 gone

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a4a09ae..1ef8a63 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -808,11 +808,12 @@ impl Output {
 
 impl Drop for InputOutput {
     fn drop(&mut self) {
+        self.actually_blocking_die();
+        // (only now is it safe to create another instance)
         #[cfg(feature = "global")]
         {
             *LISO_OUTPUT_TX.lock() = None;
         }
-        self.actually_blocking_die();
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
         #[cfg(feature = "capture-stderr")]
-- 
2.43.0


From c7b00281da6f742bb16a38e362298e924dcd2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 23/39] fix: die when the terminal hangs up

---
 src/term/cross.rs | 6 +++++-
 src/term/vt52.rs  | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 4308457..e449cea 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -234,6 +234,7 @@ impl Crossterminal {
                             break;
                         }
                     }
+                    let _ = req_tx.send(Request::Die);
                 })
                 .unwrap()
         } else {
@@ -241,7 +242,10 @@ impl Crossterminal {
             std::thread::Builder::new()
                 .name("Liso input processing thread".to_owned())
                 .spawn(move || {
-                    let _ = input_thread(input_rx, req_tx);
+                    let _ = input_thread(input_rx, req_tx.clone());
+                    // There won't be any more input. Unless we are already
+                    // being shut down, the terminal has gone away.
+                    let _ = req_tx.send(Request::Die);
                 })
                 .unwrap();
             std::thread::Builder::new()
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index f3a0b1b..1efc2fc 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -158,7 +158,10 @@ impl Vt52 {
         std::thread::Builder::new()
             .name("Liso input processing thread".to_owned())
             .spawn(move || {
-                let _ = input_thread(input_rx, req_tx);
+                let _ = input_thread(input_rx, req_tx.clone());
+                // There won't be any more input. Unless we are already being
+                // shut down, the terminal has gone away.
+                let _ = req_tx.send(Request::Die);
             })
             .unwrap();
         let stdout = std::io::stdout();
-- 
2.43.0


From c85b8a091781b6b9f1b398f13acd79961dddb229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 24/39] fix: cope with terminals that don't know their size

---
 src/term/cross.rs | 6 +++++-
 src/term/vt52.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index e449cea..557199e 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -418,7 +418,11 @@ impl Term for Crossterminal {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        match terminal::size() {
+            // (0 means that the size is not known)
+            Ok((0, _)) | Err(_) => 80,
+            Ok((width, _)) => width as u32,
+        }
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 1efc2fc..fa10203 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -365,7 +365,11 @@ impl Term for Vt52 {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        match terminal::size() {
+            // (0 means that the size is not known)
+            Ok((0, _)) | Err(_) => 80,
+            Ok((width, _)) => width as u32,
+        }
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
-- 
2.43.0


From 5f4930afedf3ca4242e946b8699eabb3f9fc7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 25/39] fix: don't mistake old bytes for captured stderr output

---
 src/stderr_capture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index fe8ad84..33692f9 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -217,7 +217,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
                 Ok(x) => {
                     let mut last_newline_pos = None;
                     let end_pos = buf_pos + x;
-                    while let Some(p) = buf[buf_pos..]
+                    while let Some(p) = buf[buf_pos..end_pos]
                         .iter()
                         .position(|x| *x == b'\n')
                         .map(|x| x + buf_pos)
-- 
2.43.0


From 02bb911a0b8c6beeb8aadf4b227d98c6dc4613d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 26/39] fix: stop capturing stderr before allowing another
 instance

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ef8a63..c4e909b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -809,6 +809,8 @@ impl Output {
 impl Drop for InputOutput {
     fn drop(&mut self) {
         self.actually_blocking_die();
+        #[cfg(feature = "capture-stderr")]
+        stderr_capture::wait_until_not_captured();
         // (only now is it safe to create another instance)
         #[cfg(feature = "global")]
         {
@@ -816,8 +818,6 @@ impl Drop for InputOutput {
         }
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
-        #[cfg(feature = "capture-stderr")]
-        stderr_capture::wait_until_not_captured();
     }
 }
 
-- 
2.43.0


From 884e48a469f2942bf6841e407e90f9e0c00b43df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 27/39] fix: don't leave fd 2 closed while stopping the stderr
 capture

---
 src/stderr_capture.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 33692f9..d8a8abc 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -11,7 +11,9 @@ use libc::c_int;
 use parking_lot::Mutex;
 
 const STDERR_FD: c_int = 2;
-static STDERR_CAPTURE_THREAD: Mutex<Option<JoinHandle<()>>> = Mutex::new(None);
+/// The capture thread, and the descriptor that stands in for the real stderr.
+static STDERR_CAPTURE_THREAD: Mutex<Option<(JoinHandle<()>, c_int)>> =
+    Mutex::new(None);
 
 fn pipe() -> Result<(c_int, c_int), c_int> {
     #[cfg(any(target_family = "windows", target_family = "unix"))]
@@ -191,7 +193,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         return;
     }
     close(w); // it is now staying alive as STDERR_FD
-    *lock = Some(std::thread::spawn(move || {
+    let thread = std::thread::spawn(move || {
         let mut buf = vec![0u8; 128];
         let mut buf_pos = 0;
         'outer: loop {
@@ -280,7 +282,6 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         // sent "successfully" were lost. Oh well.
         dup2(real_stderr, STDERR_FD)
             .expect("Unable to reduplicate stderr back into place!");
-        close(real_stderr);
         // Any remaining output waiting in the pipe, process.
         while let Ok(amount) = read(r, &mut buf[..]) {
             if amount == 0 {
@@ -289,14 +290,17 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
             let _ = write_all(STDERR_FD, &buf[..amount]);
         }
         close(r);
-    }));
+    });
+    *lock = Some((thread, real_stderr));
 }
 
 pub(crate) fn wait_until_not_captured() {
     let mut lock = STDERR_CAPTURE_THREAD.lock();
-    if let Some(x) = lock.take() {
-        close(STDERR_FD); // :(
-        let _ = x.join();
+    if let Some((thread, real_stderr)) = lock.take() {
+        // Don't just close it! Somebody else might get the same descriptor.
+        let _ = dup2(real_stderr, STDERR_FD);
+        let _ = thread.join();
+        close(real_stderr);
     }
     // Do not drop the lock until here! Nobody else should be allowed to
     // think they can join before us!
-- 
2.43.0


From b6cc50857ec28b00b9658193458fd6e57d51a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:44 +0000
Subject: [PATCH 28/39] fix: replace invalid UTF-8 lead bytes and overlong
 sequences, without delay

---
 src/term/cross.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 557199e..d04c5f1 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -124,11 +124,11 @@ fn input_thread(
             } else if buf[start] >= 0x80 {
                 // UTF-8 sequence processing
                 let b = buf[start];
-                let num_bytes_needed = if b >= 0xF0 {
+                let num_bytes_needed = if (0xF0..0xF8).contains(&b) {
                     4
-                } else if b >= 0xE0 {
+                } else if (0xE0..0xF0).contains(&b) {
                     3
-                } else if b >= 0xC0 {
+                } else if (0xC2..0xE0).contains(&b) {
                     2
                 } else {
                     // send the replacement character
@@ -143,12 +143,12 @@ fn input_thread(
                     start += 1;
                     continue;
                 };
-                if (buf.len() - start) < num_bytes_needed {
-                    // Read more data before sending this along
-                    break;
-                }
                 let mut code = (b & (0b1111111 >> num_bytes_needed)) as u32;
                 for i in 1..num_bytes_needed {
+                    if start + i >= buf.len() {
+                        // Read more data before sending this along
+                        break 'processing;
+                    }
                     if buf[start + i] < 0x80 || buf[start + i] >= 0xC0 {
                         start += i;
                         // send the replacement character
@@ -166,7 +166,9 @@ fn input_thread(
                 }
                 start += num_bytes_needed;
                 // send the decoded character
-                let ch = char::from_u32(code).unwrap_or('\u{fffd}');
+                let ch = char::from_u32(code)
+                    .filter(|ch| ch.len_utf8() == num_bytes_needed)
+                    .unwrap_or('\u{fffd}');
                 let event = KeyEvent {
                     code: event::KeyCode::Char(ch),
                     modifiers: event::KeyModifiers::empty(),
-- 
2.43.0


From c96cec2ba8c6037cc8534f478e7be2a063f7a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 29/39] fix: recognize an SGR sequence that follows another
 escape character

---
 src/line/add_ansi.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index 277630f..e6d4e26 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -22,10 +22,9 @@ impl Line {
                 if ch != '\x1B' {
                     continue;
                 }
-                let Some((_, ch)) = char_indices.next() else {
-                    break;
-                };
-                if ch != '[' {
+                if !input_line[unescaped_start + sequence_start + 1..]
+                    .starts_with('[')
+                {
                     continue;
                 }
                 if sequence_start != 0 {
-- 
2.43.0


From 85161601d6712f5b57360100c00b3b7526318063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 30/39] fix: don't treat malformed SGR codes as a reset

---
 src/line/add_ansi.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index e6d4e26..6ceba93 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -65,7 +65,14 @@ impl Line {
                 let mut codes = input_line[unescaped_start + param_start
                     ..unescaped_start + param_end]
                     .split(';')
-                    .map(|code| code.parse::<u32>().unwrap_or(0));
+                    .map(|code| {
+                        if code.is_empty() {
+                            0
+                        } else {
+                            // a code we can't parse is an unknown code
+                            code.parse::<u32>().unwrap_or(u32::MAX)
+                        }
+                    });
                 while let Some(code) = codes.next() {
                     match code {
                         0 => drop(self.reset_all()),
-- 
2.43.0


From 7c639e16afb2f9d3edcf6bb25d483a33ccc69943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:48 +0000
Subject: [PATCH 31/39] fix: know which colors a VT52 starts out with

---
 src/term/vt52.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index fa10203..43f39ef 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -381,10 +381,15 @@ impl Term for Vt52 {
         if self.white_on_black {
             self.stdout
                 .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x20\x1Bc\x2F")?;
+            self.cur_fg = 0;
+            self.cur_bg = 15;
         } else {
             self.stdout
                 .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
+            self.cur_fg = 15;
+            self.cur_bg = 0;
         }
+        self.cur_style = Style::PLAIN;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
-- 
2.43.0


From ff215fa83d9b30eae055890f4f9eecafec3f0e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 32/39] fix: don't report death while output can still be
 silently lost

In pipe mode, and when the terminal was lost, the response channel closed
before the request channel. Output in between disappeared without a trace
instead of panicking as documented.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c4e909b..09570b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -864,6 +864,9 @@ impl InputOutput {
         std::thread::Builder::new()
             .name("Liso output thread".to_owned())
             .spawn(move || {
+                // Outlives the request receiver, so that by the time anybody
+                // is told that we're dead, outputs are dead as well.
+                let _response_tx = response_tx.clone();
                 #[cfg(feature = "history")]
                 let _ = worker::worker(
                     request_tx_clone,
-- 
2.43.0


From 97f1d2211fabf54d1ca89a1b0b8d14b4472090e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:07 +0000
Subject: [PATCH 33/39] fix: don't send ANSI sequences to a VT52 when panicking

---
 src/term/vt52.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 43f39ef..597a619 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -181,6 +181,15 @@ impl Vt52 {
     }
 }
 
+/// The bytes that put the terminal back into a sensible mode.
+fn suspend_sequence(white_on_black: bool) -> &'static [u8] {
+    if white_on_black {
+        b"\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be"
+    } else {
+        b"\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be"
+    }
+}
+
 impl Term for Vt52 {
     fn set_attrs(
         &mut self,
@@ -392,16 +401,10 @@ impl Term for Vt52 {
         self.cur_style = Style::PLAIN;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
+        let white_on_black = self.white_on_black;
         panic::set_hook(Box::new(move |info| {
             let mut stdout = std::io::stdout();
-            let _ = queue!(
-                stdout,
-                cursor::Show,
-                terminal::EnableLineWrap,
-                style::ResetColor,
-                style::SetAttribute(CtAttribute::Reset),
-                terminal::Clear(terminal::ClearType::FromCursorDown)
-            );
+            let _ = stdout.write_all(suspend_sequence(white_on_black));
             let _ = stdout.flush();
             let _ = terminal::disable_raw_mode();
             default_hook(info)
@@ -413,11 +416,8 @@ impl Term for Vt52 {
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        if self.white_on_black {
-            write!(self.stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")?;
-        } else {
-            write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")?;
-        }
+        self.stdout
+            .write_all(suspend_sequence(self.white_on_black))?;
         self.stdout.flush()?;
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
-- 
2.43.0


From 0090289e4a99e0147daae95c91603fb1057e1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:39 +0000
Subject: [PATCH 34/39] fix: don't garble escape sequences when several threads
 panic at once

---
 src/term/cross.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index d04c5f1..3458a59 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -443,7 +443,8 @@ impl Term for Crossterminal {
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
-            let mut stdout = std::io::stdout();
+            // (several threads may be panicking at once)
+            let mut stdout = std::io::stdout().lock();
             let _ = queue!(
                 stdout,
                 cursor::Show,
@@ -453,6 +454,7 @@ impl Term for Crossterminal {
                 terminal::Clear(terminal::ClearType::FromCursorDown)
             );
             let _ = stdout.flush();
+            drop(stdout);
             let _ = terminal::disable_raw_mode();
             default_hook(info)
         }));
-- 
2.43.0


From caeaccd000f62b81ccd51c00c0bdd3784760b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 35/39] fix: clean up even if the terminal fails or a callback
 panics

When the terminal had gone away, or a completor or a suspended function
panicked, the output thread ended without restoring the program's panic hook,
and the input thread went on stealing the program's standard input.
---
 src/term/cross.rs | 22 ++++++++++++++--------
 src/term/vt52.rs  | 22 ++++++++++++++--------
 src/worker.rs     | 32 +++++++++++++++++++++++++++-----
 3 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 3458a59..6cdb920 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -465,30 +465,36 @@ impl Term for Crossterminal {
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        queue!(
+        // (even if there isn't a terminal anymore, the hook must go)
+        let queued = queue!(
             self.stdout,
             cursor::Show,
             terminal::EnableLineWrap,
             style::ResetColor,
             style::SetAttribute(CtAttribute::Reset),
             terminal::Clear(terminal::ClearType::FromCursorDown)
-        )?;
-        terminal::disable_raw_mode()?;
+        );
+        let disabled = terminal::disable_raw_mode();
         self.cur_style = Style::PLAIN;
         self.cur_fg = None;
         self.cur_bg = None;
-        self.stdout.flush()?;
+        let flushed = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
         self.suspended = true;
+        queued?;
+        disabled?;
+        flushed?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let suspended = if !self.suspended {
+            self.suspend()
+        } else {
+            Ok(())
+        };
         self.input_thread.interrupt();
-        Ok(())
+        suspended
     }
 }
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 597a619..c705359 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -416,21 +416,27 @@ impl Term for Vt52 {
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        self.stdout
-            .write_all(suspend_sequence(self.white_on_black))?;
-        self.stdout.flush()?;
+        // (even if there isn't a terminal anymore, the hook must go)
+        let written = self
+            .stdout
+            .write_all(suspend_sequence(self.white_on_black))
+            .and_then(|_| self.stdout.flush());
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
-        terminal::disable_raw_mode()?;
+        let disabled = terminal::disable_raw_mode();
         self.suspended = true;
+        written?;
+        disabled?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let suspended = if !self.suspended {
+            self.suspend()
+        } else {
+            Ok(())
+        };
         self.input_thread.interrupt();
-        Ok(())
+        suspended
     }
 }
diff --git a/src/worker.rs b/src/worker.rs
index 4f396bd..cd0500d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -8,6 +8,7 @@ use std::{
     cell::{RefCell, RefMut},
     io::BufRead,
     mem::swap,
+    panic::{self, AssertUnwindSafe},
     time::Instant,
 };
 
@@ -1476,6 +1477,30 @@ fn tty_worker(
         #[cfg(feature = "completion")]
         own_output: Output { tx: req_tx },
     };
+    let result = panic::catch_unwind(AssertUnwindSafe(|| {
+        tty_loop(&mut state, &rx, &mut tx, &mut ded_tx)
+    }));
+    // Whatever happened, the terminal, the panic hook and stdin belong to the
+    // program again.
+    let cleaned_up = state.cleanup();
+    let disabled = crossterm::terminal::disable_raw_mode();
+    drop(rx);
+    match result {
+        Ok(result) => result?,
+        Err(payload) => panic::resume_unwind(payload),
+    }
+    cleaned_up?;
+    disabled?;
+    Ok(())
+}
+
+/// Handle requests until we are to die.
+fn tty_loop(
+    state: &mut TtyState,
+    rx: &std_mpsc::Receiver<Request>,
+    tx: &mut tokio_mpsc::UnboundedSender<Response>,
+    ded_tx: &mut std_mpsc::SyncSender<Instant>,
+) -> LifeOrDeath {
     let mut dying = false;
     'outer: while let Some(request) = if dying {
         rx.try_recv().ok()
@@ -1485,7 +1510,7 @@ fn tty_worker(
         if let Request::Die = request {
             break;
         }
-        state.handle(&mut tx, &mut ded_tx, request)?;
+        state.handle(tx, ded_tx, request)?;
         loop {
             use std_mpsc::TryRecvError;
             match rx.try_recv() {
@@ -1497,7 +1522,7 @@ fn tty_worker(
                         break;
                     }
                 }
-                Ok(request) => state.handle(&mut tx, &mut ded_tx, request)?,
+                Ok(request) => state.handle(tx, ded_tx, request)?,
                 Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => break 'outer,
             }
@@ -1505,9 +1530,6 @@ fn tty_worker(
         state.rollout()?;
     }
     state.rollin()?;
-    state.cleanup()?;
-    crossterm::terminal::disable_raw_mode()?;
-    drop(rx);
     Ok(())
 }
 
-- 
2.43.0


From bc3b71e7814a311796d9158c575a93c743870eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:25 +0000
Subject: [PATCH 36/39] fix: stop reading stdin in pipe mode, too, if a
 suspended function panics

---
 src/unix_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/unix_util.rs b/src/unix_util.rs
index 3a70842..56a1dde 100644
--- a/src/unix_util.rs
+++ b/src/unix_util.rs
@@ -79,3 +79,9 @@ impl InterruptibleStdinThread {
         }
     }
 }
+
+impl Drop for InterruptibleStdinThread {
+    fn drop(&mut self) {
+        self.interrupt();
+    }
+}
-- 
2.43.0


From 04b963b20704a96f793020793d3598a36a7cbbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:56 +0000
Subject: [PATCH 37/39] fix: don't wait for other threads to stop printing when
 shutting down

---
 src/worker.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index cd0500d..265dc05 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1475,10 +1475,17 @@ fn tty_worker(
         #[cfg(feature = "completion")]
         consecutive_completion_presses: 0,
         #[cfg(feature = "completion")]
-        own_output: Output { tx: req_tx },
+        own_output: Output { tx: req_tx.clone() },
     };
     let result = panic::catch_unwind(AssertUnwindSafe(|| {
-        tty_loop(&mut state, &rx, &mut tx, &mut ded_tx)
+        tty_loop(
+            &mut state,
+            #[cfg(feature = "capture-stderr")]
+            &req_tx,
+            &rx,
+            &mut tx,
+            &mut ded_tx,
+        )
     }));
     // Whatever happened, the terminal, the panic hook and stdin belong to the
     // program again.
@@ -1497,10 +1504,12 @@ fn tty_worker(
 /// Handle requests until we are to die.
 fn tty_loop(
     state: &mut TtyState,
+    #[cfg(feature = "capture-stderr")] req_tx: &std_mpsc::Sender<Request>,
     rx: &std_mpsc::Receiver<Request>,
     tx: &mut tokio_mpsc::UnboundedSender<Response>,
     ded_tx: &mut std_mpsc::SyncSender<Instant>,
 ) -> LifeOrDeath {
+    #[cfg_attr(not(feature = "capture-stderr"), allow(unused_mut))]
     let mut dying = false;
     'outer: while let Some(request) = if dying {
         rx.try_recv().ok()
@@ -1515,12 +1524,18 @@ fn tty_loop(
             use std_mpsc::TryRecvError;
             match rx.try_recv() {
                 Ok(Request::Die) => {
-                    dying = true;
-                    if cfg!(not(feature = "capture-stderr")) {
-                        // if we're not capturing stderr, there's no reason not
-                        // to break immediately
-                        break;
+                    #[cfg(feature = "capture-stderr")]
+                    if !dying {
+                        // output the stderr lines that were already captured,
+                        // but no others; somebody might be producing them
+                        // faster than we can output them
+                        dying = true;
+                        let _ = req_tx.send(Request::Die);
+                        continue;
                     }
+                    // if we're not capturing stderr, there's no reason not
+                    // to break immediately
+                    break 'outer;
                 }
                 Ok(request) => state.handle(tx, ded_tx, request)?,
                 Err(TryRecvError::Empty) => break,
-- 
2.43.0


From 373b289eb3f3ce1ca90241c714b94f9ebbb33d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:44 +0000
Subject: [PATCH 38/39] fix: close the descriptors again if stderr can't be
 captured

---
 src/stderr_capture.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index d8a8abc..f596240 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -176,6 +176,8 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     let real_stderr = match dup(STDERR_FD) {
         Ok(x) => x,
         Err(x) => {
+            close(r);
+            close(w);
             let _ = output.tx.send(crate::Request::StderrLine(format!(
                 "dup(STDERR_FD) returned error {:?} when attempting to capture stderr.",
                 x
@@ -186,6 +188,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     if let Err(x) = dup2(w, STDERR_FD) {
         close(r);
         close(w);
+        close(real_stderr);
         let _ = output.tx.send(crate::Request::StderrLine(format!(
             "dup2() returned error {:?} when attempting to capture stderr.",
             x
-- 
2.43.0


From 8bc31f43b6e044c152fd333d4a5527f3568089b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:35 +0000
Subject: [PATCH 39/39] fix: keep the style and colors of a prompt that has no
 text

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 09570b4..594e449 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -726,7 +726,7 @@ impl Output {
     {
         let line: Line = line.into();
         self.send(Request::Prompt {
-            line: if line.is_empty() { None } else { Some(line) },
+            line: Some(line),
             input_allowed,
             clear_input,
         })
-- 
2.43.0

