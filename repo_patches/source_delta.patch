From a1eaf2bc3d0eea9010c63ff3c55f17b2924e683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 01/45] hooks: let verification choose the initial screen size
 and age

Only compiled with TSM_VERIF_HOOKS.
---
 src/tsm/tsm-screen.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b8202d4..03da11c 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -473,6 +473,18 @@ static inline unsigned int to_abs_y(struct tsm_screen *con, unsigned int y)
 	return con->margin_top + y;
 }
 
+#ifdef TSM_VERIF_HOOKS
+/* Verification hooks: start with a small screen so that every line is allocated
+ * tightly, and move the age counter close to its overflow. */
+unsigned int tsm_verif_initial_cols = 80;
+unsigned int tsm_verif_initial_rows = 24;
+
+void tsm_verif_set_age(struct tsm_screen *con, tsm_age_t age)
+{
+	con->age_cnt = age;
+}
+#endif
+
 SHL_EXPORT
 int tsm_screen_new(struct tsm_screen **out, tsm_log_t log, void *log_data)
 {
@@ -501,7 +513,12 @@ int tsm_screen_new(struct tsm_screen **out, tsm_log_t log, void *log_data)
 	if (ret)
 		goto err_free;
 
+#ifdef TSM_VERIF_HOOKS
+	ret = tsm_screen_resize(con, tsm_verif_initial_cols,
+				tsm_verif_initial_rows);
+#else
 	ret = tsm_screen_resize(con, 80, 24);
+#endif
 	if (ret)
 		goto err_free;
 
-- 
2.43.0


From d64a156a6e790f55045fe417b4a458ec95cf43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 02/45] fix: reject ill-formed UTF-8 instead of decoding it

The input byte was sign-extended, so 0xC0 and 0xC1 were accepted as lead
bytes (C0 9B decoded to ESC), and overlong three and four byte forms,
surrogates and values above U+10FFFF were passed on as characters.
---
 src/tsm/tsm-unicode.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index bc1609a..e647d64 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -501,7 +501,7 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 	if (!mach)
 		return TSM_UTF8_START;
 
-	c = ci;
+	c = (uint8_t)ci;
 
 	switch (mach->state) {
 	case TSM_UTF8_START:
@@ -536,14 +536,18 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 		break;
 	case TSM_UTF8_EXPECT3:
 		mach->ch |= (c & 0x3F) << 12;
-		if ((c & 0xC0) == 0x80)
+		/* reject overlong encodings and values above U+10FFFF, too */
+		if ((c & 0xC0) == 0x80 &&
+		    mach->ch >= 0x10000 && mach->ch <= 0x10ffff)
 			mach->state = TSM_UTF8_EXPECT2;
 		else
 			mach->state = TSM_UTF8_REJECT;
 		break;
 	case TSM_UTF8_EXPECT2:
 		mach->ch |= (c & 0x3F) << 6;
-		if ((c & 0xC0) == 0x80)
+		/* reject overlong encodings and surrogates, too */
+		if ((c & 0xC0) == 0x80 && mach->ch >= 0x800 &&
+		    !(mach->ch >= 0xd800 && mach->ch <= 0xdfff))
 			mach->state = TSM_UTF8_EXPECT1;
 		else
 			mach->state = TSM_UTF8_REJECT;
-- 
2.43.0


From 3f038ef1f6f41b1e382553491603741d344117cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 03/45] fix: do not sign-extend input bytes in 8bit mode

Bytes 0x80..0xff were passed to the parser as 0xffffff80..0xffffffff, so
neither C1 controls nor GR characters worked in 8bit mode.
---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 82dca19..370af27 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2522,7 +2522,7 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 					   (int)u8[i]);
 			parse_data(vte, u8[i] & 0x7f);
 		} else if (vte->flags & TSM_VTE_FLAG_8BIT_MODE) {
-			parse_data(vte, u8[i]);
+			parse_data(vte, (uint8_t)u8[i]);
 		} else {
 			state = tsm_utf8_mach_feed(vte->mach, u8[i]);
 			if (state == TSM_UTF8_ACCEPT ||
-- 
2.43.0


From eb664cbae90f938b5d7f96089be9bab329f29795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 04/45] fix: make symbol ids match their index in the symbol
 table

The first composed symbol got id TSM_UCS4_MAX + 3, that is index 2, but it
is stored at index 1. Retrieving a symbol returned the string of the next
one or none at all.
---
 src/tsm/tsm-unicode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index e647d64..7eb708c 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -155,7 +155,7 @@ int tsm_symbol_table_new(struct tsm_symbol_table **out)
 		return -ENOMEM;
 	memset(tbl, 0, sizeof(*tbl));
 	tbl->ref = 1;
-	tbl->next_id = TSM_UCS4_MAX + 2;
+	tbl->next_id = TSM_UCS4_MAX + 1;
 	shl_htable_init(&tbl->symbols, cmp_ucs4, hash_ucs4, NULL);
 
 	ret = shl_array_new(&tbl->index, sizeof(uint32_t*), 4);
-- 
2.43.0


From 5a82a4a6b61a9cfbec556659a4b058946eb7d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 05/45] fix: free the right pointer when adding a symbol fails

---
 src/tsm/tsm-unicode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index 7eb708c..f6f13bb 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -307,7 +307,8 @@ err_symbol:
 	shl_htable_remove(&tbl->symbols, nval, hash_ucs4(nval, NULL), NULL);
 err_id:
 	--tbl->next_id;
-	free(nval);
+	/* nval points behind the hidden ID prefix */
+	free(nval - 1);
 	return sym;
 }
 
-- 
2.43.0


From aa168e28d252753417faebe9c3c2c7217dcad355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 06/45] fix: do not move cells beyond the line in insert mode

With a wide character in the last column "size_x - len" is computed as
unsigned and the comparison always holds, so memmove() is called with a
huge length.
---
 src/tsm/tsm-screen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 03da11c..7364ee9 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -404,7 +404,7 @@ static void screen_write(struct tsm_screen *con, unsigned int x,
 	line = con->lines[y];
 
 	if ((con->flags & TSM_SCREEN_INSERT_MODE) &&
-	    (int)x < ((int)con->size_x - len)) {
+	    x + len < con->size_x) {
 		line->age = con->age_cnt;
 		memmove(&line->cells[x + len], &line->cells[x],
 			sizeof(struct cell) * (con->size_x - len - x));
-- 
2.43.0


From 9e4ae8444614cd7cb79aaafc80116dcf865927f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 07/45] fix: keep the cursor inside the screen after a wide
 character

A wide character in the last column moved the cursor to size_x + 1, and
tab_left() then reads behind the tab ruler.
---
 src/tsm/tsm-screen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 7364ee9..3e9cd6a 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1154,6 +1154,10 @@ void tsm_screen_write(struct tsm_screen *con, tsm_symbol_t ch,
 	}
 
 	screen_write(con, con->cursor_x, con->cursor_y, ch, len, attr);
+
+	/* a wide character in the last column is cut off */
+	if (len > con->size_x - con->cursor_x)
+		len = con->size_x - con->cursor_x;
 	move_cursor(con, con->cursor_x + len, con->cursor_y);
 }
 
-- 
2.43.0


From 6e90062000f3566f48b42028970596405f30d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 08/45] fix: reserve space for line breaks when copying a
 selection

Full lines of four byte characters overflow the buffer.
---
 src/tsm/tsm-selection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 7821f03..567b822 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -349,7 +349,8 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
 static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
 {
 	// 4 is the max size of a Unicode character
-	return con->size_x * num_lines * 4 + 1;
+	// and every line is followed by a line break
+	return (con->size_x * 4 + 1) * num_lines + 1;
 }
 
 /*
-- 
2.43.0


From 4c7c73fc0e895c525f7e72bcd1a6c3093e6c7a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 09/45] fix: start at the first row when a selection begins in
 the scrollback

If the start of the selection was scrolled into the scrollback buffer its
row is SELECTION_TOP and copying reads con->lines[-1].
---
 src/tsm/tsm-selection.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 567b822..d6abcb0 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -290,6 +290,11 @@ static int selection_count_lines(struct selection_pos *start, struct selection_p
 		return 0;
 	}
 
+	/* Selection starts in the scroll back buffer */
+	if (start->line) {
+		return end->y + 1;
+	}
+
 	return end->y - start->y + 1;
 }
 
@@ -397,7 +402,9 @@ static int copy_lines(struct tsm_screen *con, struct selection_pos *start, struc
 		return pos;
 	}
 
-	for (i = start->y; i <= end->y; i++) {
+	/* if the selection starts in the scroll back buffer, start->y is not a
+	 * row of the screen */
+	for (i = start->line ? 0 : start->y; i <= end->y; i++) {
 		line_len = calc_selection_line_len(con, start, end, i);
 
 		line_x = 0;
-- 
2.43.0


From 30aa10d56d69728f9b077cb9169f9da2f7875109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 10/45] fix: order selections in the scrollback buffer
 correctly

A selection from the newest scrollback line upwards was never reordered,
and one whose start was dropped from the buffer was reordered wrongly.
Both copied the wrong lines.
---
 src/tsm/tsm-selection.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index d6abcb0..dcaf53c 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -199,6 +199,11 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 		return;
 	}
 
+	/* start is above everything, no need to reorder */
+	if ((*start)->line == NULL && (*start)->y == SELECTION_TOP) {
+		return;
+	}
+
 	if ((*start)->line && (*end)->line) {
 		/* single line selection */
 		if ((*start)->line == (*end)->line) {
@@ -217,9 +222,10 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 		 * need to change start and end
 		*/
 		iter = (*end)->line;
-		while (iter && iter != con->sb_last) {
+		while (iter) {
 			if (iter == (*start)->line) {
 				swap_selections(start, end);
+				break;
 			}
 
 			iter = iter->next;
-- 
2.43.0


From d532e9c517f9cd41d715aead5aad02d77e79e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 11/45] fix: copy empty cells as spaces and empty rows as line
 breaks

Cells that were skipped by cursor motion were copied as NUL bytes, the
second cell of a wide character as whatever it contained before, and the
line break of a row was lost if the selection starts behind its text.
---
 src/tsm/tsm-selection.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index dcaf53c..b35c354 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -127,12 +127,13 @@ void tsm_screen_selection_target(struct tsm_screen *con,
 }
 
 /* calculates the line length from the beginning to the last non zero character */
-static unsigned int calc_line_len(struct line *line)
+static unsigned int calc_line_len(struct tsm_screen *con, struct line *line)
 {
 	unsigned int line_len = 0;
 	int i;
 
-	for (i = 0; i < line->size; i++) {
+	/* cells beyond the screen are not visible */
+	for (i = 0; i < line->size && i < con->size_x; i++) {
 		if (line->cells[i].ch != 0) {
 			line_len = i + 1;
 		}
@@ -144,17 +145,14 @@ static unsigned int calc_line_len(struct line *line)
 /* TODO: tsm_ucs4_to_utf8 expects UCS4 characters, but a cell contains a
  * tsm-symbol (which can contain multiple UCS4 chars). Fix this when introducing
  * support for combining characters. */
-static unsigned int copy_line(struct line *line, char *buf,
+static unsigned int copy_line(struct tsm_screen *con, struct line *line, char *buf,
 			      unsigned int start, unsigned int len)
 {
 	unsigned int i, end;
 	char *pos = buf;
 	int line_len;
 
-	line_len = calc_line_len(line);
-	if (start > line_len) {
-		return 0;
-	}
+	line_len = calc_line_len(con, line);
 
 	end = start + len;
 
@@ -163,7 +161,11 @@ static unsigned int copy_line(struct line *line, char *buf,
 	}
 
 	for (i = start; i < line->size && i < end; ++i) {
-		if (i < line->size || !line->cells[i].ch)
+		/* second half of a wide character */
+		if (!line->cells[i].width)
+			continue;
+
+		if (line->cells[i].ch)
 			pos += tsm_ucs4_to_utf8(line->cells[i].ch, pos);
 		else
 			pos += tsm_ucs4_to_utf8(' ', pos);
@@ -384,7 +386,7 @@ static int copy_lines_sb(struct tsm_screen *con, struct selection_pos *start, st
 		}
 
 		line_len = calc_selection_line_len_sb(con, start, end, iter);
-		pos += copy_line(iter, &(buf[pos]), line_x, line_len);
+		pos += copy_line(con, iter, &(buf[pos]), line_x, line_len);
 
 		if (iter == con->sb_last || iter == end->line) {
 			break;
@@ -418,7 +420,7 @@ static int copy_lines(struct tsm_screen *con, struct selection_pos *start, struc
 			line_x = start->x;
 		}
 
-		pos += copy_line(con->lines[i], &(buf[pos]), line_x, line_len);
+		pos += copy_line(con, con->lines[i], &(buf[pos]), line_x, line_len);
 	}
 
 	return pos;
-- 
2.43.0


From 9b7e783cfc33a4886d23ec846954e72644b0c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 12/45] fix: report a failed allocation when copying an empty
 selection

---
 src/tsm/tsm-selection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index b35c354..8eb5999 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -456,6 +456,9 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	if (start->y == SELECTION_TOP && start->line == NULL &&
 		end->y == SELECTION_TOP && end->line == NULL) {
 		*out = strdup("");
+		if (!*out) {
+			return -ENOMEM;
+		}
 		return 0;
 	}
 
-- 
2.43.0


From 9f7fe30858690613e59432df6b0da89a70377bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 13/45] fix: keep selections inside the screen

Coordinates outside of the screen, passed in or left behind by a resize or
by scrolling down, made copying read con->lines[] out of bounds and drawing
invert all cells up to the end of the screen.
---
 src/tsm/tsm-render.c    | 13 +++++++++++--
 src/tsm/tsm-selection.c | 23 +++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 88ad847..7d2bd2b 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -47,6 +47,7 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 {
 	unsigned int cur_x, cur_y;
 	unsigned int i, j, k;
+	unsigned int sel_start_x, sel_end_x;
 	struct line *iter, *line = NULL;
 	struct cell *cell, empty;
 	struct tsm_screen_attr attr;
@@ -70,6 +71,14 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 	if (con->cursor_y >= con->size_y)
 		cur_y = con->size_y - 1;
 
+	/* the selection may be wider than the screen after a resize */
+	sel_start_x = con->sel_start.x;
+	if (sel_start_x >= con->size_x)
+		sel_start_x = con->size_x - 1;
+	sel_end_x = con->sel_end.x;
+	if (sel_end_x >= con->size_x)
+		sel_end_x = con->size_x - 1;
+
 	/* push each character into rendering pipeline */
 
 	iter = con->sb_pos;
@@ -125,12 +134,12 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 
 			if (con->sel_active) {
 				if (sel_start &&
-				    j == con->sel_start.x) {
+				    j == sel_start_x) {
 					was_sel = in_sel;
 					in_sel = !in_sel;
 				}
 				if (sel_end &&
-				    j == con->sel_end.x) {
+				    j == sel_end_x) {
 					was_sel = in_sel;
 					in_sel = !in_sel;
 				}
diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 8eb5999..e25f909 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -66,6 +66,11 @@ static void selection_set(struct tsm_screen *con, struct selection_pos *sel,
 {
 	struct line *pos;
 
+	if (x >= con->size_x)
+		x = con->size_x - 1;
+	if (y >= con->size_y)
+		y = con->size_y - 1;
+
 	sel->line = NULL;
 	pos = con->sb_pos;
 
@@ -185,6 +190,20 @@ static void swap_selections(struct selection_pos **a, struct selection_pos **b)
 	*b = c;
 }
 
+/*
+ * Move a selection position that is outside of the screen to its border
+ */
+static void clamp_selection(struct tsm_screen *con, struct selection_pos *sel)
+{
+	if (sel->x >= con->size_x) {
+		sel->x = con->size_x - 1;
+	}
+
+	if (!sel->line && sel->y >= (int)con->size_y) {
+		sel->y = con->size_y - 1;
+	}
+}
+
 /*
  * Normalize a selection
  *
@@ -452,6 +471,10 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	start = &start_copy;
 	end   = &end_copy;
 
+	/* the selection may have left the screen by scrolling or resizing */
+	clamp_selection(con, start);
+	clamp_selection(con, end);
+
 	/* invalid selection */
 	if (start->y == SELECTION_TOP && start->line == NULL &&
 		end->y == SELECTION_TOP && end->line == NULL) {
-- 
2.43.0


From 5e8b7ab7f57a90ac6368452c5c4cf89f3a522a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 14/45] fix: do not mistake a selection start above the
 scrollback for each line

While scrolled back, "k - 1" is UINT_MAX for scrollback lines and compares
equal to SELECTION_TOP, so the highlight was toggled on every line.
---
 src/tsm/tsm-render.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 7d2bd2b..0be321d 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -109,13 +109,13 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line ||
-			    (!con->sel_start.line &&
+			    (k > 0 && !con->sel_start.line &&
 			     con->sel_start.y == k - 1))
 				sel_start = true;
 			else
 				sel_start = false;
 			if (con->sel_end.line == line ||
-			    (!con->sel_end.line &&
+			    (k > 0 && !con->sel_end.line &&
 			     con->sel_end.y == k - 1))
 				sel_end = true;
 			else
-- 
2.43.0


From 230ba65efa673060e42fa3881dff271b26f79dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 15/45] fix: keep the numeric scrollback position in sync

Dropping lines from a full or shrunk scrollback buffer and resetting the
position left a number that does not belong to the displayed line.
---
 src/tsm/tsm-screen.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 3e9cd6a..e572601 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -230,13 +230,14 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 		if (con->sb_pos) {
 			if (con->sb_pos == tmp ||
 			    !(con->flags & TSM_SCREEN_FIXED_POS)) {
-				if (con->sb_pos->next) {
+				/* sb_pos_num stays the same as the line in
+				 * front of the position is removed */
+				if (con->sb_pos->next)
 					con->sb_pos = con->sb_pos->next;
-					++con->sb_pos_num;
-				} else {
+				else
 					con->sb_pos = line;
-					con->sb_pos_num = 0;
-				}
+			} else {
+				--con->sb_pos_num;
 			}
 		}
 
@@ -817,6 +818,8 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 		 * remove lines from the TOP of the scrollback buffer. */
 		if (con->sb_pos == line)
 			con->sb_pos = con->sb_first;
+		else
+			--con->sb_pos_num;
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line) {
@@ -948,7 +951,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->age = con->age_cnt;
 
 	con->sb_pos = NULL;
-	con->sb_pos_num = 0;
+	con->sb_pos_num = con->sb_count;
 }
 
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
-- 
2.43.0


From 0d6869a17bebe8af2bc17d2a8945eb7b6d129491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 16/45] fix: use the current attributes for new cells when
 resizing

New cells of the main screen were always initialized with the attributes
saved when switching to the alternate screen, even if that never happened
or was long ago.
---
 src/tsm/tsm-screen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index e572601..b2c097c 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -621,6 +621,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 {
 	struct line **cache;
 	unsigned int i, j, width, diff, start;
+	struct tsm_screen_attr *main_attr;
 	int ret;
 	bool *tab_ruler;
 
@@ -700,6 +701,12 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 	screen_inc_age(con);
 
+	/* def_attr_main is only valid while the alternate screen is active */
+	if (con->flags & TSM_SCREEN_ALTERNATE)
+		main_attr = &con->def_attr_main;
+	else
+		main_attr = &con->def_attr;
+
 	/* clear expansion/padding area */
 	start = x;
 	if (x > con->size_x)
@@ -712,7 +719,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 		for ( ; i < con->main_lines[j]->size; ++i)
 			screen_cell_init_generic(con, &con->main_lines[j]->cells[i],
-				&con->def_attr_main);
+				main_attr);
 
 		/* alt-lines never go into SB, only clear visible cells */
 		i = 0;
-- 
2.43.0


From 890ec433752d418bc1976552b0fa51139f1a3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 17/45] fix: avoid integer overflows in counts passed to the
 screen

tsm_screen_erase_chars() and tsm_screen_sb_page_up/down() with huge counts
wrapped around and erased or scrolled less than requested.
---
 src/tsm/tsm-screen.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b2c097c..d6d46ac 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -58,6 +58,7 @@
 
 #include <errno.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -934,6 +935,8 @@ void tsm_screen_sb_page_up(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_up(con, num * con->size_y);
 }
 
@@ -944,6 +947,8 @@ void tsm_screen_sb_page_down(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_down(con, num * con->size_y);
 }
 
@@ -1584,6 +1589,10 @@ void tsm_screen_erase_chars(struct tsm_screen *con, unsigned int num)
 	else
 		x = con->cursor_x;
 
+	/* never erase beyond the end of the line */
+	if (num > con->size_x - x)
+		num = con->size_x - x;
+
 	screen_erase_region(con, x, con->cursor_y, x + num - 1, con->cursor_y,
 			     false);
 }
-- 
2.43.0


From 54fc4cea255ec9ce163ee96f6b25816dc90d68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 18/45] fix: do not scroll the region when the cursor is
 outside of it

A line feed or wrap on the last row below the scrolling region, and a
reverse index on the first row above it, scrolled the region although the
cursor does not touch its margins.
---
 src/tsm/tsm-screen.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index d6d46ac..2dab25f 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1165,7 +1165,8 @@ void tsm_screen_write(struct tsm_screen *con, tsm_symbol_t ch,
 
 	if (con->cursor_y > last) {
 		move_cursor(con, con->cursor_x, last);
-		screen_scroll_up(con, 1);
+		if (last == con->margin_bottom)
+			screen_scroll_up(con, 1);
 	}
 
 	screen_write(con, con->cursor_x, con->cursor_y, ch, len, attr);
@@ -1256,7 +1257,8 @@ void tsm_screen_move_up(struct tsm_screen *con, unsigned int num,
 	diff = con->cursor_y - size;
 	if (num > diff) {
 		num -= diff;
-		if (scroll)
+		/* only scroll if we hit the margin, not the screen border */
+		if (scroll && con->cursor_y >= con->margin_top)
 			screen_scroll_down(con, num);
 		move_cursor(con, con->cursor_x, size);
 	} else {
@@ -1283,7 +1285,8 @@ void tsm_screen_move_down(struct tsm_screen *con, unsigned int num,
 	diff = size - con->cursor_y - 1;
 	if (num > diff) {
 		num -= diff;
-		if (scroll)
+		/* only scroll if we hit the margin, not the screen border */
+		if (scroll && con->cursor_y <= con->margin_bottom)
 			screen_scroll_up(con, num);
 		move_cursor(con, con->cursor_x, size - 1);
 	} else {
-- 
2.43.0


From f8e808b294269bf9917e05f59544d5cc265c8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 19/45] fix: do not apply the margin twice in origin mode

CHA, VPR, DECRC and leaving the alternate screen pass the absolute row of
the cursor to tsm_screen_move_to(), which adds the top margin in origin mode.
DECRC additionally used the origin mode in effect before restoring it.
---
 src/tsm/tsm-vte.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 370af27..8f6f5f3 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -722,6 +722,19 @@ static void write_console(struct tsm_vte *vte, tsm_symbol_t sym)
 	tsm_screen_write(vte->con, sym, &vte->cattr);
 }
 
+/* move cursor to absolute position, independent of the origin mode */
+static void move_to_abs(struct tsm_vte *vte, unsigned int x, unsigned int y)
+{
+	if (tsm_screen_get_flags(vte->con) & TSM_SCREEN_REL_ORIGIN) {
+		if (y > vte->con->margin_top)
+			y -= vte->con->margin_top;
+		else
+			y = 0;
+	}
+
+	tsm_screen_move_to(vte->con, x, y);
+}
+
 static void reset_state(struct tsm_vte *vte)
 {
 	vte->saved_state.cursor_x = 0;
@@ -754,8 +767,6 @@ static void save_state(struct tsm_vte *vte)
 
 static void restore_state(struct tsm_vte *vte)
 {
-	tsm_screen_move_to(vte->con, vte->saved_state.cursor_x,
-			       vte->saved_state.cursor_y);
 	vte->cattr = vte->saved_state.cattr;
 	to_rgb(vte, &vte->cattr);
 	if (vte->flags & TSM_VTE_FLAG_BACKGROUND_COLOR_ERASE_MODE)
@@ -778,6 +789,8 @@ static void restore_state(struct tsm_vte *vte)
 		vte->flags &= ~TSM_VTE_FLAG_ORIGIN_MODE;
 		tsm_screen_reset_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
 	}
+
+	move_to_abs(vte, vte->saved_state.cursor_x, vte->saved_state.cursor_y);
 }
 
 /*
@@ -1672,8 +1685,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				vte->alt_cursor_y =
 					tsm_screen_get_cursor_y(vte->con);
 			} else {
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_abs(vte, vte->alt_cursor_x,
+					    vte->alt_cursor_y);
 			}
 			continue;
 		case 1049: /* Alternate screen buffer with pre-erase+cursor */
@@ -1691,8 +1704,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			} else {
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_abs(vte, vte->alt_cursor_x,
+					    vte->alt_cursor_y);
 			}
 			continue;
 		case TSM_VTE_MOUSE_EVENT_BTN:
@@ -1833,7 +1846,7 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 			num = 1;
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, x, y + num);
+		move_to_abs(vte, x, y + num);
 		break;
 	case 'F': /* CPL */
 		/* Move cursor up the indicated # of rows, to column 1 */
@@ -1859,8 +1872,8 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		num = vte->csi_argv[0];
 		if (num <= 0)
 			num = 1;
-		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, num - 1, y);
+		tsm_screen_move_line_home(vte->con);
+		tsm_screen_move_right(vte->con, num - 1);
 		break;
 	case 'J':
 		if (vte->csi_flags & CSI_WHAT)
-- 
2.43.0


From bbaa91c800648ae19c712e0199b50c81267decdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 20/45] fix: validate extended SGR colors

A trailing 38 or 48 as 16th parameter read behind the argument array, the
arguments of a truncated or unknown color were interpreted as attributes,
and color values above 255 were truncated to another color.
---
 src/tsm/tsm-vte.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 8f6f5f3..771d37c 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1393,10 +1393,14 @@ static void csi_attribute(struct tsm_vte *vte)
 			/* fallthrough */
 		case 48:
 			val = vte->csi_argv[i];
-			if (vte->csi_argv[i + 1] == 5) { // 256color mode
+			if (i + 1 < vte->csi_argc &&
+			    vte->csi_argv[i + 1] == 5) { // 256color mode
 				if (i + 2 >= vte->csi_argc ||
-					vte->csi_argv[i + 2] < 0) {
+					vte->csi_argv[i + 2] < 0 ||
+					vte->csi_argv[i + 2] > 255) {
 					llog_debug(vte, "invalid 256color SGR");
+					/* don't misinterpret the arguments */
+					i = vte->csi_argc;
 					break;
 				}
 				code = vte->csi_argv[i + 2];
@@ -1419,12 +1423,17 @@ static void csi_attribute(struct tsm_vte *vte)
 					code = -1;
 				}
 				i += 2;
-			} else if (vte->csi_argv[i + 1] == 2) {  // true color mode
+			} else if (i + 1 < vte->csi_argc &&
+				   vte->csi_argv[i + 1] == 2) {  // true color mode
 				if (i + 4 >= vte->csi_argc ||
 					vte->csi_argv[i + 2] < 0 ||
 					vte->csi_argv[i + 3] < 0 ||
-					vte->csi_argv[i + 4] < 0) {
+					vte->csi_argv[i + 4] < 0 ||
+					vte->csi_argv[i + 2] > 255 ||
+					vte->csi_argv[i + 3] > 255 ||
+					vte->csi_argv[i + 4] > 255) {
 						llog_debug(vte, "invalid true color SGR");
+						i = vte->csi_argc;
 						break;
 					}
 				cr = vte->csi_argv[i + 2];
@@ -1434,6 +1443,7 @@ static void csi_attribute(struct tsm_vte *vte)
 				i += 4;
 			} else {
 				llog_debug(vte, "invalid SGR");
+				i = vte->csi_argc;
 				break;
 			}
 			if (val == 38) {
-- 
2.43.0


From 9cc681147a43a78d33be99fb7324065b5d59b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 21/45] fix: report pending output when dispatching a pty

If the input queue was drained but pty_write() stopped early, the caller was
not told to dispatch again. With edge-triggered events the remaining output
stalls.
---
 src/shared/shl-pty.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 8c8bb32..b6ff568 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -392,14 +392,14 @@ static int pty_read(struct shl_pty *pty)
 
 int shl_pty_dispatch(struct shl_pty *pty)
 {
-	int r;
+	int r, w;
 
 	if (!shl_pty_is_open(pty))
 		return -ENODEV;
 
 	r = pty_read(pty);
-	pty_write(pty);
-	return r;
+	w = pty_write(pty);
+	return r ? r : w;
 }
 
 int shl_pty_write(struct shl_pty *pty, const char *u8, size_t len)
-- 
2.43.0


From 3a964ea7867d4cb38b25831defa980a87c38b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 22/45] fix: re-arm the pty in the bridge

Adding an fd that is already part of the epoll set fails with EEXIST and
does not trigger a new edge, so unfinished ptys were never dispatched again.
---
 src/shared/shl-pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index b6ff568..4c14798 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -484,7 +484,7 @@ int shl_pty_bridge_dispatch_pty(int bridge, struct shl_pty *pty)
 		up.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET;
 		up.data.ptr = pty;
 		epoll_ctl(bridge,
-			  EPOLL_CTL_ADD,
+			  EPOLL_CTL_MOD,
 			  shl_pty_get_fd(pty),
 			  &up);
 	}
-- 
2.43.0


From 47c1391eeaa5a80718e5f3e8e8019036311987d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 23/45] fix: map all non-ASCII keyboard input to '?' in 7bit
 mode

Characters above U+00FF without bit 7 set were truncated to another one.
---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 771d37c..f6629a3 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3117,7 +3117,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	if (unicode != TSM_VTE_INVALID) {
 		if (vte->flags & TSM_VTE_FLAG_7BIT_MODE) {
 			val = unicode;
-			if (unicode & 0x80) {
+			if (unicode > 0x7f) {
 				llog_debug(vte, "invalid keyboard input in 7bit mode U+%x; mapping to '?'",
 					   unicode);
 				val = '?';
-- 
2.43.0


From 75d4c79561d8577f4b61b9335832419925490def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 24/45] fix: report a valid cursor position

With a pending wrap the reported column was beyond the screen, and in origin
mode the row was not relative to the scrolling region.
---
 src/tsm/tsm-vte.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index f6629a3..2f9339c 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1788,6 +1788,16 @@ static void csi_dsr(struct tsm_vte *vte)
 	} else if (vte->csi_argv[0] == 6) {
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
+		/* the cursor is on the last column if a wrap is pending */
+		if (x >= tsm_screen_get_width(vte->con))
+			x = tsm_screen_get_width(vte->con) - 1;
+		/* report the coordinates that CUP uses */
+		if (vte->flags & TSM_VTE_FLAG_ORIGIN_MODE) {
+			if (y > vte->con->margin_top)
+				y -= vte->con->margin_top;
+			else
+				y = 0;
+		}
 		len = snprintf(buf, sizeof(buf), "\e[%u;%uR", y + 1, x + 1);
 		if (len >= sizeof(buf))
 			vte_write(vte, "\e[0;0R", 6);
-- 
2.43.0


From 0fbab413ea8b12ad870de0a4b58b8181c6c7b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 25/45] fix: export the mouse and scrollback position functions

They are part of libtsm.h and of the symbol list but were hidden, so no
application could link against them. Like all other public functions, also
ignore a NULL vte.
---
 src/tsm/tsm-screen.c | 2 ++
 src/tsm/tsm-vte.c    | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 2dab25f..418dc50 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -966,6 +966,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->sb_pos_num = con->sb_count;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 {
 	if (!con) {
@@ -975,6 +976,7 @@ unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 	return con->sb_count;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_pos(struct tsm_screen *con)
 {
 	if (!con) {
diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 2f9339c..c401ddf 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2571,6 +2571,9 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 SHL_EXPORT
 void tsm_vte_set_backspace_sends_delete(struct tsm_vte *vte, bool enable)
 {
+	if (!vte)
+		return;
+
 	vte->backspace_sends_delete = enable;
 }
 
@@ -3152,6 +3155,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	return false;
 }
 
+SHL_EXPORT
 bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
@@ -3160,6 +3164,10 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
+	if (!vte) {
+		return false;
+	}
+
 	/* drop move event if we don't wait for move events */
 	if ((vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10 || vte->mouse_event != TSM_VTE_MOUSE_EVENT_ANY) && (event & TSM_MOUSE_EVENT_MOVED)) {
 		return false;
-- 
2.43.0


From 75c1b5c3314396a68fe386cdd5e3ff3cc9de9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 26/45] fix: do not truncate mouse reports with large
 coordinates

---
 src/tsm/tsm-vte.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index c401ddf..30956c5 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3160,7 +3160,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
 {
-	char buffer[24];
+	char buffer[48];
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
@@ -3226,7 +3226,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			vte->mouse_last_row = cell_y;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
@@ -3236,7 +3236,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			pressed = true;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
-- 
2.43.0


From 7019b74ba781a638aaf6c742348a120596b7ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 27/45] fix: do not let X10 mouse coordinates wrap around

---
 src/tsm/tsm-vte.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 30956c5..eb5370e 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3191,17 +3191,17 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10) {
 		/* + 0x20 to start in the range of visible characters
 		 * and + 1 to start at 1,1 */
-		cell_x += 0x21;
-		cell_y += 0x21;
-
-		if (cell_x > 0xff) {
-			cell_x = 0xff;
+		if (cell_x > 0xff - 0x21) {
+			cell_x = 0xff - 0x21;
 		}
 
-		if (cell_y > 0xff) {
-			cell_y = 0xff;
+		if (cell_y > 0xff - 0x21) {
+			cell_y = 0xff - 0x21;
 		}
 
+		cell_x += 0x21;
+		cell_y += 0x21;
+
 		if (event & TSM_MOUSE_EVENT_RELEASED) {
 			/* translates to released but the information which key is
 			 * released gets lost by design of this encoding scheme */
-- 
2.43.0


From 55ad5e2396c69a9e9d612d62d2c8582ff1319556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 28/45] fix: do not report the mouse wheel as a click with
 shift in X10 mode

---
 src/tsm/tsm-vte.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index eb5370e..0ffeb27 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3173,18 +3173,19 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		return false;
 	}
 
+	/* the modifiers start at bit 2, so the wheel has its own range */
+	if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
+		button = 64;
+	} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
+		button = 65;
+	}
+
 	if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_SGR || vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL) {
 		/* internally we use zero indexing but the xterm spec requires the
 		 * top left cell to have the coordinates 1,1 */
 		cell_x++;
 		cell_y++;
 
-		if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
-			button = 64;
-		} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
-			button = 65;
-		}
-
 		reply_flags = button | modifiers;
 	}
 
-- 
2.43.0


From 335013daf986317e28f4d52de1510c6273761cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 29/45] fix: tell the terminal when mouse tracking ends

Resetting a mouse mode or the whole vte stops mouse reports, but the mouse
callback still announced the old event type or was not called at all, so the
terminal went on tracking. Disabling X10 mode also left its event type enabled.
---
 src/tsm/tsm-vte.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 0ffeb27..fe838d7 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -825,6 +825,10 @@ void tsm_vte_reset(struct tsm_vte *vte)
 	vte->g2 = &tsm_vte_unicode_lower;
 	vte->g3 = &tsm_vte_unicode_upper;
 
+	if (vte->mouse_cb && vte->mouse_mode && vte->mouse_event)
+		vte->mouse_cb(vte, TSM_MOUSE_TRACK_DISABLE, false,
+			      vte->mouse_data);
+
 	vte->mouse_mode = 0;
 	vte->mouse_event = 0;
 	vte->mouse_last_col = 0;
@@ -1629,7 +1633,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			continue;
 		case TSM_VTE_MOUSE_MODE_X10:
 			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
-			vte->mouse_event = TSM_VTE_MOUSE_EVENT_BTN;
+			vte->mouse_event = set ? TSM_VTE_MOUSE_EVENT_BTN : 0;
 
 			if (vte->mouse_cb) {
 			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
@@ -1738,7 +1742,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			}
 
 			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
+			    vte->mouse_cb(vte, set ? vte->mouse_event : 0, false, vte->mouse_data);
 			    continue;
 			}
 			continue;
@@ -1750,7 +1754,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			}
 
 			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, set, vte->mouse_data);
+			    vte->mouse_cb(vte, set ? vte->mouse_event : 0, set, vte->mouse_data);
 			    continue;
 			}
 			continue;
-- 
2.43.0


From 630b3d0879f25e0064679f8edc7c91a9d0424705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 30/45] fix: send the escape prefix once with local echo

The prefix was applied to the answers to the echoed input, or dropped when the
echoed input reset the vte.
---
 src/tsm/tsm-vte.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index fe838d7..fd1be26 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -682,6 +682,7 @@ unsigned int tsm_vte_get_mouse_event(struct tsm_vte *vte)
 static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 			    bool raw, const char *file, int line)
 {
+	bool prepend;
 #ifdef BUILD_ENABLE_DEBUG
 	/* in debug mode we check that escape sequences are always <0x7f so they
 	 * are correctly parsed by non-unicode and non-8bit-mode clients. */
@@ -696,18 +697,20 @@ static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 	}
 #endif
 
+	/* parsing the echo may reset all flags */
+	prepend = vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE;
+	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
+
 	/* in local echo mode, directly parse the data again */
 	if (!vte->parse_cnt && !(vte->flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE)) {
-		if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+		if (prepend)
 			tsm_vte_input(vte, "\e", 1);
 		tsm_vte_input(vte, u8, len);
 	}
 
-	if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+	if (prepend)
 		vte->write_cb(vte, "\e", 1, vte->data);
 	vte->write_cb(vte, u8, len, vte->data);
-
-	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
 }
 
 #define vte_write(_vte, _u8, _len) \
-- 
2.43.0


From 2d76a4b39549212ccaa95ea5c2a7758f2a3b545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 31/45] fix: zero new array entries that fit into the old
 allocation

---
 src/shared/shl-array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-array.h b/src/shared/shl-array.h
index f776807..1928419 100644
--- a/src/shared/shl-array.h
+++ b/src/shared/shl-array.h
@@ -115,10 +115,11 @@ static inline int shl_array_zresize(struct shl_array *arr, size_t size)
 
 		arr->data = tmp;
 		arr->size = newsize;
+	}
 
+	if (size > arr->length)
 		memset(((uint8_t*)arr->data) + arr->element_size * arr->length,
 		       0, arr->element_size * (size - arr->length));
-	}
 
 	arr->length = size;
 	return 0;
-- 
2.43.0


From 72739be5d5172c164a67d1e19e155d903d472241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 32/45] fix: reset the saved cursor of the alternate screen

After a reset, leaving the alternate screen restored a cursor position saved
before the reset.
---
 src/tsm/tsm-vte.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index fd1be26..dda5f50 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -742,6 +742,8 @@ static void reset_state(struct tsm_vte *vte)
 {
 	vte->saved_state.cursor_x = 0;
 	vte->saved_state.cursor_y = 0;
+	vte->alt_cursor_x = 0;
+	vte->alt_cursor_y = 0;
 	vte->saved_state.origin_mode = false;
 	vte->saved_state.wrap_mode = true;
 	vte->saved_state.gl = &vte->g0;
-- 
2.43.0


From 827de0bde54f9758a4fd964c29de41018bcf36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 33/45] fix: erase the alternate screen on a hard reset

It kept its contents, and the one of a new vte did not use the colors of the
vte.
---
 src/tsm/tsm-vte.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index dda5f50..b481202 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -455,6 +455,15 @@ static void copy_bcolor(struct tsm_screen_attr *dest,
 	dest->bb = src->bb;
 }
 
+/* erase both screens; the main screen is the active one afterwards */
+static void erase_screens(struct tsm_vte *vte)
+{
+	tsm_screen_set_flags(vte->con, TSM_SCREEN_ALTERNATE);
+	tsm_screen_erase_screen(vte->con, false);
+	tsm_screen_reset_flags(vte->con, TSM_SCREEN_ALTERNATE);
+	tsm_screen_erase_screen(vte->con, false);
+}
+
 SHL_EXPORT
 int tsm_vte_new(struct tsm_vte **out, struct tsm_screen *con,
 		tsm_vte_write_cb write_cb, void *data,
@@ -493,7 +502,7 @@ int tsm_vte_new(struct tsm_vte **out, struct tsm_screen *con,
 		goto err_free;
 
 	tsm_vte_reset(vte);
-	tsm_screen_erase_screen(vte->con, false);
+	erase_screens(vte);
 
 	llog_debug(vte, "new vte object");
 	tsm_screen_ref(vte->con);
@@ -853,7 +862,7 @@ void tsm_vte_hard_reset(struct tsm_vte *vte)
 		return;
 
 	tsm_vte_reset(vte);
-	tsm_screen_erase_screen(vte->con, false);
+	erase_screens(vte);
 	tsm_screen_clear_sb(vte->con);
 	tsm_screen_move_to(vte->con, 0, 0);
 }
-- 
2.43.0


From 02f117e0f1fa37da03507ee15b4e9d372a2e2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 34/45] fix: ignore escape sequences with unknown intermediates

Intermediate characters that we do not know were dropped, so ESC # 8 (DECALN)
restored the cursor like ESC 8, and ESC ( % 5 selected the Finnish charset.
---
 src/tsm/tsm-vte.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index b481202..4007af4 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -110,6 +110,7 @@ enum parser_action {
 #define CSI_PLUS	0x0100		/* CSI: + */
 #define CSI_POPEN	0x0200		/* CSI: ( */
 #define CSI_PCLOSE	0x0400		/* CSI: ) */
+#define CSI_OTHER	0x0800		/* CSI: any other character */
 
 /* max CSI arguments */
 #define CSI_ARG_MAX 16
@@ -1030,6 +1031,9 @@ static void do_collect(struct tsm_vte *vte, uint32_t data)
 	case ')':
 		vte->csi_flags |= CSI_PCLOSE;
 		break;
+	default:
+		vte->csi_flags |= CSI_OTHER;
+		break;
 	}
 }
 
@@ -1062,13 +1066,13 @@ static void do_param(struct tsm_vte *vte, uint32_t data)
 
 static bool set_charset(struct tsm_vte *vte, tsm_vte_charset *set)
 {
-	if (vte->csi_flags & CSI_POPEN)
+	if (vte->csi_flags == CSI_POPEN)
 		vte->g0 = set;
-	else if (vte->csi_flags & CSI_PCLOSE)
+	else if (vte->csi_flags == CSI_PCLOSE)
 		vte->g1 = set;
-	else if (vte->csi_flags & CSI_MULT)
+	else if (vte->csi_flags == CSI_MULT)
 		vte->g2 = set;
-	else if (vte->csi_flags & CSI_PLUS)
+	else if (vte->csi_flags == CSI_PLUS)
 		vte->g3 = set;
 	else
 		return false;
@@ -1150,7 +1154,7 @@ static void do_esc(struct tsm_vte *vte, uint32_t data)
 			return;
 		break;
 	case 'F':
-		if (vte->csi_flags & CSI_SPACE) {
+		if (vte->csi_flags == CSI_SPACE) {
 			/* S7C1T */
 			/* Disable 8bit C1 mode */
 			vte->flags &= ~TSM_VTE_FLAG_USE_C1;
@@ -1158,7 +1162,7 @@ static void do_esc(struct tsm_vte *vte, uint32_t data)
 		}
 		break;
 	case 'G':
-		if (vte->csi_flags & CSI_SPACE) {
+		if (vte->csi_flags == CSI_SPACE) {
 			/* S8C1T */
 			/* Enable 8bit C1 mode */
 			vte->flags |= TSM_VTE_FLAG_USE_C1;
-- 
2.43.0


From f6a6dbda7dcfdc12035d36f3209dabc714d0fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 35/45] fix: do not execute private CSI sequences as standard
 ones

Sequences like CSI > 4 ; 2 m (xterm modifyOtherKeys) or CSI ? 1 r have a
different meaning than the ones without the private marker. We do not support
them, so ignore them instead of setting attributes or margins.
---
 src/tsm/tsm-vte.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 4007af4..6fcde81 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1828,6 +1828,25 @@ static void csi_dsr(struct tsm_vte *vte)
 	}
 }
 
+/* check whether a CSI sequence is valid with the collected flags */
+static bool csi_flags_valid(struct tsm_vte *vte, uint32_t data)
+{
+	switch (vte->csi_flags) {
+	case 0:
+		return true;
+	case CSI_WHAT:
+		return data == 'J' || data == 'K' || data == 'h' ||
+		       data == 'l' || data == 'n';
+	case CSI_GT:
+		return data == 'c' || data == 'p';
+	case CSI_BANG:
+	case CSI_DQUOTE:
+		return data == 'p';
+	default:
+		return false;
+	}
+}
+
 static void do_csi(struct tsm_vte *vte, uint32_t data)
 {
 	int num, x, y, upper, lower;
@@ -1836,6 +1855,12 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 	if (vte->csi_argc < CSI_ARG_MAX)
 		vte->csi_argc++;
 
+	if (!csi_flags_valid(vte, data)) {
+		llog_debug(vte, "unhandled CSI sequence %c with flags %x",
+			   data, vte->csi_flags);
+		return;
+	}
+
 	switch (data) {
 	case 'A': /* CUU */
 		/* move cursor up */
-- 
2.43.0


From 292968dbeed6104f02be6da18a91f222d7e59b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 36/45] fix: mark the screen as changed when resizing

A cursor with a pending line wrap is drawn on the last column but leaves it when
the width grows. The cell that it leaves was not marked as changed.
---
 src/tsm/tsm-screen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 418dc50..b183b40 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -701,6 +701,8 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	}
 
 	screen_inc_age(con);
+	/* TODO: more sophisticated ageing */
+	con->age = con->age_cnt;
 
 	/* def_attr_main is only valid while the alternate screen is active */
 	if (con->flags & TSM_SCREEN_ALTERNATE)
-- 
2.43.0


From a5afd1e904355f701a323dbb1d486ec09d12f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 37/45] fix: treat empty SGR parameters as 0

Only a completely empty parameter list was, but the default applies to each
parameter: CSI ; 1 m resets the attributes before enabling bold.
---
 src/tsm/tsm-vte.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 6fcde81..25e383e 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1268,8 +1268,7 @@ static void csi_attribute(struct tsm_vte *vte)
 
 	for (i = 0; i < vte->csi_argc; ++i) {
 		switch (vte->csi_argv[i]) {
-		case -1:
-			break;
+		case -1: /* empty parameters default to 0 */
 		case 0:
 			copy_fcolor(&vte->cattr, &vte->def_attr);
 			copy_bcolor(&vte->cattr, &vte->def_attr);
-- 
2.43.0


From aa6d1c558a2d3689f6780130678306753f1f402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 38/45] fix: send the right codes for the keypad operators

KP_Equal sent the code of KP_Divide, and in application mode the codes of
KP_Divide (SS3 o) and KP_Multiply (SS3 j) were mixed up.
---
 src/tsm/tsm-vte.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 25e383e..8f7635d 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2998,15 +2998,20 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 				vte_write(vte, ".", 1);
 			return true;
 		case XKB_KEY_KP_Equal:
+			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
+				vte_write(vte, "\eOX", 3);
+			else
+				vte_write(vte, "=", 1);
+			return true;
 		case XKB_KEY_KP_Divide:
 			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
-				vte_write(vte, "\eOj", 3);
+				vte_write(vte, "\eOo", 3);
 			else
 				vte_write(vte, "/", 1);
 			return true;
 		case XKB_KEY_KP_Multiply:
 			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
-				vte_write(vte, "\eOo", 3);
+				vte_write(vte, "\eOj", 3);
 			else
 				vte_write(vte, "*", 1);
 			return true;
-- 
2.43.0


From a06c9aa9cbcf118d58e169b37a396f0f18858ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 39/45] fix: do not let the row overflow in origin mode

tsm_screen_move_to() adds the top margin to the row in origin mode. With a huge
row the sum wrapped around and the cursor ended up above the scrolling region
instead of on its last row.
---
 src/tsm/tsm-screen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b183b40..3026e94 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1235,6 +1235,9 @@ void tsm_screen_move_to(struct tsm_screen *con, unsigned int x,
 	if (x >= con->size_x)
 		x = con->size_x - 1;
 
+	/* avoid integer overflows when adding the margin */
+	if (y >= con->size_y)
+		y = con->size_y - 1;
 	y = to_abs_y(con, y);
 	if (y > last)
 		y = last;
-- 
2.43.0


From f8b9db3d14c140b63d5b11edab417cbf747fad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 40/45] fix: do not reorder a selection that starts in the
 scrollback

A selection that starts on a scrollback line and ends on the screen was
reordered by comparing the row of the end with the meaningless row of the
start, so that a selection ending on the first row left of its start
column was copied as an empty string.
---
 src/tsm/tsm-selection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index e25f909..67f3cc6 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -261,6 +261,11 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 		return;
 	}
 
+	/* start is in scroll back buffer and end on screen, no need to reorder */
+	if ((*start)->line) {
+		return;
+	}
+
 	/* reorder one-line selection if selection was created right to left */
 	if ((*start)->y == (*end)->y) {
 		if ((*start)->x > (*end)->x) {
-- 
2.43.0


From 7c6a9f48652d374409f478cae58afd622ed82d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 41/45] fix: do not lose elements whose revealed pointer bits
 are unset

Entries of the hash-table store only those pointer bits that are not
common to all elements. If an element differed from the first one in
nothing but the single revealed bit, its entry was 0 or HTABLE_DELETED,
so the element was lost.
---
 src/shared/shl-htable.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/shared/shl-htable.c b/src/shared/shl-htable.c
index 74e3d09..fa4a674 100644
--- a/src/shared/shl-htable.c
+++ b/src/shared/shl-htable.c
@@ -251,16 +251,16 @@ static COLD void update_common(struct htable *ht, const void *p)
 	unsigned int i;
 	uintptr_t maskdiff, bitsdiff;
 
-	if (ht->elems == 0) {
-		/* Always reveal one bit of the pointer in the bucket,
-		 * so it's not zero or HTABLE_DELETED (1), even if
-		 * hash happens to be 0.  Assumes (void *)1 is not a
-		 * valid pointer. */
-		for (i = sizeof(uintptr_t)*CHAR_BIT - 1; i > 0; i--) {
-			if ((uintptr_t)p & ((uintptr_t)1 << i))
-				break;
-		}
+	/* Always reveal one bit of the pointer in the bucket,
+	 * so it's not zero or HTABLE_DELETED (1), even if
+	 * hash happens to be 0.  Assumes (void *)1 is not a
+	 * valid pointer. */
+	for (i = sizeof(uintptr_t)*CHAR_BIT - 1; i > 0; i--) {
+		if ((uintptr_t)p & ((uintptr_t)1 << i))
+			break;
+	}
 
+	if (ht->elems == 0) {
 		ht->common_mask = ~((uintptr_t)1 << i);
 		ht->common_bits = ((uintptr_t)p & ht->common_mask);
 		ht->perfect_bit = 1;
@@ -270,6 +270,10 @@ static COLD void update_common(struct htable *ht, const void *p)
 	/* Find bits which are unequal to old common set. */
 	maskdiff = ht->common_bits ^ ((uintptr_t)p & ht->common_mask);
 
+	/* The bits revealed so far might all be unset in this pointer. */
+	if (!entry_is_valid((uintptr_t)p & ~(ht->common_mask & ~maskdiff)))
+		maskdiff |= (uintptr_t)1 << i;
+
 	/* These are the bits which go there in existing entries. */
 	bitsdiff = ht->common_bits & maskdiff;
 
@@ -295,7 +299,8 @@ static bool htable_add(struct htable *ht, size_t hash, const void *p)
 	if (ht->elems+1 + ht->deleted > ht->max_with_deleted)
 		rehash_table(ht);
 	assert(p);
-	if (((uintptr_t)p & ht->common_mask) != ht->common_bits)
+	if (((uintptr_t)p & ht->common_mask) != ht->common_bits ||
+	    !entry_is_valid(make_hval(ht, p, 0)))
 		update_common(ht, p);
 
 	ht_add(ht, p, hash);
-- 
2.43.0


From ad2a698db84c3b209db190e7041d064fcd699486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 42/45] fix: detect overflows when aligning to a power of 2

Shifting by the width of the type is undefined, so pushing a huge block
into a ring buffer could shrink it below the data it has to hold.
---
 src/shared/shl-macro.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-macro.h b/src/shared/shl-macro.h
index 67607bd..45943b9 100644
--- a/src/shared/shl-macro.h
+++ b/src/shared/shl-macro.h
@@ -141,7 +141,16 @@ static inline void shl_set_errno(int *r)
 /* align to next higher power-of-2 (except for: 0 => 0, overflow => 0) */
 static inline size_t SHL_ALIGN_POWER2(size_t u)
 {
-	return 1ULL << ((sizeof(u) * 8ULL) - __builtin_clzll(u - 1ULL));
+	unsigned int shift;
+
+	if (u <= 1)
+		return u;
+
+	shift = sizeof(unsigned long long) * 8 - __builtin_clzll(u - 1ULL);
+	if (shift >= sizeof(u) * 8)
+		return 0;
+
+	return (size_t)1 << shift;
 }
 
 /* zero memory or type */
-- 
2.43.0


From 4597904c9492c8caa2382902c091d8375e4844eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 43/45] fix: detect overflows when growing an array

Resizing to a huge length wrapped around in the size computation and
left the array claiming more memory than it has.
---
 src/shared/shl-array.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/shared/shl-array.h b/src/shared/shl-array.h
index 1928419..2d81352 100644
--- a/src/shared/shl-array.h
+++ b/src/shared/shl-array.h
@@ -55,6 +55,9 @@ static inline int shl_array_new(struct shl_array **out, size_t element_size,
 	if (!initial_size)
 		initial_size = 4;
 
+	if (initial_size > SIZE_MAX / element_size)
+		return -ENOMEM;
+
 	arr = malloc(sizeof(*arr));
 	if (!arr)
 		return -ENOMEM;
@@ -109,6 +112,9 @@ static inline int shl_array_zresize(struct shl_array *arr, size_t size)
 
 	if (size > arr->size) {
 		newsize = shl_array_pow2(size);
+		if (newsize < size || newsize > SIZE_MAX / arr->element_size)
+			return -ENOMEM;
+
 		tmp = realloc(arr->data, arr->element_size * newsize);
 		if (!tmp)
 			return -ENOMEM;
@@ -135,6 +141,10 @@ static inline int shl_array_push(struct shl_array *arr, const void *data)
 
 	if (arr->length >= arr->size) {
 		newsize = arr->size * 2;
+		if (newsize < arr->size ||
+		    newsize > SIZE_MAX / arr->element_size)
+			return -ENOMEM;
+
 		tmp = realloc(arr->data, arr->element_size * newsize);
 		if (!tmp)
 			return -ENOMEM;
-- 
2.43.0


From 04e43177b88e9d30c2dcb0fa52e00cd4e391093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 44/45] fix: redraw the view when cells beyond scrollback lines
 change

---
 src/tsm/tsm-screen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 3026e94..5a02f2b 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -995,6 +995,12 @@ void tsm_screen_set_def_attr(struct tsm_screen *con,
 	if (!con || !attr)
 		return;
 	memcpy(&con->def_attr, attr, sizeof(*attr));
+
+	/* cells beyond the end of scrollback lines are drawn with it */
+	if (con->sb_pos) {
+		screen_inc_age(con);
+		con->age = con->age_cnt;
+	}
 }
 
 SHL_EXPORT
-- 
2.43.0


From 1784072824d6f42c422f8e602efb86856c0d4734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:35 +0000
Subject: [PATCH 45/45] fix: selection copy allocates too little for more than
 4 GiB of cells

The size of the buffer was computed in 32 bits, so that the copy of many
scrollback lines on a wide screen wrote beyond its end.
---
 src/tsm/tsm-selection.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 67f3cc6..74ae60b 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -383,11 +383,11 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
 /*
  * Calculate the maximum needed space for the number of lines given
  */
-static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
+static size_t calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
 {
 	// 4 is the max size of a Unicode character
 	// and every line is followed by a line break
-	return (con->size_x * 4 + 1) * num_lines + 1;
+	return ((size_t)con->size_x * 4 + 1) * num_lines + 1;
 }
 
 /*
@@ -455,7 +455,7 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 {
 	struct selection_pos *start, *end;
 	struct selection_pos start_copy, end_copy;
-	int buf_size = 0;
+	size_t buf_size = 0;
 	int pos = 0;
 	int total_lines;
 
-- 
2.43.0

