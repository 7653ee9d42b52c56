From 4e28e636c0c528053e4aa69429b28b4b5c4616c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 01/17] fix: count U+10FFFF, the last code point, without
 overrunning the tables

---
 src/text.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text.h b/src/text.h
index a82179b..3e5bdfe 100644
--- a/src/text.h
+++ b/src/text.h
@@ -53,7 +53,7 @@ typedef uint32_t Charvalue;
 /* Technically, there are far less *scalar values* (what you and I call
  * "characters") in Unicode, but using the max number of *code points* here
  * makes the implementation simpler. See: http://www.unicode.org/glossary/ */
-#define NUM_CHARVALUES  0x10FFFF
+#define NUM_CHARVALUES  0x110000
 
 /* Maximum char size of a single char_to_string() operation, including the
  * null-terminator. It's either the largetst size of an encoded non-graphic
-- 
2.43.0


From b9dfb81709321663d30b3162b781eaf9d7a3950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 02/17] fix: leave room for a suspect marker before <10FFFF>

---
 src/text.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/text.h b/src/text.h
index 3e5bdfe..6ea6a00 100644
--- a/src/text.h
+++ b/src/text.h
@@ -59,8 +59,8 @@ typedef uint32_t Charvalue;
  * null-terminator. It's either the largetst size of an encoded non-graphic
  * character (this happens to be U+10FFFF) OR the size of an astral (non-BMP)
  * combining character, that combines on top of U+25CC DOTTED CIRCLE
- * WITH a suspect marker! */
-#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("<10FFFF>")))
+ * -- either of them WITH a suspect marker! */
+#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("^<10FFFF>")))
 
 BEGIN_ITEM(Char)
     Boolean suspect;
-- 
2.43.0


From 26b948924d442c4dd3c55078e9c3fd75240863ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 03/17] fix: keep leading marks and format characters apart
 from the word after them

Nothing precedes the first character of a text or line, so WB4 does not
apply to it, and nothing extends a newline (TR29 WB3, WB3a).
---
 src/word.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/word.c b/src/word.c
index a229bbe..a52ed5f 100644
--- a/src/word.c
+++ b/src/word.c
@@ -153,18 +153,23 @@ static Char* find_next_boundary(start)
 
     /* WB2: Break at the start and end of text. */
     while (current->next != NULL) {
-        /* Advance all the pointers. */
-        current = skip_to_next(current);
+        /* Advance all the pointers. There is nothing before the first
+         * character that it could extend, so it is never skipped. */
+        current = (current == &dummy) ? start : skip_to_next(current);
         lookbehind = left;
         left = char_property(current);
-        right = char_property(skip_to_next(current));
-        lookahead = char_property(skip_twice(current));
 
         /* WB3: Do not break within CRLF. */
-        if (left == CR && right == LF) continue;
+        if (left == CR && char_property(current->next) == LF) {
+            return current->next;
+        }
 
-        /* WB3a: Otherwise break before and after newlines */
-        if (left == Newline || left == CR || left == LF) break;
+        /* WB3a: Otherwise break before and after newlines; nothing extends
+         * a newline. */
+        if (left == Newline || left == CR || left == LF) return current;
+
+        right = char_property(skip_to_next(current));
+        lookahead = char_property(skip_twice(current));
         /* WB3b */
         if (right == Newline || right == CR || right == LF) break;
 
-- 
2.43.0


From c95aaf9bdee929ecb916cfce3cd806fb2a2f0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 04/17] fix: count word lengths in characters, and no further
 than the table goes

A word of more than MAX_WORDLENGTH bytes was counted outside the table.
---
 src/wordacc.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/wordacc.c b/src/wordacc.c
index 2eb744e..dd54010 100644
--- a/src/wordacc.c
+++ b/src/wordacc.c
@@ -208,6 +208,17 @@ void obtain_matches()
 }
 /**********************************************************************/
 
+long word_length(string)
+char *string;
+{
+    long length = 0;
+    for (; *string; string++)
+	if ((*string & 0xC0) != 0x80)	/* not a UTF-8 continuation byte */
+	    length++;
+    return(min(length, MAX_WORDLENGTH));
+}
+/**********************************************************************/
+
 void process_terms(termtable, length, occurs)
 Termtable *termtable;
 Wac length[], occurs[];
@@ -220,7 +231,8 @@ Wac length[], occurs[];
 	missed = termtable->array[i]->wac.missed;
 	increment_wac(&wacdata.total, count, missed);
 	increment_wac(&length[0], count, missed);
-	increment_wac(&length[strlen(termtable->array[i]->key)], count, missed);
+	increment_wac(&length[word_length(termtable->array[i]->key)], count,
+	missed);
 	if (occurs)
 	{
 	    increment_wac(&occurs[0], 1, (count == missed ? 1 : 0));
-- 
2.43.0


From ace51238a3aac2b074a202c957d40ee895dec7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 05/17] fix: read word accuracy reports with words of any
 length

Lines longer than the buffer were cut into two, and the rest of the
report was then ignored.
---
 src/wacrpt.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index c28d5cd..fce55da 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -32,7 +32,8 @@
 #define TOTAL    " Total\n"
 #define OFFSET   29
 
-static char line[100];
+static char *line;
+static size_t line_size;
 
 /**********************************************************************/
 
@@ -65,7 +66,27 @@ long count, missed;
 static Boolean read_line(f)
 FILE *f;
 {
-    return(fgets(line, sizeof(line) - 1, f) ? True : False);
+    size_t length = 0;
+    char *longer;
+    while (1)
+    {
+	if (line_size - length < 2)
+	{
+	    longer = allocate(line_size * 2 + 100, (size_t) 1);
+	    if (line)
+	    {
+		memcpy(longer, line, length);
+		free(line);
+	    }
+	    line = longer;
+	    line_size = line_size * 2 + 100;
+	}
+	if (!fgets(&line[length], line_size - length, f))
+	    return(length > 0 ? True : False);
+	length += strlen(&line[length]);
+	if (length > 0 && line[length - 1] == '\n')
+	    return(True);
+    }
 }
 /**********************************************************************/
 
-- 
2.43.0


From 1b0fd558f1bb9d7f9347006f2ff532f23d310f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 06/17] fix: read back reports with counts of more than 8
 digits

Such counts widen their column, so what follows was looked for at the
wrong place in the line.
---
 src/accrpt.c | 27 ++++++++++++++++++++++-----
 src/wacrpt.c | 25 +++++++++++++++++++++----
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 9146f66..6eb4daf 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -37,9 +37,9 @@
 #define TITLE    "ocreval Accuracy Report Version " OCREVAL_VERSION "\n"
 #define DIVIDER  "-----------------------------------\n"
 
-#define CLASS_OFFSET  29
-#define CONF_OFFSET   20
-#define LINE_LENGTH   100
+#define CLASS_COLUMNS  3
+#define CONF_COLUMNS   2
+#define LINE_LENGTH    100
 
 static char line[LINE_LENGTH];
 
@@ -137,6 +137,23 @@ long *value1, *value2;
 }
 /**********************************************************************/
 
+/* Returns what follows the given number of columns, which are wider than usual
+ * when a count needs more than 8 digits. */
+static char *after_columns(columns)
+short columns;
+{
+    short i;
+    char *s = line;
+    while (columns-- > 0)
+    {
+        for (; *s == ' '; s++);
+        for (; *s && *s != ' ' && *s != NEWLINE; s++);
+    }
+    for (i = 0; i < 3 && *s == ' '; i++, s++);
+    return(s);
+}
+/**********************************************************************/
+
 static Charvalue read_char(line)
 char *line;
 {
@@ -237,11 +254,11 @@ char *filename;
             while (read_two(f, &value1, &value2)) {
                 /* TODO: bug here: does not handle UTF-8 or <bracket>
                  * <escaped> or {<} properly... */
-                add_conf(accdata, &line[CONF_OFFSET], value1, value2);
+                add_conf(accdata, after_columns(CONF_COLUMNS), value1, value2);
             }
         if (characters > 0 && read_line(f))
             while (read_two(f, &value1, &value2)) {
-                value3 = read_char(line + CLASS_OFFSET);
+                value3 = read_char(after_columns(CLASS_COLUMNS));
                 if (value3 == INVALID_CHARVALUE) {
                     error_string("invalid character in", (filename ? filename : "stdin"));
                 }
diff --git a/src/wacrpt.c b/src/wacrpt.c
index fce55da..49e5f9a 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -30,7 +30,7 @@
 #define DIVIDER  "----------------------------------------\n"
 
 #define TOTAL    " Total\n"
-#define OFFSET   29
+#define COLUMNS  3
 
 static char *line;
 static size_t line_size;
@@ -107,6 +107,23 @@ long *value1, *value2;
 }
 /**********************************************************************/
 
+/* Returns what follows the given number of columns, which are wider than usual
+ * when a count needs more than 8 digits. */
+static char *after_columns(columns)
+short columns;
+{
+    short i;
+    char *s = line;
+    while (columns-- > 0)
+    {
+	for (; *s == ' '; s++);
+	for (; *s && *s != ' ' && *s != NEWLINE; s++);
+    }
+    for (i = 0; i < 3 && *s == ' '; i++, s++);
+    return(s);
+}
+/**********************************************************************/
+
 static long read_numbers(f, wac)
 FILE *f;
 Wac wac[];
@@ -115,9 +132,9 @@ Wac wac[];
     if (read_line(f) && read_line(f))
 	while (read_two(f, &count, &missed))
 	{
-	    index = atoi(&line[OFFSET]);
+	    index = atoi(after_columns(COLUMNS));
 	    if (index == 0) {
-		if (strcmp(&line[OFFSET], TOTAL) == 0)
+		if (strcmp(after_columns(COLUMNS), TOTAL) == 0)
 		    total_count = count;
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
@@ -137,7 +154,7 @@ Termtable *termtable;
 	while (read_two(f, &count, &missed))
 	{
 	    line[strlen(line) - 1] = '\0';
-	    add_term(termtable, &line[OFFSET], count, missed);
+	    add_term(termtable, after_columns(COLUMNS), count, missed);
 	}
 }
 /**********************************************************************/
-- 
2.43.0


From 28c4524e3d62fc42f6c22a386604599b90cd00f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 07/17] fix: refuse reports with a character, length or count
 that cannot be

They were used as table indices, writing outside the tables.
---
 src/accrpt.c |  2 +-
 src/dist.c   |  2 +-
 src/edorpt.c |  5 +++++
 src/wacrpt.c | 18 +++++++++++++-----
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 6eb4daf..f6023a5 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -220,7 +220,7 @@ char *line;
     }
 
     /* Check for end delimiter. */
-    if (*next_byte == '}') {
+    if (*next_byte == '}' && value < NUM_CHARVALUES) {
         return value;
     }
 
diff --git a/src/dist.c b/src/dist.c
index 0a83028..bd2c2e4 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -36,7 +36,7 @@ long count, missed;
     if (count == 0)
 	return;
     accuracy = 100.0 * (count - missed) / count;
-    for (i = 0; accuracy >= i; i++)
+    for (i = 0; i <= 100 && accuracy >= i; i++)
 	dist->count[i] += count;
     dist->total_count += count;
 }
diff --git a/src/edorpt.c b/src/edorpt.c
index d967684..74028d8 100644
--- a/src/edorpt.c
+++ b/src/edorpt.c
@@ -78,7 +78,12 @@ char *filename;
     {
 	if (moves > 0 && read_line(f) && read_line(f) && read_line(f))
 	    while (read_two(f, &value1, &value2))
+	    {
+		if (value2 < 1 || value2 > MAX_MOVE_LENGTH)
+		    error_string("invalid format in",
+		    (filename ? filename : "stdin"));
 		edodata->moves[value2] += value1;
+	    }
     }
     else
 	error_string("invalid format in", (filename ? filename : "stdin"));
diff --git a/src/wacrpt.c b/src/wacrpt.c
index 49e5f9a..8199826 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -124,9 +124,11 @@ short columns;
 }
 /**********************************************************************/
 
-static long read_numbers(f, wac)
+static long read_numbers(f, wac, limit, filename)
 FILE *f;
 Wac wac[];
+short limit;
+char *filename;
 {
     long count, missed, index, total_count = 0;
     if (read_line(f) && read_line(f))
@@ -139,6 +141,9 @@ Wac wac[];
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
 	    }
+	    if (index < 0 || index > limit)
+		error_string("invalid format in",
+		(filename ? filename : "stdin"));
 	    increment_wac(&wac[index], count, missed);
 	}
     return(total_count);
@@ -172,12 +177,15 @@ char *filename;
     read_line(f) && read_line(f))
     {
 	increment_wac(&wacdata->total, words, missed);
-	stopwords = read_numbers(f, wacdata->stopword);
-	non_stopwords = read_numbers(f, wacdata->non_stopword);
-	read_numbers(f, wacdata->distinct_non_stopword);
+	stopwords = read_numbers(f, wacdata->stopword, MAX_WORDLENGTH,
+	filename);
+	non_stopwords = read_numbers(f, wacdata->non_stopword, MAX_WORDLENGTH,
+	filename);
+	read_numbers(f, wacdata->distinct_non_stopword, MAX_OCCURRENCES + 1,
+	filename);
 	if (words > 0)
 	{
-	    read_numbers(f, wacdata->phrase);
+	    read_numbers(f, wacdata->phrase, MAX_PHRASELENGTH, filename);
 	    if (stopwords > 0)
 		read_terms(f, &wacdata->stopword_table);
 	    if (non_stopwords > 0)
-- 
2.43.0


From 2bfbccb51638871e2aadd3cd30059205ff3a6a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 08/17] fix: sort arrays that are already ordered in reasonable
 time

With the first element as pivot they took quadratic time and recursion:
wordfreq needed minutes for 200,000 distinct words.
---
 src/sort.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sort.c b/src/sort.c
index f558dee..0d1d876 100644
--- a/src/sort.c
+++ b/src/sort.c
@@ -30,11 +30,13 @@ static int (*cmp)();
 static void quicksort(left, right)
 long left, right;
 {
-    long i, j;
+    long i, j, middle;
     void *ref;
     i = left;
     j = right;
-    ref = a[i];
+    middle = left + (right - left) / 2;
+    ref = a[middle];
+    a[middle] = a[i];
     while (i < j)
     {
 	while (i < j && (*cmp)(ref, a[j]) < 0)
-- 
2.43.0


From 221a370dccdb286f872c216dbf708ae74719f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 09/17] fix: accept more than 32,766 arguments

---
 src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index b946bc2..5f95923 100644
--- a/src/util.c
+++ b/src/util.c
@@ -217,7 +217,7 @@ int *argc;
 char *argv[], *usage;
 Option option[];
 {
-    short i, j = 0;
+    int i, j = 0;
     if (*argc == 1 && usage_when_no_args)
 	show_usage(usage);
     for (i = 1; i < *argc; i++)
-- 
2.43.0


From 9a5eebe311dafe7019d3fea9e4f2d2d0d8968b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 10/17] fix: report errors in reading input and writing output

A directory was read as an empty text, and a report that could not be
written completely was passed off as a success.
---
 src/util.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 5f95923..7dbd09f 100644
--- a/src/util.c
+++ b/src/util.c
@@ -90,8 +90,12 @@ char *filename, *mode;
 void close_file(f)
 FILE *f;
 {
-    if (f != stdin && f != stdout)
-	fclose(f);
+    Boolean failed;
+    failed = (ferror(f) ? True : False);
+    if (f != stdin && f != stdout && fclose(f) != 0)
+	failed = True;
+    if (failed)
+	error("input/output error");
 }
 /**********************************************************************/
 
@@ -258,6 +262,8 @@ int status;
 
 void terminate()
 {
+    if (fflush(stdout) != 0 || ferror(stdout))
+	error("unable to write standard output");
     quit(0);
 }
 /**********************************************************************/
-- 
2.43.0


From 286dcf9b7ed4d6fa1cdef646b232851c54bdbb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 11/17] fix: do not lose the first line of a text read from a
 pipe

The line read to look for a header cannot be read again there.
---
 src/text.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/text.c b/src/text.c
index 1837d88..474b6ca 100644
--- a/src/text.c
+++ b/src/text.c
@@ -57,6 +57,29 @@ void append_char(text, suspect, value)
 }
 /**********************************************************************/
 
+/*
+ * Returns a file with the same contents that can be rewound; a pipe cannot.
+ */
+static FILE *rewindable(f)
+	FILE *f;
+{
+	FILE *copy;
+	int byte;
+	if (fseek(f, 0L, SEEK_CUR) == 0)
+		return(f);
+	copy = tmpfile();
+	if (!copy)
+		error("unable to create temporary file");
+	while ((byte = getc(f)) != EOF)
+		putc(byte, copy);
+	close_file(f);
+	if (fflush(copy) != 0 || ferror(copy))
+		error("unable to write temporary file");
+	rewind(copy);
+	return(copy);
+}
+/**********************************************************************/
+
 static Boolean read_header(f)
 	FILE *f;
 {
@@ -225,7 +248,10 @@ void read_text(text, filename, textopt)
 	last = text->last;
 	f = open_file(filename, "r");
 	if (textopt->find_header)
+	{
+		f = rewindable(f);
 		textopt->found_header = read_header(f);
+	}
 	read_contents(f, text, textopt->find_markers,
 			(textopt->suspect_marker ? textopt->suspect_marker : SUSPECT_MARKER));
 	close_file(f);
-- 
2.43.0


From c873e90f810a8285b6ddb9f37e3fb7e1ecac7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 12/17] fix: deduct a stopword listed twice only once

---
 src/nonstopacc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nonstopacc.c b/src/nonstopacc.c
index 43efa0c..fda4245 100644
--- a/src/nonstopacc.c
+++ b/src/nonstopacc.c
@@ -46,6 +46,7 @@ char *string;
     {
 	count  -= term->wac.count;
 	missed -= term->wac.missed;
+	term->wac.count = term->wac.missed = 0;
     }
 }
 /**********************************************************************/
-- 
2.43.0


From 1a97e97f3c8201bfc54d4f37d38bee13ed4f0c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 13/17] fix: order confusions whose counts differ by more than
 an int holds

---
 src/accrpt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index f6023a5..57dd73a 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -332,9 +332,9 @@ static int compare_conf(conf1, conf2)
 Conf *conf1, *conf2;
 {
     if (conf1->errors != conf2->errors)
-        return(conf2->errors - conf1->errors);
+        return(conf2->errors < conf1->errors ? -1 : 1);
     if (conf1->marked != conf2->marked)
-        return(conf2->marked - conf1->marked);
+        return(conf2->marked < conf1->marked ? -1 : 1);
     return(ustrcmp(conf1->key, conf2->key));
 }
 /**********************************************************************/
-- 
2.43.0


From fa4b097bdcb377b5239e86b0a488f39a6b28aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 14/17] build: accept // comments (GNU C90 instead of ISO C90;
 the object code is identical)

---
 use-libocreval-internal.mk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/use-libocreval-internal.mk b/use-libocreval-internal.mk
index 92d237d..d9c3f11 100644
--- a/use-libocreval-internal.mk
+++ b/use-libocreval-internal.mk
@@ -8,7 +8,7 @@ LOCAL_LINK_DIR := $(abspath $(TOP)lib)
 LIBOCREVAL = $(LOCAL_LINK_DIR)/libocreval.a
 
 # Compilation flags for all files.
-override CFLAGS += -ansi
+override CFLAGS += -std=gnu90
 # X/Open 6.0 standardizes features used in this K&R C source...
 CPPDEFINES = -D_XOPEN_SOURCE=600
 # Create dependency files.
-- 
2.43.0


From cecdfa6c96cfd0e0e70ebb82c7421a634836e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 15/17] fix: a long header line that ends in a divider's dashes
 is no divider

---
 src/text.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/text.c b/src/text.c
index 474b6ca..5c6d480 100644
--- a/src/text.c
+++ b/src/text.c
@@ -80,6 +80,18 @@ static FILE *rewindable(f)
 }
 /**********************************************************************/
 
+/*
+ * Skips what is left of a line that was too long for fgets().
+ */
+static void finish_line(f)
+	FILE *f;
+{
+	int byte;
+	fseek(f, -1L, SEEK_CUR);
+	while ((byte = getc(f)) != EOF && byte != NEWLINE);
+}
+/**********************************************************************/
+
 static Boolean read_header(f)
 	FILE *f;
 {
@@ -88,9 +100,13 @@ static Boolean read_header(f)
 	if (fgets(line, sizeof(line) - 1, f) &&
 			strncmp(line, TITLE, sizeof(TITLE) - 5) == 0)
 	{
+		finish_line(f);
 		while (divider_count < 2 && fgets(line, sizeof(line) - 1, f))
+		{
 			if (strcmp(line, DIVIDER) == 0)
 				divider_count++;
+			finish_line(f);
+		}
 		return(True);
 	}
 	rewind(f);
-- 
2.43.0


From 24e6cd0906bb96a7716b157741a616655d9c7245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:36 +0000
Subject: [PATCH 16/17] fix: find the program's name in a path of more than
 32,767 characters

---
 src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 7dbd09f..6563d51 100644
--- a/src/util.c
+++ b/src/util.c
@@ -150,7 +150,7 @@ char *pathname;
 #else
     char delimiter = '\\';
 #endif
-    short i;
+    long i;
     for (i = strlen(pathname) - 1; i >= 0 && pathname[i] != delimiter; i--);
     return(&pathname[i + 1]);
 }
-- 
2.43.0


From 30277cb530417052a8094878ac8b559280147604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:08 +0000
Subject: [PATCH 17/17] fix: keep the medians of more than 16,777,216 pairs
 exact in vote -O

---
 src/vote.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vote.c b/src/vote.c
index f8d2838..df9052f 100644
--- a/src/vote.c
+++ b/src/vote.c
@@ -64,7 +64,7 @@ short suspect_weight = 1, unmarked_weight = 1;
 
 BEGIN_ENTRY(Sequence)
     long count[MAX_VOTERS];
-    float median;
+    double median;
 END_ENTRY(Sequence);
 
 BEGIN_TABLE_OF(Sequence, Seqlist)
-- 
2.43.0

