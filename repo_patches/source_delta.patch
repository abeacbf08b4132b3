From e12f7ffc0712b103021295fa7fc210fd4b366101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:40 +0000
Subject: [PATCH 1/8] fix: line break classes hidden by general categories

The generator lets the first matching property win, so codepoints of
class SA with general category Mn or Mc and unassigned codepoints listed
with class PR or ID ended up as AL instead of CM, PR and ID.
---
 gen/line.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/gen/line.c b/gen/line.c
index 2e08acc..8f7007c 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -29,7 +29,17 @@ static const struct property_spec line_break_property[] = {
 	 * them, and in the final postprocessing we "reset" all
 	 * remaining matches (that then didn't fit any of the other
 	 * classes) to the generic class AL.
+	 *
+	 * As the first match wins, TMP_CN hides the class of the
+	 * unassigned codepoints listed in the file, which is either PR
+	 * (thus listed before TMP_CN) or ID (which is restored in the
+	 * final postprocessing).
 	 */
+	{
+		.enumname = "PR",
+		.file = FILE_LINE,
+		.ucdname = "PR",
+	},
 	{
 		.enumname = "TMP_CN",
 		.file = FILE_LINE,
@@ -201,11 +211,6 @@ static const struct property_spec line_break_property[] = {
 		.file = FILE_LINE,
 		.ucdname = "PO",
 	},
-	{
-		.enumname = "PR",
-		.file = FILE_LINE,
-		.ucdname = "PR",
-	},
 	{
 		.enumname = "QU",
 		.file = FILE_LINE,
@@ -445,15 +450,22 @@ post_process(struct properties *prop)
 		                   "TMP_CJ")) {
 			/* map CJ to NS */
 			target = "NS";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_CN")) {
+			/* TMP_CN only hid ID */
+			target = "ID";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_MN") ||
+		           !strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_MC")) {
+			/* TMP_MN and TMP_MC only hid SA, map to CM */
+			target = "CM";
 		} else if (
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_CN") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EXTENDED_PICTOGRAPHIC") ||
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_MN") ||
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_MC") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EAW_H") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
-- 
2.43.0


From 3bfb55dbf0a52a4e09a06108c3615ff7b4bb5631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 2/8] fix: a number directly after a closed number starts a new
 one (LB25)

After NU (CL | CP) the number state was reset by a following NU, such
that the second number was not kept together.
---
 src/line.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/line.c b/src/line.c
index 5355143..8bdfc31 100644
--- a/src/line.c
+++ b/src/line.c
@@ -113,9 +113,10 @@ next_line_break(HERODOTUS_READER *r)
 			 *     and one (CL | CP) to the left of the middle
 			 *     spot
 			 */
-			if ((lb25_level == 0 || lb25_level == 1) &&
+			if ((lb25_level == 0 || lb25_level == 1 ||
+			     lb25_level == 3) &&
 			    cp0_prop == LINE_BREAK_PROP_NU) {
-				/* sequence has begun */
+				/* sequence has begun (again) */
 				lb25_level = 1;
 			} else if ((lb25_level == 1 || lb25_level == 2) &&
 			           (cp0_prop == LINE_BREAK_PROP_NU ||
-- 
2.43.0


From 96f0ee068381fa3a3700e0679c47b5decbae93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 3/8] fix: apply LB23a to unassigned pictographs, which are ID
 as well

---
 src/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/line.c b/src/line.c
index 8bdfc31..9d4e5f3 100644
--- a/src/line.c
+++ b/src/line.c
@@ -333,11 +333,14 @@ next_line_break(HERODOTUS_READER *r)
 		/* LB23a */
 		if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_PR &&
 		    (cp1_prop == LINE_BREAK_PROP_ID ||
+		     cp1_prop == LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     cp1_prop == LINE_BREAK_PROP_EB ||
 		     cp1_prop == LINE_BREAK_PROP_EM)) {
 			continue;
 		}
 		if ((last_non_cm_or_zwj_prop == LINE_BREAK_PROP_ID ||
+		     last_non_cm_or_zwj_prop ==
+		             LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EB ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EM) &&
 		    cp1_prop == LINE_BREAK_PROP_PO) {
-- 
2.43.0


From 1a5c60f6d92019db4f3877d22b31abf410ce1af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 4/8] fix: skip CM and ZWJ in the lookahead of LB25

(PR | PO) x (OP | HY) NU has to hold as well if combining marks follow
the OP or HY (LB9).
---
 src/line.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/line.c b/src/line.c
index 9d4e5f3..675565e 100644
--- a/src/line.c
+++ b/src/line.c
@@ -373,13 +373,22 @@ next_line_break(HERODOTUS_READER *r)
 			 * two adjacent codepoints as we have it with
 			 * characters.
 			 */
-			herodotus_reader_copy(r, &tmp);
-			herodotus_read_codepoint(&tmp, true, &cp);
-			if (herodotus_read_codepoint(&tmp, true, &cp) ==
-			            HERODOTUS_STATUS_SUCCESS &&
-			    (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_HY)) {
+			if (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_HY) {
+				herodotus_reader_copy(r, &tmp);
+				herodotus_read_codepoint(&tmp, true, &cp);
+
+				/* skip CM and ZWJ according to LB9 */
+				while (herodotus_read_codepoint(&tmp, true,
+				                                &cp) ==
+				               HERODOTUS_STATUS_SUCCESS &&
+				       (get_break_prop(cp) ==
+				                LINE_BREAK_PROP_CM ||
+				        get_break_prop(cp) ==
+				                LINE_BREAK_PROP_ZWJ)) {
+					;
+				}
 				if (get_break_prop(cp) == LINE_BREAK_PROP_NU) {
 					continue;
 				}
-- 
2.43.0


From b7b4e08a3af6260780f659809a7c5bab1d9ecf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 5/8] fix: treat CM and ZWJ after a space as AL (LB10)

After OP SP a combining mark is not separated (LB14), but it is no SP
itself and ends the reach of LB14 to LB18.
---
 src/line.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/line.c b/src/line.c
index 675565e..5a2e1d2 100644
--- a/src/line.c
+++ b/src/line.c
@@ -58,8 +58,16 @@ next_line_break(HERODOTUS_READER *r)
 		 * store the last observed non-CM-or-ZWJ-property for
 		 * LB9 and following.
 		 */
-		if (cp0_prop != LINE_BREAK_PROP_CM &&
-		    cp0_prop != LINE_BREAK_PROP_ZWJ) {
+		if (cp0_prop == LINE_BREAK_PROP_CM ||
+		    cp0_prop == LINE_BREAK_PROP_ZWJ) {
+			/*
+			 * A CM or ZWJ that has no base (because it follows
+			 * a space) is treated as AL (LB10).
+			 */
+			if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_SP) {
+				last_non_cm_or_zwj_prop = LINE_BREAK_PROP_AL;
+			}
+		} else {
 			/*
 			 * check if the property we are overwriting now is an
 			 * HL. If so, we set the LB21a-flag which depends on
-- 
2.43.0


From a0c613fc009cc67c4dcfd1a77673b9b045f8b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 6/8] fix: a terminator after a finished terminator sequence
 starts a new one

A STerm or ATerm after Close or Sp of an earlier one reset the state
instead of starting anew, such that the following sentence break was
missed.
---
 src/sentence.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sentence.c b/src/sentence.c
index 291c7f4..caaae41 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -67,10 +67,8 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 	 *     left of the middle spot.
 	 *
 	 */
-	if ((state->aterm_close_sp_level == 0 ||
-	     state->aterm_close_sp_level == 1) &&
-	    prop == SENTENCE_BREAK_PROP_ATERM) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (possibly anew) */
 		state->aterm_close_sp_level = 1;
 	} else if ((state->aterm_close_sp_level == 1 ||
 	            state->aterm_close_sp_level == 2) &&
@@ -88,11 +86,9 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 		state->aterm_close_sp_level = 0;
 	}
 
-	if ((state->saterm_close_sp_parasep_level == 0 ||
-	     state->saterm_close_sp_parasep_level == 1) &&
-	    (prop == SENTENCE_BREAK_PROP_STERM ||
-	     prop == SENTENCE_BREAK_PROP_ATERM)) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_STERM ||
+	    prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (possibly anew) */
 		state->saterm_close_sp_parasep_level = 1;
 	} else if ((state->saterm_close_sp_parasep_level == 1 ||
 	            state->saterm_close_sp_parasep_level == 2) &&
-- 
2.43.0


From f5c91155ee0197991ba2c68413732960e08eff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 7/8] fix: a cased letter after case-ignorable ones starts a
 new Final_Sigma context

A cased letter following a cased letter and case-ignorable characters
reset the state instead of starting anew, such that a sigma directly
behind it was not lowercased to its final form.
---
 src/case.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/case.c b/src/case.c
index 6fac8ec..103d5f5 100644
--- a/src/case.c
+++ b/src/case.c
@@ -110,11 +110,11 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 
 			/* update state */
 			prop = get_case_property(cp);
-			if ((final_sigma_level == 0 ||
-			     final_sigma_level == 1) &&
-			    (prop == CASE_PROP_CASED ||
+			if (prop == CASE_PROP_CASED ||
+			    ((final_sigma_level == 0 ||
+			      final_sigma_level == 1) &&
 			     prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
-				/* sequence has begun */
+				/* sequence has begun (possibly anew) */
 				final_sigma_level = 1;
 			} else if (
 				(final_sigma_level == 1 ||
-- 
2.43.0


From 67d7dca0f156bac96862958a062f49be4a87950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 8/8] fix: decode ill-formed UTF-8 the same way before a soft
 limit

The reader handed the decoder only the bytes up to the soft limit, so a
multi-byte sequence interrupted right before a word break looked truncated
and ended the text: grapheme_to_titlecase_utf8("\xE2\x82" "A b") was
empty. Only the end of the source can truncate a sequence.
---
 src/util.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/util.c b/src/util.c
index 4d9a8a4..c540786 100644
--- a/src/util.c
+++ b/src/util.c
@@ -118,7 +118,7 @@ herodotus_reader_next_codepoint_break(const HERODOTUS_READER *r)
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
 		return grapheme_decode_utf8(
 			(const char *)(r->src) + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, NULL);
+			r->srclen - r->off, NULL);
 	}
 }
 
@@ -147,9 +147,8 @@ herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 		*cp = ((const uint_least32_t *)(r->src))[r->off];
 		ret = 1;
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
-		ret = grapheme_decode_utf8(
-			(const char *)r->src + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, cp);
+		ret = grapheme_decode_utf8((const char *)r->src + r->off,
+		                           r->srclen - r->off, cp);
 	}
 
 	if (unlikely(r->srclen == SIZE_MAX && *cp == 0)) {
-- 
2.43.0

