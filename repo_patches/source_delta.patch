From 43db7db0933de1f8eb1a294b449ccb47ef72f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 01/25] fix: restart the sentence terminator sequence on every
 ATerm and STerm

A terminator that follows the Close or Sp part of an earlier terminator
sequence begins a sequence of its own (SB8-SB11), but the state machine
treated it as a broken sequence and missed the break after it.
---
 src/sentence.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sentence.c b/src/sentence.c
index 291c7f4..c6161d8 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -67,10 +67,8 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 	 *     left of the middle spot.
 	 *
 	 */
-	if ((state->aterm_close_sp_level == 0 ||
-	     state->aterm_close_sp_level == 1) &&
-	    prop == SENTENCE_BREAK_PROP_ATERM) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->aterm_close_sp_level = 1;
 	} else if ((state->aterm_close_sp_level == 1 ||
 	            state->aterm_close_sp_level == 2) &&
@@ -88,11 +86,9 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 		state->aterm_close_sp_level = 0;
 	}
 
-	if ((state->saterm_close_sp_parasep_level == 0 ||
-	     state->saterm_close_sp_parasep_level == 1) &&
-	    (prop == SENTENCE_BREAK_PROP_STERM ||
-	     prop == SENTENCE_BREAK_PROP_ATERM)) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_STERM ||
+	    prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->saterm_close_sp_parasep_level = 1;
 	} else if ((state->saterm_close_sp_parasep_level == 1 ||
 	            state->saterm_close_sp_parasep_level == 2) &&
-- 
2.43.0


From b04395cd2581d5b47bc24c5e061f0f4e436346de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 02/25] fix: treat a NULL state like a reset state in
 grapheme_is_character_break

The manual promises that a NULL state behaves like a fully reset one, but
the flags were not updated on that path, so a break was reported between
two regional indicators (GB12/13).
---
 src/character.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/character.c b/src/character.c
index aedcf9e..f473574 100644
--- a/src/character.c
+++ b/src/character.c
@@ -144,7 +144,7 @@ grapheme_is_character_break(uint_least32_t cp0, uint_least32_t cp1,
 {
 	struct character_break_state state;
 	enum char_break_property cp0_prop, cp1_prop;
-	bool notbreak = false;
+	bool notbreak = false, gb11_flag, gb12_13_flag;
 
 	if (likely(s)) {
 		state_deserialize(*s, &state);
@@ -195,17 +195,26 @@ grapheme_is_character_break(uint_least32_t cp0, uint_least32_t cp1,
 		cp0_prop = get_break_prop(cp0);
 		cp1_prop = get_break_prop(cp1);
 
+		/* update flags, starting from a fully reset state */
+		gb11_flag = flag_update_gb11[cp0_prop] &
+		            UINT16_C(1) << cp1_prop;
+		gb12_13_flag = flag_update_gb12_13[cp0_prop] &
+		               UINT16_C(1) << cp1_prop;
+
 		/*
 		 * Apply grapheme cluster breaking algorithm (UAX #29), see
 		 * http://unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules
 		 *
 		 * Given we have no state, this behaves as if the state-booleans
-		 * were all set to false
+		 * were all set to false before the flag-update above
 		 */
 		notbreak = (dont_break[cp0_prop] & (UINT16_C(1) << cp1_prop)) ||
-		           (dont_break_gb11[cp0_prop] &
+		           (dont_break_gb11[cp0_prop +
+		                            gb11_flag * NUM_CHAR_BREAK_PROPS] &
 		            (UINT16_C(1) << cp1_prop)) ||
-		           (dont_break_gb12_13[cp0_prop] &
+		           (dont_break_gb12_13[cp0_prop +
+		                               gb12_13_flag *
+		                                       NUM_CHAR_BREAK_PROPS] &
 		            (UINT16_C(1) << cp1_prop));
 	}
 
-- 
2.43.0


From e2d2ed7f61dc4c6e6998f8e61953f3f51809a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 03/25] fix: keep the Final_Sigma state on a cased letter after
 case-ignorables

"cased case-ignorable* cased" restarts the before-condition of Final_Sigma,
but the state machine reset it, so the sigma that ends such a word was
lowercased to a non-final sigma.
---
 src/case.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/case.c b/src/case.c
index 6fac8ec..c87fceb 100644
--- a/src/case.c
+++ b/src/case.c
@@ -110,17 +110,14 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 
 			/* update state */
 			prop = get_case_property(cp);
-			if ((final_sigma_level == 0 ||
-			     final_sigma_level == 1) &&
-			    (prop == CASE_PROP_CASED ||
-			     prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
-				/* sequence has begun */
+			if (prop == CASE_PROP_CASED ||
+			    prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
+				/* sequence has begun (anew) */
 				final_sigma_level = 1;
 			} else if (
 				(final_sigma_level == 1 ||
 			         final_sigma_level == 2) &&
-				(prop == CASE_PROP_CASE_IGNORABLE ||
-			         prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
+				prop == CASE_PROP_CASE_IGNORABLE) {
 				/* case-ignorable sequence begins or continued
 				 */
 				final_sigma_level = 2;
-- 
2.43.0


From 10e9801ccd86d6d6b95909a4a253c7e72cbf1073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 04/25] fix: do not let a word limit cut off a malformed UTF-8
 sequence

The reader decoded within its soft limit, so a truncated sequence in front
of a word break ("\xF1a") looked like one cut off by the end of the string
and grapheme_to_titlecase_utf8 dropped the rest of the text.
---
 src/util.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/util.c b/src/util.c
index 4d9a8a4..3a7255c 100644
--- a/src/util.c
+++ b/src/util.c
@@ -116,9 +116,8 @@ herodotus_reader_next_codepoint_break(const HERODOTUS_READER *r)
 	if (r->type == HERODOTUS_TYPE_CODEPOINT) {
 		return (r->off < MIN(r->srclen, r->soft_limit[0])) ? 1 : 0;
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
-		return grapheme_decode_utf8(
-			(const char *)(r->src) + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, NULL);
+		return grapheme_decode_utf8((const char *)(r->src) + r->off,
+		                            r->srclen - r->off, NULL);
 	}
 }
 
@@ -147,9 +146,12 @@ herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 		*cp = ((const uint_least32_t *)(r->src))[r->off];
 		ret = 1;
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
-		ret = grapheme_decode_utf8(
-			(const char *)r->src + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, cp);
+		/*
+		 * soft limits lie on codepoint-boundaries, so they must
+		 * not make a sequence look incomplete
+		 */
+		ret = grapheme_decode_utf8((const char *)r->src + r->off,
+		                           r->srclen - r->off, cp);
 	}
 
 	if (unlikely(r->srclen == SIZE_MAX && *cp == 0)) {
-- 
2.43.0


From b617a232137747527a080bfdfdb50fcabb8955a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 05/25] fix: make progress on a sole incomplete UTF-8 sequence

For a string that only consists of an incomplete UTF-8 sequence the
grapheme_next_*_break_utf8 functions returned 0, so the iteration shown in
the manual never ended.
---
 src/character.c |  2 +-
 src/line.c      |  2 +-
 src/sentence.c  |  2 +-
 src/util.c      | 16 ++++++++++++++++
 src/util.h      |  1 +
 src/word.c      |  2 +-
 6 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/character.c b/src/character.c
index f473574..9712cff 100644
--- a/src/character.c
+++ b/src/character.c
@@ -256,5 +256,5 @@ grapheme_next_character_break_utf8(const char *str, size_t len)
 
 	herodotus_reader_init(&r, HERODOTUS_TYPE_UTF8, str, len);
 
-	return next_character_break(&r);
+	return herodotus_reader_ensure_progress(&r, next_character_break(&r));
 }
diff --git a/src/line.c b/src/line.c
index 5355143..70df14d 100644
--- a/src/line.c
+++ b/src/line.c
@@ -518,5 +518,5 @@ grapheme_next_line_break_utf8(const char *str, size_t len)
 
 	herodotus_reader_init(&r, HERODOTUS_TYPE_UTF8, str, len);
 
-	return next_line_break(&r);
+	return herodotus_reader_ensure_progress(&r, next_line_break(&r));
 }
diff --git a/src/sentence.c b/src/sentence.c
index c6161d8..162ed98 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -274,5 +274,5 @@ grapheme_next_sentence_break_utf8(const char *str, size_t len)
 
 	herodotus_reader_init(&r, HERODOTUS_TYPE_UTF8, str, len);
 
-	return next_sentence_break(&r);
+	return herodotus_reader_ensure_progress(&r, next_sentence_break(&r));
 }
diff --git a/src/util.c b/src/util.c
index 3a7255c..49e7d65 100644
--- a/src/util.c
+++ b/src/util.c
@@ -121,6 +121,22 @@ herodotus_reader_next_codepoint_break(const HERODOTUS_READER *r)
 	}
 }
 
+size_t
+herodotus_reader_ensure_progress(const HERODOTUS_READER *r, size_t off)
+{
+	/*
+	 * A string that only consists of an incomplete UTF-8-sequence
+	 * yields no codepoint at all. Given there is nothing to be
+	 * separated we step over it as a whole, as otherwise iterating
+	 * over the breaks would never reach the end of the string.
+	 */
+	if (off == 0 && r->src != NULL && r->srclen != SIZE_MAX) {
+		return r->srclen;
+	}
+
+	return off;
+}
+
 size_t
 herodotus_reader_number_read(const HERODOTUS_READER *r)
 {
diff --git a/src/util.h b/src/util.h
index 47d1fa0..d47f3d6 100644
--- a/src/util.h
+++ b/src/util.h
@@ -98,6 +98,7 @@ void herodotus_reader_init(HERODOTUS_READER *, enum herodotus_type,
 void herodotus_reader_copy(const HERODOTUS_READER *, HERODOTUS_READER *);
 void herodotus_reader_push_advance_limit(HERODOTUS_READER *, size_t);
 void herodotus_reader_pop_limit(HERODOTUS_READER *);
+size_t herodotus_reader_ensure_progress(const HERODOTUS_READER *, size_t);
 size_t herodotus_reader_number_read(const HERODOTUS_READER *);
 size_t herodotus_reader_next_word_break(const HERODOTUS_READER *);
 size_t herodotus_reader_next_codepoint_break(const HERODOTUS_READER *);
diff --git a/src/word.c b/src/word.c
index 946c180..14b7abd 100644
--- a/src/word.c
+++ b/src/word.c
@@ -275,5 +275,5 @@ grapheme_next_word_break_utf8(const char *str, size_t len)
 
 	herodotus_reader_init(&r, HERODOTUS_TYPE_UTF8, str, len);
 
-	return next_word_break(&r);
+	return herodotus_reader_ensure_progress(&r, next_word_break(&r));
 }
-- 
2.43.0


From ee603e737b39f3597410e1f7612dee05900c6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 06/25] fix: begin a new LB25 number after a closing bracket

A number that directly follows "NU (NU | SY | IS)* (CL | CP)" starts a
sequence of its own (LB25), but the state machine treated it as broken and
allowed a break before e.g. a following percent sign.
---
 src/line.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/line.c b/src/line.c
index 70df14d..3ecc27a 100644
--- a/src/line.c
+++ b/src/line.c
@@ -113,9 +113,10 @@ next_line_break(HERODOTUS_READER *r)
 			 *     and one (CL | CP) to the left of the middle
 			 *     spot
 			 */
-			if ((lb25_level == 0 || lb25_level == 1) &&
+			if ((lb25_level == 0 || lb25_level == 1 ||
+			     lb25_level == 3) &&
 			    cp0_prop == LINE_BREAK_PROP_NU) {
-				/* sequence has begun */
+				/* sequence has begun (anew) */
 				lb25_level = 1;
 			} else if ((lb25_level == 1 || lb25_level == 2) &&
 			           (cp0_prop == LINE_BREAK_PROP_NU ||
-- 
2.43.0


From 2beb4503d010392f839bdaaeebdab006e979606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 07/25] fix: skip combining marks in the LB25 lookahead

(PR | PO) x (OP | HY) NU also holds with CM or ZWJ after the OP or HY (LB9).
---
 src/line.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/line.c b/src/line.c
index 3ecc27a..c64410d 100644
--- a/src/line.c
+++ b/src/line.c
@@ -22,8 +22,9 @@ static size_t
 next_line_break(HERODOTUS_READER *r)
 {
 	HERODOTUS_READER tmp;
-	enum line_break_property cp0_prop, cp1_prop, last_non_cm_or_zwj_prop,
-		last_non_sp_prop, last_non_sp_cm_or_zwj_prop;
+	enum line_break_property cp0_prop, cp1_prop, prop,
+		last_non_cm_or_zwj_prop, last_non_sp_prop,
+		last_non_sp_cm_or_zwj_prop;
 	uint_least32_t cp;
 	uint_least8_t lb25_level = 0;
 	bool lb21a_flag = false, ri_even = true;
@@ -372,12 +373,21 @@ next_line_break(HERODOTUS_READER *r)
 			 */
 			herodotus_reader_copy(r, &tmp);
 			herodotus_read_codepoint(&tmp, true, &cp);
-			if (herodotus_read_codepoint(&tmp, true, &cp) ==
-			            HERODOTUS_STATUS_SUCCESS &&
-			    (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_HY)) {
-				if (get_break_prop(cp) == LINE_BREAK_PROP_NU) {
+			if (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_HY) {
+				/* skip CM and ZWJ according to LB9 */
+				prop = NUM_LINE_BREAK_PROPS;
+				while (herodotus_read_codepoint(&tmp, true,
+				                                &cp) ==
+				       HERODOTUS_STATUS_SUCCESS) {
+					prop = get_break_prop(cp);
+					if (prop != LINE_BREAK_PROP_CM &&
+					    prop != LINE_BREAK_PROP_ZWJ) {
+						break;
+					}
+				}
+				if (prop == LINE_BREAK_PROP_NU) {
 					continue;
 				}
 			}
-- 
2.43.0


From 7d4191f0614b62dcadf485796be9f4a276443d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 08/25] fix: apply LB10 to a combining mark behind a space

A CM or ZWJ behind spaces that LB14 keeps together with an opening bracket
is treated as AL, but was ignored, so the following character was still
considered to stand behind a space.
---
 src/line.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/line.c b/src/line.c
index c64410d..a0d9980 100644
--- a/src/line.c
+++ b/src/line.c
@@ -140,6 +140,15 @@ next_line_break(HERODOTUS_READER *r)
 			}
 
 			last_non_cm_or_zwj_prop = cp0_prop;
+		} else if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_SP) {
+			/*
+			 * LB9 does not attach a CM or ZWJ to a space, so LB10
+			 * applies and we treat it as an AL. The space has
+			 * already reset the LB25-level.
+			 */
+			last_non_cm_or_zwj_prop = LINE_BREAK_PROP_AL;
+			lb21a_flag = false;
+			ri_even = true;
 		}
 
 		/*
-- 
2.43.0


From 0267c794a2e4473168412703236e8fb2b053d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 09/25] fix: keep the line break class of reserved and of SA
 mark codepoints

Lines of LineBreak.txt with general category Cn, Mn or Mc matched only by
their category, so unassigned ID and PR codepoints and the combining marks
of class SA all ended up as AL instead of ID, PR and CM (LB1).
---
 gen/line.c | 30 +++++++++++++++++++++++-------
 gen/util.c | 31 +++++++++++++++++++++----------
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/gen/line.c b/gen/line.c
index 2e08acc..68add3d 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -24,6 +24,9 @@ static const struct property_spec line_break_property[] = {
 	 * class BOTH_CN_EXTPICT). We make use of the fact that there
 	 * is no intersection between AL and Cn.
 	 *
+	 * The unassigned codepoints that are explicitly listed in the
+	 * file as ID are temporarily put into TMP_CN_ID.
+	 *
 	 * Any consecutive conflicts are permitted to overwrite
 	 * TMP_EXTENDED_PICTOGRAPHIC and TMP_CN, because we don't need
 	 * them, and in the final postprocessing we "reset" all
@@ -40,6 +43,11 @@ static const struct property_spec line_break_property[] = {
 		.file = FILE_EMOJI,
 		.ucdname = "Extended_Pictographic",
 	},
+	{
+		.enumname = "TMP_CN_ID",
+		.file = NULL,
+		.ucdname = NULL,
+	},
 	/* end of special block */
 	{
 		.enumname = "B2",
@@ -273,8 +281,8 @@ static const struct property_spec line_break_property[] = {
 	},
 	{
 		.enumname = "TMP_SA_WITH_MN_OR_MC",
-		.file = FILE_LINE,
-		.ucdname = "SA",
+		.file = NULL,
+		.ucdname = NULL,
 	},
 	{
 		.enumname = "TMP_SG",
@@ -340,10 +348,10 @@ handle_conflict(uint_least32_t cp, uint_least8_t prop1, uint_least8_t prop2)
 	           (!strcmp(line_break_property[prop2].enumname, "TMP_MN") ||
 	            !strcmp(line_break_property[prop2].enumname, "TMP_MC"))) {
 		if (!strcmp(line_break_property[prop1].enumname,
-		            "SA_WITHOUT_MN_OR_MC") ||
+		            "TMP_SA_WITHOUT_MN_OR_MC") ||
 		    !strcmp(line_break_property[prop2].enumname,
-		            "SA_WITHOUT_MN_OR_MC")) {
-			target = "SA_WITH_MN_OR_MC";
+		            "TMP_SA_WITHOUT_MN_OR_MC")) {
+			target = "TMP_SA_WITH_MN_OR_MC";
 		} else {
 			/* ignore Mn and Mc for the rest */
 			if ((!strcmp(line_break_property[prop1].enumname,
@@ -362,6 +370,9 @@ handle_conflict(uint_least32_t cp, uint_least8_t prop1, uint_least8_t prop2)
 		    !strcmp(line_break_property[prop2].enumname,
 		            "TMP_EXTENDED_PICTOGRAPHIC")) {
 			target = "BOTH_CN_EXTPICT";
+		} else if (!strcmp(line_break_property[prop1].enumname, "ID") ||
+		           !strcmp(line_break_property[prop2].enumname, "ID")) {
+			target = "TMP_CN_ID";
 		} else {
 			/* ignore Cn for all the other properties */
 			if (!strcmp(line_break_property[prop1].enumname,
@@ -375,8 +386,8 @@ handle_conflict(uint_least32_t cp, uint_least8_t prop1, uint_least8_t prop2)
 	                   "TMP_EXTENDED_PICTOGRAPHIC") ||
 	           !strcmp(line_break_property[prop2].enumname,
 	                   "TMP_EXTENDED_PICTOGRAPHIC")) {
-		if (!strcmp(line_break_property[prop1].enumname, "TMP_CN") ||
-		    !strcmp(line_break_property[prop2].enumname, "TMP_CN")) {
+		if (!strcmp(line_break_property[prop1].enumname, "TMP_CN_ID") ||
+		    !strcmp(line_break_property[prop2].enumname, "TMP_CN_ID")) {
 			target = "BOTH_CN_EXTPICT";
 		} else {
 			/* ignore Extended_Pictographic for all the other
@@ -440,6 +451,11 @@ post_process(struct properties *prop)
 		                   "TMP_SA_WITHOUT_MN_OR_MC")) {
 			/* map SA (without General_Category Mn or Mc) to AL */
 			target = "AL";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_CN_ID")) {
+			/* the general category is of no further interest */
+			target = "ID";
 		} else if (!strcmp(line_break_property[prop[i].property]
 		                           .enumname,
 		                   "TMP_CJ")) {
diff --git a/gen/util.c b/gen/util.c
index 6f21906..04b8fea 100644
--- a/gen/util.c
+++ b/gen/util.c
@@ -301,23 +301,32 @@ properties_callback(const char *file, char **field, size_t nfields,
 	/* prop always has the length 0x110000 */
 	struct properties_payload *p = (struct properties_payload *)payload;
 	struct range r;
+	bool by_field = false, by_comment = false, match_field, match_comment;
 	uint_least8_t i;
 	uint_least32_t cp;
 
-	(void)comment;
-
 	if (nfields < 2) {
 		return 1;
 	}
 
 	for (i = 0; i < p->speclen; i++) {
-		/* identify fitting file and identifier */
-		if (p->spec[i].file && !strcmp(p->spec[i].file, file) &&
-		    (!strcmp(p->spec[i].ucdname, field[1]) ||
-		     (comment != NULL &&
-		      !strncmp(p->spec[i].ucdname, comment,
-		               strlen(p->spec[i].ucdname)) &&
-		      comment[strlen(p->spec[i].ucdname)] == ' '))) {
+		if (!p->spec[i].file || strcmp(p->spec[i].file, file)) {
+			continue;
+		}
+
+		/*
+		 * identify fitting identifier, either in the second field
+		 * or (e.g. for a general category) in the comment; only the
+		 * first match of each kind is considered
+		 */
+		match_field = !by_field &&
+		              !strcmp(p->spec[i].ucdname, field[1]);
+		match_comment = !by_comment && comment != NULL &&
+		                !strncmp(p->spec[i].ucdname, comment,
+		                         strlen(p->spec[i].ucdname)) &&
+		                comment[strlen(p->spec[i].ucdname)] == ' ';
+
+		if (match_field || match_comment) {
 			/* parse range in first field */
 			if (range_parse(field[0], &r)) {
 				return 1;
@@ -329,7 +338,9 @@ properties_callback(const char *file, char **field, size_t nfields,
 					exit(1);
 				}
 			}
-			break;
+
+			by_field = by_field || match_field;
+			by_comment = by_comment || match_comment;
 		}
 	}
 
-- 
2.43.0


From 050740d83a7fadcf849b7336248cec77181c840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 10/25] fix: treat unassigned Extended_Pictographic codepoints
 as ID in LB23a

All of them have line break class ID.
---
 src/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/line.c b/src/line.c
index a0d9980..097b5ad 100644
--- a/src/line.c
+++ b/src/line.c
@@ -343,11 +343,14 @@ next_line_break(HERODOTUS_READER *r)
 		/* LB23a */
 		if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_PR &&
 		    (cp1_prop == LINE_BREAK_PROP_ID ||
+		     cp1_prop == LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     cp1_prop == LINE_BREAK_PROP_EB ||
 		     cp1_prop == LINE_BREAK_PROP_EM)) {
 			continue;
 		}
 		if ((last_non_cm_or_zwj_prop == LINE_BREAK_PROP_ID ||
+		     last_non_cm_or_zwj_prop ==
+		             LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EB ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EM) &&
 		    cp1_prop == LINE_BREAK_PROP_PO) {
-- 
2.43.0


From 4dcfae18087d68b959cfaf901fdf3b93df77e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 11/25] fix: stay within the level array of a line

With an array that is smaller than the line, get_line_embedding_levels
wrote one level past its end and reset the levels of a trailing whitespace
run beyond it.
---
 src/bidirectional.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 4e81df1..26e9c6d 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1496,7 +1496,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 
 		/* write level into level array if we still have space */
 		if (level != -1 || skipignored == false) {
-			if (levlen <= levsize) {
+			if (levlen < levsize) {
 				set_level(lev, levlen, level);
 			}
 			levlen++;
@@ -1527,7 +1527,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 		 * we hit the end of the line but were in a run;
 		 * reset the line levels to the paragraph level
 		 */
-		for (i = runsince; i < MIN(linelen, levlen); i++) {
+		for (i = runsince; i < MIN(levsize, levlen); i++) {
 			if (get_level(lev, i) != -1) {
 				set_level(lev, i, runlevel);
 			}
-- 
2.43.0


From 0ae8daf00bb327701c66def826301cdd3328244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 12/25] fix: stay within the destination of
 preprocess_paragraph

If the destination is smaller than the paragraph only its size may be
processed; the remaining codepoints are merely counted.
---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 26e9c6d..7b6bede 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1437,7 +1437,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			          &(buf[bufoff]));
 		}
 	}
-	bufsize = herodotus_reader_number_read(r);
+	bufsize = MIN(herodotus_reader_number_read(r), buflen);
 
 	for (bufoff = 0; bufoff < bufsize; bufoff++) {
 		if (get_state(STATE_PROP, buf[bufoff]) != BIDI_PROP_B &&
-- 
2.43.0


From d136e01462d5301411f7fa8baccdc559d766a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 13/25] fix: accept an output of exactly the required size in
 reorder_line

---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 7b6bede..e1f6748 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1609,7 +1609,7 @@ grapheme_bidirectional_reorder_line(const uint_least32_t *line,
 			outputlen++;
 		}
 	}
-	if (outputlen >= outputsize) {
+	if (outputlen > outputsize) {
 		/* clear output buffer */
 		for (i = 0; i < outputsize; i++) {
 			output[i] = GRAPHEME_INVALID_CODEPOINT;
-- 
2.43.0


From e0f202994d0a53766f35d2187aa2a8af440677c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 14/25] fix: determine the paragraph level from the paragraph
 only

The search for the first strong character (P2, P3) went on behind the
paragraph separator.
---
 src/bidirectional.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index e1f6748..b0b0b17 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -974,6 +974,11 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 	                        HERODOTUS_STATUS_SUCCESS;) {
 		prop = get_bidi_property(cp);
 
+		/* the paragraph ends with its separator (rule P1) */
+		if (prop == BIDI_PROP_B) {
+			break;
+		}
+
 		/* BD8/BD9 */
 		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
 		     prop == BIDI_PROP_FSI) &&
-- 
2.43.0


From 06d20b3e4acbdf53d68355203471bac0d739eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 15/25] fix: count isolates without limit when searching for a
 strong character

BD9 matches isolate initiators and PDIs at any depth. With the counter
saturating at 125, the surplus PDIs of a deeper nesting left it too early.
---
 src/bidirectional.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index b0b0b17..ec1d650 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -898,8 +898,7 @@ static uint_least8_t
 get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 {
 	enum bidi_property prop;
-	int_least8_t isolate_level;
-	size_t stateoff;
+	size_t stateoff, isolate_level;
 
 	/* determine paragraph level (rules P1-P3) and terminate on PDI */
 	for (stateoff = 0, isolate_level = 0; stateoff < statelen; stateoff++) {
@@ -914,9 +913,8 @@ get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
@@ -956,7 +954,7 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 {
 	HERODOTUS_READER tmp;
 	enum bidi_property prop;
-	int_least8_t isolate_level;
+	size_t isolate_level;
 	uint_least32_t cp;
 
 	/* check overrides first according to rule HL1 */
@@ -980,9 +978,8 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-- 
2.43.0


From aab6e80e6e3db6b2931fc1c36f6b4e6ec0ed0bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 16/25] fix: recognise isolates under a directional override

X5a-X5c and X6a change the type of an isolate initiator or PDI within a
directional override, but it keeps delimiting the isolating run sequences
(BD13).
---
 src/bidirectional.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index ec1d650..5cbcb3b 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -247,7 +247,13 @@ ir_advance(struct isolate_runner *ir)
 	last_isolate_level = -1;
 	for (i = ir->cur.off, isolate_level = 0; i < ir->buflen; i++) {
 		level = (int_least8_t)get_state(STATE_LEVEL, ir->buf[i]);
-		prop = (uint_least8_t)get_state(STATE_PROP, ir->buf[i]);
+
+		/*
+		 * look at the preserved property, as an isolate initiator
+		 * or PDI remains one under a directional override
+		 */
+		prop = (uint_least8_t)get_state(STATE_PRESERVED_PROP,
+		                                ir->buf[i]);
 
 		if (level == -1) {
 			/* this is one of the ignored characters, skip */
-- 
2.43.0


From 5394aaf54fc85a8ac55f9bd97b0e228189a5984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 17/25] fix: keep level runs with overflowing isolates together

An isolate initiator beyond the maximum depth does not raise the level, so
what follows belongs to the same level run (BD13), and matching PDIs are
found at any depth (BD9).
---
 src/bidirectional.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 5cbcb3b..8fec946 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -225,8 +225,9 @@ static int
 ir_advance(struct isolate_runner *ir)
 {
 	enum bidi_property prop;
-	int_least8_t level, isolate_level, last_isolate_level;
-	size_t i;
+	int_least8_t level, last_isolate_level;
+	size_t i, isolate_level;
+	bool adjacent = true;
 
 	if (ir->next.off == SIZE_MAX) {
 		/* the sequence is over */
@@ -262,6 +263,20 @@ ir_advance(struct isolate_runner *ir)
 			last_isolate_level = level;
 		}
 
+		if (i != ir->cur.off && adjacent) {
+			/*
+			 * the adjacent character is part of the sequence if
+			 * it's in the same level run (BD13), which also holds
+			 * behind an isolate initiator that exceeds the depth
+			 * limit and thus doesn't raise the level
+			 */
+			adjacent = false;
+			if (level == ir->isolating_run_level) {
+				ir->next.off = i;
+				break;
+			}
+		}
+
 		/* follow BD8/BD9 and P2 to traverse the current sequence */
 		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
 		    prop == BIDI_PROP_FSI) {
@@ -270,9 +285,7 @@ ir_advance(struct isolate_runner *ir)
 			 * counter, but go into processing when we
 			 * were not isolated before
 			 */
-			if (isolate_level < MAX_DEPTH) {
-				isolate_level++;
-			}
+			isolate_level++;
 			if (isolate_level != 1) {
 				continue;
 			}
-- 
2.43.0


From 03ea60a3fd650df0e632f947eceac5fdf72fb52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 18/25] fix: pair brackets as specified when there are more
 than 63 in a sequence

The FIFO overflow handling searched for the wrong bracket class, stored
the wrong closing bracket, processed an unrelated entry and dropped
unclosed brackets without the stack discipline of BD16. Use the stack
as specified and mark the paired brackets in the buffer.
---
 src/bidirectional.c | 245 +++++++++++++-------------------------------
 1 file changed, 74 insertions(+), 171 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 8fec946..0fa90ff 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -15,6 +15,7 @@ enum state_type {
 	STATE_LEVEL,           /* in 0..MAX_DEPTH+1=126, embedding level */
 	STATE_PARAGRAPH_LEVEL, /* in 0..1, paragraph embedding level */
 	STATE_VISITED,         /* in 0..1, visited within isolating run */
+	STATE_PAIRED,          /* in 0..1, part of a bracket pair */
 };
 
 static struct {
@@ -52,6 +53,11 @@ static struct {
 		.mask_shift   = 26,
 		.value_offset = 0,
 	},
+	[STATE_PAIRED] = {
+		.filter_mask  = 0x8000000, /* 00001000 00000000 00000000 00000000 */
+		.mask_shift   = 27,
+		.value_offset = 0,
+	},
 };
 
 static inline int_least16_t
@@ -130,6 +136,12 @@ ir_get_current_bracket_prop(const struct isolate_runner *ir)
 	       (int_least8_t)get_state(STATE_BRACKET_OFF, ir->buf[ir->cur.off]);
 }
 
+static inline bool
+ir_is_current_paired(const struct isolate_runner *ir)
+{
+	return get_state(STATE_PAIRED, ir->buf[ir->cur.off]) == 1;
+}
+
 static void
 ir_set_current_prop(const struct isolate_runner *ir, enum bidi_property prop)
 {
@@ -505,197 +517,87 @@ preprocess_bracket_pairs(uint_least32_t *buf, size_t buflen, size_t off,
 	 * by 63, the algorithm, as is, requires dynamic memory
 	 * management.
 	 *
-	 * A naive approach (used by Fribidi) would be to screw the
-	 * stack-approach and simply directly determine the
-	 * corresponding closing bracket offset for a given opening
-	 * bracket, leading to O(n²) time complexity in the worst case
-	 * with a lot of brackets. While many brackets are not common,
-	 * it is still possible to find a middle ground where you obtain
-	 * strongly linear time complexity in most common cases:
-	 *
-	 * Instead of a stack, we use a FIFO data structure which is
-	 * filled with bracket openings in the order of appearance (thus
-	 * yielding an implicit sorting!) at the top. If the
-	 * corresponding closing bracket is encountered, it is added to
-	 * the respective entry, making it ready to "move out" at the
-	 * bottom (i.e. passed to the bracket processing). Due to the
-	 * nature of the specified pair detection algorithm, which only
-	 * cares about the bracket type and nothing else (bidi class,
-	 * level, etc.), we can mix processing and bracket detection.
-	 *
-	 * Obviously, if you, for instance, have one big bracket pair at
-	 * the bottom that has not been closed yet, it will block the
-	 * bracket processing and the FIFO might hit its capacity limit.
-	 * At this point, the blockage is manually resolved using the
-	 * naive quadratic approach.
-	 *
-	 * To remain within the specified standard behaviour, which
-	 * mandates that processing of brackets should stop when the
-	 * bracketing-depth is at 63, we simply check in an "overflow"
-	 * scenario if all 63 elements in the LIFO are unfinished, which
-	 * corresponds with such a bracketing depth.
+	 * Instead of keeping a list of pairs, we mark the brackets that
+	 * are part of a pair in the buffer itself. As the pairs are
+	 * properly nested by construction, the closing bracket belonging
+	 * to a given opening bracket can be found again by counting the
+	 * marked brackets, and processing the marked opening brackets
+	 * in the order of appearance yields an implicit sorting.
 	 */
-	enum bidi_property prop;
-
 	struct {
-		bool complete;
 		size_t bracket_class;
-		struct isolate_runner start;
-		struct isolate_runner end;
-	} fifo[63];
-	const struct bracket *bracket_prop, *tmp_bracket_prop;
-	struct isolate_runner ir, tmp_ir;
-	size_t fifo_len = 0, i, blevel, j, k;
+		size_t off;
+	} stack[63];
+	const struct bracket *bracket_prop;
+	struct isolate_runner ir, end;
+	size_t stack_len = 0, i, blevel;
 
+	/* BD16, only consider those brackets that are still of type ON */
 	ir_init(buf, buflen, off, paragraph_level, false, &ir);
 	while (!ir_advance(&ir)) {
-		prop = ir_get_current_prop(&ir);
-		bracket_prop = ir_get_current_bracket_prop(&ir);
-		if (prop == BIDI_PROP_ON &&
-		    bracket_prop->type == BIDI_BRACKET_OPEN) {
-			if (fifo_len == LEN(fifo)) {
-				/*
-				 * The FIFO is full, check first if it's
-				 * completely blocked (i.e. no finished
-				 * bracket pairs, triggering the standard
-				 * that mandates to abort in such a case
-				 */
-				for (i = 0; i < fifo_len; i++) {
-					if (fifo[i].complete) {
-						break;
-					}
-				}
-				if (i == fifo_len) {
-					/* abort processing */
-					return;
-				}
+		if (ir_get_current_prop(&ir) != BIDI_PROP_ON) {
+			continue;
+		}
 
+		bracket_prop = ir_get_current_bracket_prop(&ir);
+		if (bracket_prop->type == BIDI_BRACKET_OPEN) {
+			if (stack_len == LEN(stack)) {
 				/*
-				 * by construction, the bottom entry
-				 * in the FIFO is guaranteed to be
-				 * unfinished (given we "consume" all
-				 * finished bottom entries after each
-				 * iteration).
-				 *
-				 * iterate, starting after the opening
-				 * bracket, and find the corresponding
-				 * closing bracket.
-				 *
-				 * if we find none, just drop the FIFO
-				 * entry silently
+				 * the stack is full, stop looking for
+				 * pairs and only keep those we have
+				 * found so far
 				 */
-				for (tmp_ir = fifo[0].start, blevel = 0;
-				     !ir_advance(&tmp_ir);) {
-					tmp_bracket_prop =
-						ir_get_current_bracket_prop(
-							&tmp_ir);
-
-					if (tmp_bracket_prop->type ==
-					            BIDI_BRACKET_OPEN &&
-					    tmp_bracket_prop->class ==
-					            bracket_prop->class) {
-						/* we encountered another
-						 * opening bracket of the
-						 * same class */
-						blevel++;
-
-					} else if (tmp_bracket_prop->type ==
-					                   BIDI_BRACKET_CLOSE &&
-					           tmp_bracket_prop->class ==
-					                   bracket_prop
-					                           ->class) {
-						/* we encountered a closing
-						 * bracket of the same class
-						 */
-						if (blevel == 0) {
-							/* this is the
-							 * corresponding
-							 * closing bracket
-							 */
-							fifo[0].complete = true;
-							fifo[0].end = ir;
-						} else {
-							blevel--;
-						}
-					}
-				}
-				if (fifo[0].complete) {
-					/* we found the matching bracket */
-					preprocess_bracket_pair(
-						&(fifo[i].start),
-						&(fifo[i].end));
-				}
-
-				/* shift FIFO one to the left */
-				for (i = 1; i < fifo_len; i++) {
-					fifo[i - 1] = fifo[i];
-				}
-				fifo_len--;
+				break;
 			}
-
-			/* add element to the FIFO */
-			fifo_len++;
-			fifo[fifo_len - 1].complete = false;
-			fifo[fifo_len - 1].bracket_class = bracket_prop->class;
-			fifo[fifo_len - 1].start = ir;
-		} else if (prop == BIDI_PROP_ON &&
-		           bracket_prop->type == BIDI_BRACKET_CLOSE) {
+			stack[stack_len].bracket_class = bracket_prop->class;
+			stack[stack_len].off = ir.cur.off;
+			stack_len++;
+		} else if (bracket_prop->type == BIDI_BRACKET_CLOSE) {
 			/*
-			 * go backwards in the FIFO, skip finished entries
-			 * and simply ignore (do nothing) the closing
-			 * bracket if we do not match anything
+			 * go down the stack and simply ignore (do nothing)
+			 * the closing bracket if we do not match anything
 			 */
-			for (i = fifo_len; i > 0; i--) {
+			for (i = stack_len; i > 0; i--) {
 				if (bracket_prop->class ==
-				            fifo[i - 1].bracket_class &&
-				    !fifo[i - 1].complete) {
-					/* we have found a pair */
-					fifo[i - 1].complete = true;
-					fifo[i - 1].end = ir;
-
-					/* remove all uncompleted FIFO elements
-					 * above i - 1 */
-					for (j = i; j < fifo_len;) {
-						if (fifo[j].complete) {
-							j++;
-							continue;
-						}
-
-						/* shift FIFO one to the left */
-						for (k = j + 1; k < fifo_len;
-						     k++) {
-							fifo[k - 1] = fifo[k];
-						}
-						fifo_len--;
-					}
+				    stack[i - 1].bracket_class) {
+					/*
+					 * we have found a pair, mark it
+					 * and remove its opening bracket
+					 * and all above it from the stack
+					 */
+					set_state(STATE_PAIRED, 1,
+					          &(buf[stack[i - 1].off]));
+					set_state(STATE_PAIRED, 1,
+					          &(buf[ir.cur.off]));
+					stack_len = i - 1;
 					break;
 				}
 			}
 		}
+	}
 
-		/* process all ready bracket pairs from the FIFO bottom */
-		while (fifo_len > 0 && fifo[0].complete) {
-			preprocess_bracket_pair(&(fifo[0].start),
-			                        &(fifo[0].end));
-
-			/* shift FIFO one to the left */
-			for (j = 0; j + 1 < fifo_len; j++) {
-				fifo[j] = fifo[j + 1];
-			}
-			fifo_len--;
+	/* N0, process the pairs in the order of their opening brackets */
+	ir_init(buf, buflen, off, paragraph_level, false, &ir);
+	while (!ir_advance(&ir)) {
+		if (!ir_is_current_paired(&ir) ||
+		    ir_get_current_bracket_prop(&ir)->type !=
+		            BIDI_BRACKET_OPEN) {
+			continue;
 		}
-	}
 
-	/*
-	 * afterwards, we still might have unfinished bracket pairs
-	 * that will remain as such, but the subsequent finished pairs
-	 * also need to be taken into account, so we go through the
-	 * FIFO once more and process all finished pairs
-	 */
-	for (i = 0; i < fifo_len; i++) {
-		if (fifo[i].complete) {
-			preprocess_bracket_pair(&(fifo[i].start),
-			                        &(fifo[i].end));
+		/* find the corresponding closing bracket */
+		for (end = ir, blevel = 0; !ir_advance(&end);) {
+			if (!ir_is_current_paired(&end)) {
+				continue;
+			} else if (ir_get_current_bracket_prop(&end)->type ==
+			           BIDI_BRACKET_OPEN) {
+				blevel++;
+			} else if (blevel > 0) {
+				blevel--;
+			} else {
+				preprocess_bracket_pair(&ir, &end);
+				break;
+			}
 		}
 	}
 }
@@ -1453,6 +1355,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			set_state(STATE_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_PARAGRAPH_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_VISITED, 0, &(buf[bufoff]));
+			set_state(STATE_PAIRED, 0, &(buf[bufoff]));
 			set_state(STATE_PRESERVED_PROP,
 			          (uint_least8_t)get_bidi_property(cp),
 			          &(buf[bufoff]));
-- 
2.43.0


From 46688e8293ee3a15fc69cdef0cfd8978e301e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 19/25] fix: only consider canonical equivalents as bracket
 aliases

Compatibility mappings (e.g. U+FF08 to U+0028) were treated as aliases,
whereas BD14 and BD15 only normalize canonical equivalents.
---
 gen/bidirectional.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/gen/bidirectional.c b/gen/bidirectional.c
index b4a4fb7..9a6c0d5 100644
--- a/gen/bidirectional.c
+++ b/gen/bidirectional.c
@@ -143,7 +143,6 @@ static int
 decomposition_callback(const char *file, char **field, size_t nfields,
                        char *comment, void *payload)
 {
-	char *p;
 	struct decomposition_payload *decomp =
 		(struct decomposition_payload *)payload;
 	uint_least32_t cp;
@@ -160,24 +159,13 @@ decomposition_callback(const char *file, char **field, size_t nfields,
 
 	if (decomp->cp == cp) {
 		/* we hit the line that contains our decomposition target */
-		if (strlen(field[5]) > 0) {
-			p = field[5];
-			if (*p == '<') {
-				/*
-				 * the decomposition contains some metadata
-				 * <...> we skip
-				 */
-				for (; *p != '\0'; p++) {
-					if (*p == '>') {
-						p++;
-						while (*p == ' ') {
-							p++;
-						}
-						break;
-					}
-				}
-			}
-			hextocp(p, strlen(p), &(decomp->decomposition));
+		if (strlen(field[5]) > 0 && field[5][0] != '<') {
+			/*
+			 * only consider canonical decompositions, those
+			 * tagged with <...> are compatibility mappings
+			 */
+			hextocp(field[5], strlen(field[5]),
+			        &(decomp->decomposition));
 		} else {
 			decomp->decomposition = decomp->cp;
 		}
-- 
2.43.0


From 4e756334a165cebd29c3259346cafc2d669103bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 20/25] fix: look ahead for rule SB8 only once per ATerm

The lookahead ran again at each Close and Sp after an ATerm, making the work
for a long run of them quadratic.
---
 src/sentence.c | 68 ++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/sentence.c b/src/sentence.c
index 162ed98..92f29ac 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -166,11 +166,47 @@ next_sentence_break(HERODOTUS_READER *r)
 			continue;
 		}
 
+		/* SB8a */
+		if ((state.saterm_close_sp_parasep_level == 1 ||
+		     state.saterm_close_sp_parasep_level == 2 ||
+		     state.saterm_close_sp_parasep_level == 3) &&
+		    (p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SCONTINUE ||
+		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_STERM ||
+		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_ATERM)) {
+			continue;
+		}
+
+		/* SB9 */
+		if ((state.saterm_close_sp_parasep_level == 1 ||
+		     state.saterm_close_sp_parasep_level == 2) &&
+		    (p.skip.next_prop[0] == SENTENCE_BREAK_PROP_CLOSE ||
+		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SP ||
+		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SEP ||
+		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_CR ||
+		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_LF)) {
+			continue;
+		}
+
+		/* SB10 */
+		if ((state.saterm_close_sp_parasep_level == 1 ||
+		     state.saterm_close_sp_parasep_level == 2 ||
+		     state.saterm_close_sp_parasep_level == 3) &&
+		    (p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SP ||
+		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SEP ||
+		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_CR ||
+		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_LF)) {
+			continue;
+		}
+
 		/* SB8 */
 		if (state.aterm_close_sp_level == 1 ||
 		    state.aterm_close_sp_level == 2 ||
 		    state.aterm_close_sp_level == 3) {
 			/*
+			 * This rule is checked after the equally non-breaking
+			 * SB8a, SB9 and SB10 such that the lookahead takes
+			 * place at most once for each ATerm.
+			 *
 			 * This is the most complicated rule, requiring
 			 * the right-hand-side to satisfy the regular expression
 			 *
@@ -210,38 +246,6 @@ next_sentence_break(HERODOTUS_READER *r)
 			}
 		}
 
-		/* SB8a */
-		if ((state.saterm_close_sp_parasep_level == 1 ||
-		     state.saterm_close_sp_parasep_level == 2 ||
-		     state.saterm_close_sp_parasep_level == 3) &&
-		    (p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SCONTINUE ||
-		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_STERM ||
-		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_ATERM)) {
-			continue;
-		}
-
-		/* SB9 */
-		if ((state.saterm_close_sp_parasep_level == 1 ||
-		     state.saterm_close_sp_parasep_level == 2) &&
-		    (p.skip.next_prop[0] == SENTENCE_BREAK_PROP_CLOSE ||
-		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SP ||
-		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SEP ||
-		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_CR ||
-		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_LF)) {
-			continue;
-		}
-
-		/* SB10 */
-		if ((state.saterm_close_sp_parasep_level == 1 ||
-		     state.saterm_close_sp_parasep_level == 2 ||
-		     state.saterm_close_sp_parasep_level == 3) &&
-		    (p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SP ||
-		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_SEP ||
-		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_CR ||
-		     p.skip.next_prop[0] == SENTENCE_BREAK_PROP_LF)) {
-			continue;
-		}
-
 		/* SB11 */
 		if (state.saterm_close_sp_parasep_level == 1 ||
 		    state.saterm_close_sp_parasep_level == 2 ||
-- 
2.43.0


From 00fffd2bf75ff48c26e0c5423fa63ced4fcae0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 21/25] fix: keep the bidirectional preprocessing linear

The last strong type for W2, W7 and N0 was searched from the start of the
isolating run sequence each time, runs of neutrals between different
directions were scanned once for each neutral, and the direction of an
overflowing FSI was determined although it is of no importance. Each of
these made the work quadratic in the length of the paragraph.
---
 src/bidirectional.c | 133 ++++++++++++++++++++------------------------
 1 file changed, 61 insertions(+), 72 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 0fa90ff..4d847a8 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -362,52 +362,12 @@ ir_advance(struct isolate_runner *ir)
 	return 0;
 }
 
-static enum bidi_property
-ir_get_last_strong_prop(const struct isolate_runner *ir)
-{
-	struct isolate_runner tmp;
-	enum bidi_property last_strong_prop = ir->sos, prop;
-
-	ir_init(ir->buf, ir->buflen, ir->start, ir->paragraph_level, false,
-	        &tmp);
-	for (; !ir_advance(&tmp) && tmp.cur.off < ir->cur.off;) {
-		prop = ir_get_current_prop(&tmp);
-
-		if (prop == BIDI_PROP_R || prop == BIDI_PROP_L ||
-		    prop == BIDI_PROP_AL) {
-			last_strong_prop = prop;
-		}
-	}
-
-	return last_strong_prop;
-}
-
-static enum bidi_property
-ir_get_last_strong_or_number_prop(const struct isolate_runner *ir)
-{
-	struct isolate_runner tmp;
-	enum bidi_property last_strong_or_number_prop = ir->sos, prop;
-
-	ir_init(ir->buf, ir->buflen, ir->start, ir->paragraph_level, false,
-	        &tmp);
-	for (; !ir_advance(&tmp) && tmp.cur.off < ir->cur.off;) {
-		prop = ir_get_current_prop(&tmp);
-
-		if (prop == BIDI_PROP_R || prop == BIDI_PROP_L ||
-		    prop == BIDI_PROP_AL || prop == BIDI_PROP_EN ||
-		    prop == BIDI_PROP_AN) {
-			last_strong_or_number_prop = prop;
-		}
-	}
-
-	return last_strong_or_number_prop;
-}
-
 static void
 preprocess_bracket_pair(const struct isolate_runner *start,
-                        const struct isolate_runner *end)
+                        const struct isolate_runner *end,
+                        enum bidi_property last_strong_or_number_prop)
 {
-	enum bidi_property prop, bracket_prop, last_strong_or_number_prop;
+	enum bidi_property prop, bracket_prop;
 	struct isolate_runner ir;
 	size_t strong_type_off;
 
@@ -455,8 +415,6 @@ preprocess_bracket_pair(const struct isolate_runner *start,
 		 * Check the previous strong type before the opening
 		 * bracket
 		 */
-		last_strong_or_number_prop =
-			ir_get_last_strong_or_number_prop(start);
 		if (last_strong_or_number_prop == BIDI_PROP_L &&
 		    ir.isolating_run_level % 2 != 0) {
 			/*
@@ -529,6 +487,7 @@ preprocess_bracket_pairs(uint_least32_t *buf, size_t buflen, size_t off,
 		size_t off;
 	} stack[63];
 	const struct bracket *bracket_prop;
+	enum bidi_property prop, last_strong_or_number_prop;
 	struct isolate_runner ir, end;
 	size_t stack_len = 0, i, blevel;
 
@@ -576,28 +535,40 @@ preprocess_bracket_pairs(uint_least32_t *buf, size_t buflen, size_t off,
 		}
 	}
 
-	/* N0, process the pairs in the order of their opening brackets */
+	/*
+	 * N0, process the pairs in the order of their opening brackets and
+	 * keep track of the last strong type or number along the way
+	 */
 	ir_init(buf, buflen, off, paragraph_level, false, &ir);
+	last_strong_or_number_prop = ir.sos;
 	while (!ir_advance(&ir)) {
-		if (!ir_is_current_paired(&ir) ||
-		    ir_get_current_bracket_prop(&ir)->type !=
+		/* find the corresponding closing bracket of an opening one */
+		if (ir_is_current_paired(&ir) &&
+		    ir_get_current_bracket_prop(&ir)->type ==
 		            BIDI_BRACKET_OPEN) {
-			continue;
+			for (end = ir, blevel = 0; !ir_advance(&end);) {
+				if (!ir_is_current_paired(&end)) {
+					continue;
+				} else if (ir_get_current_bracket_prop(&end)
+				                   ->type ==
+				           BIDI_BRACKET_OPEN) {
+					blevel++;
+				} else if (blevel > 0) {
+					blevel--;
+				} else {
+					preprocess_bracket_pair(
+						&ir, &end,
+						last_strong_or_number_prop);
+					break;
+				}
+			}
 		}
 
-		/* find the corresponding closing bracket */
-		for (end = ir, blevel = 0; !ir_advance(&end);) {
-			if (!ir_is_current_paired(&end)) {
-				continue;
-			} else if (ir_get_current_bracket_prop(&end)->type ==
-			           BIDI_BRACKET_OPEN) {
-				blevel++;
-			} else if (blevel > 0) {
-				blevel--;
-			} else {
-				preprocess_bracket_pair(&ir, &end);
-				break;
-			}
+		prop = ir_get_current_prop(&ir);
+		if (prop == BIDI_PROP_R || prop == BIDI_PROP_L ||
+		    prop == BIDI_PROP_AL || prop == BIDI_PROP_EN ||
+		    prop == BIDI_PROP_AN) {
+			last_strong_or_number_prop = prop;
 		}
 	}
 }
@@ -606,7 +577,7 @@ static size_t
 preprocess_isolating_run_sequence(uint_least32_t *buf, size_t buflen,
                                   size_t off, uint_least8_t paragraph_level)
 {
-	enum bidi_property sequence_prop, prop;
+	enum bidi_property sequence_prop, last_strong_prop, prop;
 	struct isolate_runner ir, tmp;
 	size_t runsince, sequence_end;
 
@@ -627,9 +598,15 @@ preprocess_isolating_run_sequence(uint_least32_t *buf, size_t buflen,
 
 	/* W2 */
 	ir_init(buf, buflen, off, paragraph_level, false, &ir);
+	last_strong_prop = ir.sos;
 	while (!ir_advance(&ir)) {
-		if (ir_get_current_prop(&ir) == BIDI_PROP_EN &&
-		    ir_get_last_strong_prop(&ir) == BIDI_PROP_AL) {
+		prop = ir_get_current_prop(&ir);
+
+		if (prop == BIDI_PROP_R || prop == BIDI_PROP_L ||
+		    prop == BIDI_PROP_AL) {
+			last_strong_prop = prop;
+		} else if (prop == BIDI_PROP_EN &&
+		           last_strong_prop == BIDI_PROP_AL) {
 			ir_set_current_prop(&ir, BIDI_PROP_AN);
 		}
 	}
@@ -710,9 +687,15 @@ preprocess_isolating_run_sequence(uint_least32_t *buf, size_t buflen,
 
 	/* W7 */
 	ir_init(buf, buflen, off, paragraph_level, false, &ir);
+	last_strong_prop = ir.sos;
 	while (!ir_advance(&ir)) {
-		if (ir_get_current_prop(&ir) == BIDI_PROP_EN &&
-		    ir_get_last_strong_prop(&ir) == BIDI_PROP_L) {
+		prop = ir_get_current_prop(&ir);
+
+		if (prop == BIDI_PROP_R || prop == BIDI_PROP_L ||
+		    prop == BIDI_PROP_AL) {
+			last_strong_prop = prop;
+		} else if (prop == BIDI_PROP_EN &&
+		           last_strong_prop == BIDI_PROP_L) {
 			ir_set_current_prop(&ir, BIDI_PROP_L);
 		}
 	}
@@ -759,9 +742,9 @@ preprocess_isolating_run_sequence(uint_least32_t *buf, size_t buflen,
 				 * check what follows and see if the text
 				 * has the same direction on both sides
 				 */
+				sequence_end = tmp.cur.off;
 				if (ir_get_previous_prop(&ir) == BIDI_PROP_L &&
 				    ir_get_next_prop(&tmp) == BIDI_PROP_L) {
-					sequence_end = tmp.cur.off;
 					sequence_prop = BIDI_PROP_L;
 				} else if ((ir_get_previous_prop(&ir) ==
 				                    BIDI_PROP_R ||
@@ -775,7 +758,6 @@ preprocess_isolating_run_sequence(uint_least32_t *buf, size_t buflen,
 				                    BIDI_PROP_EN ||
 				            ir_get_next_prop(&tmp) ==
 				                    BIDI_PROP_AN)) {
-					sequence_end = tmp.cur.off;
 					sequence_prop = BIDI_PROP_R;
 				}
 			}
@@ -783,7 +765,9 @@ preprocess_isolating_run_sequence(uint_least32_t *buf, size_t buflen,
 
 		if (sequence_end != SIZE_MAX) {
 			if (ir.cur.off <= sequence_end) {
-				ir_set_current_prop(&ir, sequence_prop);
+				if (sequence_prop != NUM_BIDI_PROPS) {
+					ir_set_current_prop(&ir, sequence_prop);
+				}
 			} else {
 				/* end of sequence, reset */
 				sequence_end = SIZE_MAX;
@@ -1092,8 +1076,13 @@ again:
 				overflow_isolate_count++;
 			}
 		} else if (prop == BIDI_PROP_FSI) {
-			/* X5c */
-			if (get_isolated_paragraph_level(
+			/*
+			 * X5c, the direction is of no importance in the
+			 * case of an overflow
+			 */
+			if (overflow_isolate_count == 0 &&
+			    overflow_embedding_count == 0 &&
+			    get_isolated_paragraph_level(
 				    buf + (bufoff + 1),
 				    buflen - (bufoff + 1)) == 1) {
 				prop = BIDI_PROP_RLI;
-- 
2.43.0


From 57c1333c6b7843b5d04c7071263de7b85818e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:32 +0000
Subject: [PATCH 22/25] fix: look for grapheme clusters only within the
 sequence that is inverted

A cluster was followed beyond the end of the sequence, making the work
quadratic when a long cluster has alternating embedding levels.
---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 4d847a8..e306549 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1587,7 +1587,7 @@ grapheme_bidirectional_reorder_line(const uint_least32_t *line,
 				/* mark grapheme cluster breaks */
 				for (j = first; j <= last;
 				     j += grapheme_next_character_break(
-					     line + j, outputlen - j)) {
+					     line + j, last + 1 - j)) {
 					/*
 					 * we use a special trick here: The
 					 * first 21 bits of the state are filled
-- 
2.43.0


From 3eb209b03f15b31f4bfd08d38950598cb9cea61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 23/25] fix: take an empty simple titlecase mapping as the
 uppercase mapping

UAX #44: if the field Simple_Titlecase_Mapping of UnicodeData.txt is
empty, the simple titlecase mapping is the same as the simple uppercase
mapping.
---
 gen/case.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gen/case.c b/gen/case.c
index c9f3501..b4ae564 100644
--- a/gen/case.c
+++ b/gen/case.c
@@ -100,6 +100,14 @@ unicodedata_callback(const char *file, char **field, size_t nfields,
 		return 1;
 	}
 
+	/*
+	 * if the titlecase-field is empty, the simple titlecase mapping
+	 * is the same as the simple uppercase mapping (see UAX #44)
+	 */
+	if (nfields < 15 || strlen(field[14]) == 0) {
+		title = upper;
+	}
+
 	prop_upper[cp].property = (int_least32_t)upper - (int_least32_t)cp;
 	prop_lower[cp].property = (int_least32_t)lower - (int_least32_t)cp;
 	prop_title[cp].property = (int_least32_t)title - (int_least32_t)cp;
-- 
2.43.0


From 14be026a4155aa46786929f77a882fadeecc0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 24/25] fix: do not take the bracket offset for a signed number

It occupies 8 bits of the state, so more than 127 entries of
BidiBrackets.txt lead to a negative index into the bracket table.
---
 src/bidirectional.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index e306549..6b50aa2 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -133,7 +133,8 @@ static inline const struct bracket *
 ir_get_current_bracket_prop(const struct isolate_runner *ir)
 {
 	return bidi_bracket +
-	       (int_least8_t)get_state(STATE_BRACKET_OFF, ir->buf[ir->cur.off]);
+	       (uint_least8_t)get_state(STATE_BRACKET_OFF,
+	                                ir->buf[ir->cur.off]);
 }
 
 static inline bool
-- 
2.43.0


From 3062ab50e59f035c089c2557b30756e15dc1690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 25/25] fix: do not cut the offset to the mirrored code point
 to 16 bits

The table's type follows the data and is wider as soon as a code point
and its mirror are more than 32767 apart.
---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 6b50aa2..d8cfef8 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1490,7 +1490,7 @@ set_level_uint32(void *lev, size_t off, int_least8_t value)
 	((uint_least32_t *)lev)[off] |= ((uint_least32_t)(value + 1)) << 21;
 }
 
-static inline int_least16_t
+static inline int_least32_t
 get_mirror_offset(uint_least32_t cp)
 {
 	if (cp <= UINT32_C(0x10FFFF)) {
-- 
2.43.0

