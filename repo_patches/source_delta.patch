From eb2057046e981b1b5a44d8e19d838c1bccc8db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 01/10] fix: linear converter read before the input array for
 one-frame blocks

The loop producing output from the held sample stopped one frame early, so
with a single input frame the main loop ran with in_used == 0 and read
data_in [-channels]. Use the same bound as the zero order hold converter.
---
 src/src_linear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index 43a0fd4..bdbbde3 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -85,7 +85,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
-		if (priv->in_used + state->channels * (1.0 + input_index) >= priv->in_count)
+		if (priv->in_used + state->channels * input_index >= priv->in_count)
 			break ;
 
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
-- 
2.43.0


From 2e0b8716a8b9545268635bb8146979e1d6f78bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 02/10] fix: sinc history buffer too small near the minimum
 ratio

With the ratio at or near 1/256 prepare_data () could compute a negative
source offset for its memmove (reading before the buffer), drop part of the
zero padding (losing the end of the stream) or never have enough samples in
hand to produce output (multichannel stall). Size the buffer for what
prepare_data () needs: four half filter lengths plus five samples.
---
 src/src_sinc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 716c4a4..52059d4 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -240,10 +240,12 @@ sinc_filter_new (int converter_type, int channels)
 #endif
 		}
 
-		priv->b_len = 3 * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
+		/* Room for the history, the data in hand (up to two filter halves at the
+		** end of input) and the zero padding at the smallest ratio. */
+		priv->b_len = 4 * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
 		priv->b_len = MAX (priv->b_len, 4096) ;
 		priv->b_len *= channels ;
-		priv->b_len += 1 ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
+		priv->b_len += 5 ; // prepare_data () pads with half_filter_chan_len + 5 zeros at the end of input
 
 
 		priv->buffer = (float *) calloc (priv->b_len + channels, sizeof (float)) ;
-- 
2.43.0


From edc86079de414ce2a5baf607d0768c160ce3fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 03/10] fix: return an error instead of aborting for channel
 counts below one

---
 src/samplerate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 6a51f27..2978d88 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -491,6 +491,13 @@ psrc_set_converter (int converter_type, int channels, int *error)
 {
 	SRC_ERROR temp_error;
 	SRC_STATE *state ;
+
+	if (channels < 1)
+	{	if (error)
+			*error = SRC_ERR_BAD_CHANNEL_COUNT ;
+		return NULL ;
+		} ;
+
 	switch (converter_type)
 	{
 #ifdef ENABLE_SINC_BEST_CONVERTER
-- 
2.43.0


From 3abdda219382500bd647f8f5d5ba0f5349ece511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 04/10] fix: reject NaN as a conversion ratio

---
 src/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index c5b7d90..e4e04db 100644
--- a/src/common.h
+++ b/src/common.h
@@ -244,7 +244,7 @@ fmod_one (double x)
 
 static inline int
 is_bad_src_ratio (double ratio)
-{	return (ratio < (1.0 / SRC_MAX_RATIO) || ratio > (1.0 * SRC_MAX_RATIO)) ;
+{	return ! (ratio >= (1.0 / SRC_MAX_RATIO) && ratio <= (1.0 * SRC_MAX_RATIO)) ;
 } /* is_bad_src_ratio */
 
 
-- 
2.43.0


From 5a04f2e5a697ff6adf5ee753fc3b5c37502859ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 05/10] fix: src_simple dereferenced a NULL SRC_DATA pointer

---
 src/samplerate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2978d88..2043a5a 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -412,6 +412,9 @@ src_simple (SRC_DATA *src_data, int converter, int channels)
 {	SRC_STATE	*src_state ;
 	int 		error ;
 
+	if (src_data == NULL)
+		return SRC_ERR_BAD_DATA ;
+
 	if ((src_state = src_new (converter, channels, &error)) == NULL)
 		return error ;
 
-- 
2.43.0


From d49af2e69d7f0d766b571c123b3d10c2eea61272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 06/10] fix: sinc converters lost the stream tail when flushed
 with a NULL data_in

A final call with data_in == NULL, no input frames and end_of_input set is
accepted by src_process () but never flushed the converter.
---
 src/src_sinc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 52059d4..876177f 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1163,7 +1163,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (filter->b_real_end >= 0)
 		return SRC_ERR_NO_ERROR ;	/* Should be terminating. Just return. */
 
-	if (data->data_in == NULL)
+	if (data->data_in == NULL && ! data->end_of_input)
 		return SRC_ERR_NO_ERROR ;
 
 	if (filter->b_current == 0)
@@ -1197,7 +1197,8 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (len < 0 || filter->b_end + len > filter->b_len)
 		return SRC_ERR_SINC_PREPARE_DATA_BAD_LEN ;
 
-	memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
+	if (len > 0)
+		memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
 						len * sizeof (filter->buffer [0])) ;
 
 	filter->b_end += len ;
-- 
2.43.0


From 82733f6a11c20d07f0748d18535b41dfb997bcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 07/10] fix: src_callback_read looped forever on data supplied
 after end of input

A sinc converter that has been flushed consumes no further input, so once the
callback had returned zero and then returned data again, the read loop never
terminated.
---
 src/samplerate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2043a5a..a5912d0 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -221,6 +221,10 @@ src_callback_read (SRC_STATE *state, double src_ratio, long frames, float *data)
 
 		if (src_data.end_of_input == SRC_TRUE && src_data.output_frames_gen == 0)
 			break ;
+
+		/* No progress, for instance when data is supplied after the end of input. */
+		if (src_data.input_frames_used == 0 && src_data.output_frames_gen == 0)
+			break ;
 		} ;
 
 	state->saved_data = src_data.data_in ;
-- 
2.43.0


From a61c91fc4334db3e84ecc74d387475e2afce54f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 08/10] fix: zero order hold converter drops a frame when the
 output fills up exactly at the end of the input

The main loop also produced the frame whose read position is exactly the end
of the input block, which belongs to the next block (the pre-loop and the
linear converter use the strict comparison). When that frame did not fit into the output
of the final call it was lost, so the stream length depended on how the
output was split into blocks.
---
 src/src_zoh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_zoh.c b/src/src_zoh.c
index 41ba79a..6b6c683 100644
--- a/src/src_zoh.c
+++ b/src/src_zoh.c
@@ -103,7 +103,7 @@ zoh_vari_process (SRC_STATE *state, SRC_DATA *data)
 	input_index = rem ;
 
 	/* Main processing loop. */
-	while (priv->out_gen < priv->out_count && priv->in_used + state->channels * input_index <= priv->in_count)
+	while (priv->out_gen < priv->out_count && priv->in_used + state->channels * input_index < priv->in_count)
 	{
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
 			src_ratio = state->last_ratio + priv->out_gen * (data->src_ratio - state->last_ratio) / priv->out_count ;
-- 
2.43.0


From f8bd65fe052649ee9ad00e31b0badda7e9fc47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 09/10] fix: sinc converters: stream end decided with the ratio
 of the first output of the call

While the ratio glides in the call that carries end_of_input, the termination
condition used the step of the ratio at the start of the call. Gliding up,
output for up to one step of the old (low) ratio was dropped, and mono
and multi-channel converters dropped different amounts.
---
 src/src_sinc.c | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 876177f..3142561 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -468,8 +468,6 @@ sinc_mono_vari_process (SRC_STATE *state, SRC_DATA *data)
 	filter->b_current = (filter->b_current + state->channels * psf_lrint (input_index - rem)) % filter->b_len ;
 	input_index = rem ;
 
-	terminate = 1.0 / src_ratio + 1e-20 ;
-
 	/* Main processing loop. */
 	while (filter->out_gen < filter->out_count)
 	{
@@ -485,15 +483,16 @@ sinc_mono_vari_process (SRC_STATE *state, SRC_DATA *data)
 				break ;
 			} ;
 
+		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
+			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
+
 		/* This is the termination condition. */
+		terminate = 1.0 / src_ratio + 1e-20 ;
 		if (filter->b_real_end >= 0)
 		{	if (filter->b_current + input_index + terminate > filter->b_real_end)
 				break ;
 			} ;
 
-		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
-			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
-
 		float_increment = filter->index_inc * (src_ratio < 1.0 ? src_ratio : 1.0) ;
 		increment = double_to_fp (float_increment) ;
 
@@ -624,8 +623,6 @@ sinc_stereo_vari_process (SRC_STATE *state, SRC_DATA *data)
 	filter->b_current = (filter->b_current + state->channels * psf_lrint (input_index - rem)) % filter->b_len ;
 	input_index = rem ;
 
-	terminate = 1.0 / src_ratio + 1e-20 ;
-
 	/* Main processing loop. */
 	while (filter->out_gen < filter->out_count)
 	{
@@ -641,15 +638,16 @@ sinc_stereo_vari_process (SRC_STATE *state, SRC_DATA *data)
 				break ;
 			} ;
 
+		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
+			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
+
 		/* This is the termination condition. */
+		terminate = 1.0 / src_ratio + 1e-20 ;
 		if (filter->b_real_end >= 0)
 		{	if (filter->b_current + input_index + terminate >= filter->b_real_end)
 				break ;
 			} ;
 
-		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
-			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
-
 		float_increment = filter->index_inc * (src_ratio < 1.0 ? src_ratio : 1.0) ;
 		increment = double_to_fp (float_increment) ;
 
@@ -780,8 +778,6 @@ sinc_quad_vari_process (SRC_STATE *state, SRC_DATA *data)
 	filter->b_current = (filter->b_current + state->channels * psf_lrint (input_index - rem)) % filter->b_len ;
 	input_index = rem ;
 
-	terminate = 1.0 / src_ratio + 1e-20 ;
-
 	/* Main processing loop. */
 	while (filter->out_gen < filter->out_count)
 	{
@@ -797,15 +793,16 @@ sinc_quad_vari_process (SRC_STATE *state, SRC_DATA *data)
 				break ;
 			} ;
 
+		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
+			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
+
 		/* This is the termination condition. */
+		terminate = 1.0 / src_ratio + 1e-20 ;
 		if (filter->b_real_end >= 0)
 		{	if (filter->b_current + input_index + terminate >= filter->b_real_end)
 				break ;
 			} ;
 
-		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
-			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
-
 		float_increment = filter->index_inc * (src_ratio < 1.0 ? src_ratio : 1.0) ;
 		increment = double_to_fp (float_increment) ;
 
@@ -935,8 +932,6 @@ sinc_hex_vari_process (SRC_STATE *state, SRC_DATA *data)
 	filter->b_current = (filter->b_current + state->channels * psf_lrint (input_index - rem)) % filter->b_len ;
 	input_index = rem ;
 
-	terminate = 1.0 / src_ratio + 1e-20 ;
-
 	/* Main processing loop. */
 	while (filter->out_gen < filter->out_count)
 	{
@@ -952,15 +947,16 @@ sinc_hex_vari_process (SRC_STATE *state, SRC_DATA *data)
 				break ;
 			} ;
 
+		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
+			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
+
 		/* This is the termination condition. */
+		terminate = 1.0 / src_ratio + 1e-20 ;
 		if (filter->b_real_end >= 0)
 		{	if (filter->b_current + input_index + terminate >= filter->b_real_end)
 				break ;
 			} ;
 
-		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
-			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
-
 		float_increment = filter->index_inc * (src_ratio < 1.0 ? src_ratio : 1.0) ;
 		increment = double_to_fp (float_increment) ;
 
@@ -1100,8 +1096,6 @@ sinc_multichan_vari_process (SRC_STATE *state, SRC_DATA *data)
 	filter->b_current = (filter->b_current + state->channels * psf_lrint (input_index - rem)) % filter->b_len ;
 	input_index = rem ;
 
-	terminate = 1.0 / src_ratio + 1e-20 ;
-
 	/* Main processing loop. */
 	while (filter->out_gen < filter->out_count)
 	{
@@ -1117,15 +1111,16 @@ sinc_multichan_vari_process (SRC_STATE *state, SRC_DATA *data)
 				break ;
 			} ;
 
+		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
+			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
+
 		/* This is the termination condition. */
+		terminate = 1.0 / src_ratio + 1e-20 ;
 		if (filter->b_real_end >= 0)
 		{	if (filter->b_current + input_index + terminate >= filter->b_real_end)
 				break ;
 			} ;
 
-		if (filter->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > 1e-10)
-			src_ratio = state->last_ratio + filter->out_gen * (data->src_ratio - state->last_ratio) / filter->out_count ;
-
 		float_increment = filter->index_inc * (src_ratio < 1.0 ? src_ratio : 1.0) ;
 		increment = double_to_fp (float_increment) ;
 
-- 
2.43.0


From 680df870531a430e3f2ae67cd6b92f0dffdf67a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 10/10] fix: sinc converters: do not truncate the remaining
 sample count to int

A block with 2^31 or more remaining samples was refused with
SRC_ERR_SINC_PREPARE_DATA_BAD_LEN (or treated as tiny past 2^32).
---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 3142561..80061df 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1186,7 +1186,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		len = MAX (filter->b_len - filter->b_current - half_filter_chan_len, 0) ;
 		} ;
 
-	len = MIN ((int) (filter->in_count - filter->in_used), len) ;
+	len = (int) MIN (filter->in_count - filter->in_used, (long) len) ;
 	len -= (len % channels) ;
 
 	if (len < 0 || filter->b_end + len > filter->b_len)
-- 
2.43.0

