From aa62fe45840b6b043b6f2639c559ad6e0d1213ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 01/35] fix: batch prediction crashed when the rows of the
 output are not SIMD aligned

---
 src/neuralnet_predict_batch.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 6b52cc7..faed079 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -4,6 +4,7 @@
 */
 #include "neuralnet_predict_batch.h"
 #include "activation.h"
+#include "simd.h"
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -22,8 +23,12 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
     const int n_inputs = nn->layer[0].n_input;
     const int n_output = nn->layer[nn->n_layers-1].n_output;
 #pragma omp parallel for
-    for ( int i = 0; i < n_samples; i++ )
-        neuralnet_predict( nn, inputs + i*n_inputs, output + i*n_output);
+    for ( int i = 0; i < n_samples; i++ ){
+        /* neuralnet_predict() needs aligned memory for its output, and a row of 'output' is in general not aligned. */
+        SIMD_ALIGN(float y_pred[n_output]);
+        neuralnet_predict( nn, inputs + i*n_inputs, y_pred );
+        memcpy( output + i*n_output, y_pred, n_output * sizeof(float));
+    }
 }
 #else
 /* This number depends on your system - how much memory do you want to stack allocate?
-- 
2.43.0


From 6d32649c5b59f427a3ec38633399fc8d76fabd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 02/35] fix: activations and their derivatives crashed on
 vectors that are not SIMD aligned

---
 src/activation.c | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 90effd3..5c04aec 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -540,6 +540,9 @@ static void tanh_act( const int n, float *y )
 {
     int i = 0;
 #ifdef __AVX2__
+    for ( ; !is_aligned( y + i ) && i < n; i++)
+        y[i] = tanhf(y[i]);
+
     const __m256 one      = _mm256_set1_ps( 1.0f);
     const __m256 neg_one  = _mm256_set1_ps(-1.0f);
     const __m256 two      = _mm256_set1_ps( 2.0f);
@@ -547,7 +550,7 @@ static void tanh_act( const int n, float *y )
 
     __m256 YMM0, YMM1, YMM2, YMM3;
 
-    for (i = 0; i <= ((n)-16); i += 16) {
+    for (; i <= ((n)-16); i += 16) {
         YMM0 = _mm256_load_ps(y + i);
         YMM1 = _mm256_load_ps(y + i + 8);
         YMM0 = _mm256_mul_ps(neg_two, YMM0);
@@ -651,8 +654,8 @@ static void relu_derivative        ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
         
         YMM0 = _mm256_cmp_ps(YMM0, zero, _CMP_LE_OS);
         YMM1 = _mm256_cmp_ps(YMM1, zero, _CMP_LE_OS);
@@ -660,11 +663,11 @@ static void relu_derivative        ( const int n, const float *activation, float
         YMM0 = _mm256_blendv_ps( ones, zero, YMM0);
         YMM1 = _mm256_blendv_ps( ones, zero, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -681,8 +684,8 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM2 = _mm256_sub_ps( ones, YMM0 );
         YMM3 = _mm256_sub_ps( ones, YMM1 );
@@ -690,11 +693,11 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
         YMM0 = _mm256_mul_ps(YMM0, YMM2);
         YMM1 = _mm256_mul_ps(YMM1, YMM3);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -710,8 +713,8 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM0 = _mm256_mul_ps(YMM0, YMM0);
         YMM1 = _mm256_mul_ps(YMM1, YMM1);
@@ -719,11 +722,11 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
         YMM0 = _mm256_sub_ps(ones, YMM0);
         YMM1 = _mm256_sub_ps(ones, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for( ; i < n; i++ )
-- 
2.43.0


From ae93c208dfd994edf636e3ffb5cb22e1fb30e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 03/35] fix: matrix_vector_multiply used aligned loads on rows
 that are not aligned

---
 src/matrix_operations.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 21ea4be..4344ce1 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -49,9 +49,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m512 sums = _mm512_setzero_ps ();
         for (; j <= ((n_cols)-16); j += 16, m_ptr += 16, v_ptr += 16){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr), sums);
+            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr), sums);
 #else
-            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr)));
+            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr)));
 #endif
         }
         y[i] = _mm512_reduce_add_ps( sums );
@@ -60,9 +60,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m256 sum = _mm256_setzero_ps ();
         for (; j <= ((n_cols)-8); j += 8, m_ptr += 8, v_ptr += 8){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr), sum);
+            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr), sum);
 #else
-            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr)));
+            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr)));
 #endif
         }
         y[i] += horizontalsum_avx( sum );
-- 
2.43.0


From ece0a114095df6c31524e12086e8e5f3de196ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 04/35] fix: early stoppers shared their best score and counter

---
 src/earlystopping.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/earlystopping.c b/src/earlystopping.c
index 5ef91b3..ac271f4 100644
--- a/src/earlystopping.c
+++ b/src/earlystopping.c
@@ -4,7 +4,6 @@
 */
 #include "earlystopping.h"
 #include <stdio.h>
-#include <float.h>
 
 struct _earlystopping_t 
 {
@@ -14,6 +13,9 @@ struct _earlystopping_t
     int   monitor_idx;
     bool  greater_is_better;
     bool  early_stopping_flag;
+    bool  has_best;                 /* false until there is a score (nan is none) */
+    float best_so_far;
+    int   epochs_since_improvement;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -23,15 +25,15 @@ CALLBACK_DEFINE(earlystopping,
         newcb->monitor_idx         = cfg->monitor_idx;
         newcb->greater_is_better   = cfg->greater_is_better;
         newcb->early_stopping_flag = false;
+        newcb->has_best            = false;
+        newcb->best_so_far         = 0.0f;
+        newcb->epochs_since_improvement = 0;
 );
 
 void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     earlystopping_t *es = (earlystopping_t*) cb;
 
-    static float best_so_far = FLT_MAX; 
-    static int epochs_since_improvement = 0;
-
     bool improvement = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -42,24 +44,26 @@ void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float
 
     float score = epoch_results[idx];
     if (es->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > es->best_so_far || (!es->has_best && score == score) ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
+            es->has_best = true;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < es->best_so_far || (!es->has_best && score == score) ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
+            es->has_best = true;
         }
     }
 
     if( improvement ){
-        epochs_since_improvement = 0;
+        es->epochs_since_improvement = 0;
         return;
     }
 
-    epochs_since_improvement++;
-    if ( epochs_since_improvement > es->patience ){
+    es->epochs_since_improvement++;
+    if ( es->epochs_since_improvement > es->patience ){
         es->early_stopping_flag = true;
     }
 
-- 
2.43.0


From 494d7a71c16653672bcb7492e281aa85a33e6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 05/35] fix: checkpointers shared their best score

---
 src/modelcheckpoint.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 7b470bf..5e7768a 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -7,7 +7,6 @@
 #include "metrics.h"
 
 #include <stdio.h>
-#include <float.h>
 #include <assert.h>
 
 struct _modelcheckpoint_t
@@ -18,6 +17,8 @@ struct _modelcheckpoint_t
     int monitor_idx;
     bool greater_is_better;
     bool verbose;
+    bool has_best;       /* false until there is a score (nan is none) */
+    float best_so_far;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -27,14 +28,14 @@ CALLBACK_DEFINE(modelcheckpoint,
         newcb->monitor_idx           = cfg->monitor_idx;
         newcb->greater_is_better     = cfg->greater_is_better;
         newcb->verbose               = cfg->verbose;
+        newcb->has_best              = false;
+        newcb->best_so_far           = 0.0f;
 );
 
 void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     modelcheckpoint_t *mcp = (modelcheckpoint_t*) cb;
 
-    static float best_so_far = FLT_MAX; /* This will fail for greater_is_better */
-
     bool do_save = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -45,18 +46,20 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
 
     float score = epoch_results[idx];
     if (mcp->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
-            if( mcp->verbose )  /* BUG: This gives bullshit the first time */
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+        if ( score > mcp->best_so_far || (!mcp->has_best && score == score) ){
+            if( mcp->verbose && mcp->has_best )
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
+            mcp->has_best = true;
         }
     } else {
-        if( score < best_so_far ){
-            if( mcp->verbose )
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+        if( score < mcp->best_so_far || (!mcp->has_best && score == score) ){
+            if( mcp->verbose && mcp->has_best )
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
+            mcp->has_best = true;
         }
     }
 
-- 
2.43.0


From 508737e153b823290417fd55427d447aa17ca18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 06/35] fix: the checkpoint file name was used as a printf
 format without arguments

---
 src/modelcheckpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 5e7768a..53a8cd3 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -64,7 +64,7 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
     }
 
     if( do_save )
-        neuralnet_save( opt->nn, mcp->filename ? mcp->filename : "checkpoint.npz");
+        neuralnet_save( opt->nn, "%s", mcp->filename ? mcp->filename : "checkpoint.npz");
     return;
 }
 
-- 
2.43.0


From 1f0297f5139f513e61a958a5953617ffa68fcd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 07/35] fix: Adam optimizers shared their bias correction

---
 src/adam.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/adam.c b/src/adam.c
index be59be0..9b7c712 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -23,6 +23,8 @@ struct _adam_t
     float weight_decay;
 
     /* private stuff - don't touch! */
+    float beta_1_corrected;   /* beta_1 to the power of the number of updates */
+    float beta_2_corrected;
     float *r;
     float *s;
 };
@@ -35,6 +37,8 @@ static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
     adam->beta_1 = props->beta_1;
     adam->beta_2 = props->beta_2;
     adam->weight_decay = props->weight_decay;
+    adam->beta_1_corrected = 1.0f;
+    adam->beta_2_corrected = 1.0f;
 
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(adam)->nn );
 
@@ -155,9 +159,6 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    static float beta_1_corrected = 1.0f;
-    static float beta_2_corrected = 1.0f;
-
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
@@ -165,8 +166,8 @@ void adam_run_epoch( optimizer_t *opt,
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
-        beta_1_corrected *= adam->beta_1;
-        beta_2_corrected *= adam->beta_2;
+        adam->beta_1_corrected *= adam->beta_1;
+        adam->beta_2_corrected *= adam->beta_2;
 
         #pragma omp parallel sections
         {
@@ -176,7 +177,7 @@ void adam_run_epoch( optimizer_t *opt,
             update_biased_second_moment( n_parameters, adam->r, g, adam->beta_2 );
         }
 
-        compute_update_adam( n_parameters, g, adam->s, adam->r, beta_1_corrected, beta_2_corrected, adam->learning_rate );
+        compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
             float SIMD_ALIGN(weights[n_parameters]);
-- 
2.43.0


From b264fd63ce963c2d92e845fb465726d4e697a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 08/35] fix: optimizers shared the record of the size of their
 shuffle pivots

---
 src/optimizer.c | 5 ++---
 src/optimizer.h | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 4494ebc..c6830f2 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -15,9 +15,8 @@
 
 static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
 {
-    static unsigned int _n_sample = 0;
-    if ( n_train_samples != _n_sample ){
-        _n_sample = n_train_samples;
+    if ( n_train_samples != opt->n_pivot ){
+        opt->n_pivot = n_train_samples;
         opt->pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
         if ( !opt->pivot ){
             fprintf( stderr, "Cannot allocate pivot array.\n");
diff --git a/src/optimizer.h b/src/optimizer.h
index 7de3202..640768b 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -31,6 +31,7 @@ struct _optimizer_t {
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
+    unsigned int n_pivot;   /* Don't touch! (number of elements in pivot) */
 };
 
 #if defined(__GNUC__)
@@ -68,6 +69,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
     newopt->opt.metrics    = optconf.metrics;   \
     \
     newopt->opt.pivot      = NULL; /* This will be allocated in the main loop */ \
+    newopt->opt.n_pivot    = 0; \
     \
     __VA_ARGS__ ; \
     optimizer_check_sanity( OPTIMIZER(newopt) ); \
-- 
2.43.0


From 1f0890971deb4eb734c941eb20cce7fd8bbdb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 09/35] fix: optimizers without metrics shared the default
 metric of the last one created

---
 src/optimizer.c | 7 +++----
 src/optimizer.h | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index c6830f2..d63bce4 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -48,12 +48,11 @@ void optimizer_check_sanity( optimizer_t * opt)
     assert( opt->batchsize > 0 );
 
     /* If the metrics is set to NULL - add the metric function corresponding to the loss */
-    static metric_func static_metrics[2];
-    static_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
-    static_metrics[1] = NULL;
+    opt->default_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
+    opt->default_metrics[1] = NULL;
 
     if( opt->metrics == NULL ){
-        opt->metrics = static_metrics;
+        opt->metrics = opt->default_metrics;
     }
 }
 
diff --git a/src/optimizer.h b/src/optimizer.h
index 640768b..185321a 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -32,6 +32,7 @@ struct _optimizer_t {
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
     unsigned int n_pivot;   /* Don't touch! (number of elements in pivot) */
+    metric_func  default_metrics[2];  /* Don't touch! (used when no metrics are given) */
 };
 
 #if defined(__GNUC__)
-- 
2.43.0


From 96dd9c598b5f1d36035b7238876de86e0c22124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 10/35] fix: batch gradient read and wrote past the end of the
 gradient vector

---
 src/optimizer.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index d63bce4..67616f5 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -63,19 +63,6 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    /* There is a bug in OpenMP -- if using reduction on an aligned array, there will be threaded
-       copies of the arrays in each thread. These copies will not necesarrily be aligned, but rather
-       follow the previous in memory. Solving this can be done by padding. I've not seen this documented
-       but it seems to work. Hence this padding. */
-#ifdef __AVX__
-#define PADDING_SIZE 16
-    /* Hmmm.... maybe it doesn't work after all? it doesn't work with PADDING_SIZE=32, but
-       it works with PADDING_SIZE=16... why? Is this really a stable solution? */
-    const unsigned int n_param_padding = n_parameters + (PADDING_SIZE - n_parameters % PADDING_SIZE);
-    assert( (n_param_padding % PADDING_SIZE) == 0);
-#else
-    const unsigned int n_param_padding __attribute__((unused))  = n_parameters;
-#endif
     memset( batchgrad, 0, n_parameters * sizeof(float));  /* Clear the batch grad */
 
     const int n_input  = nn->layer[0].n_input;
@@ -83,7 +70,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_param_padding])
+#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-- 
2.43.0


From 882fe058692b79a00920542f6f17a44e57ed01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 11/35] fix: npy header lengths with a byte of 128 or more were
 misread

---
 npy_array/npy_array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b8f3cf9..f29a705 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -179,8 +179,8 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME! This may fail for version 2 and it may also fail on big endian systems.... */
     uint16_t header_length = 0;
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
     
     char header[header_length + 1];
     chk = read_func( fp, header, header_length );
@@ -387,8 +387,8 @@ void npy_array_free( npy_array_t *m )
            recalculate the size.  */
         uint16_t header_length = 0;
         char *preheader = m->map_addr;
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
+        header_length |= (unsigned char) preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
+        header_length |= (unsigned char) preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
 
         size_t len = NPY_ARRAY_PREHEADER_LENGTH + header_length + npy_array_calculate_datasize(m);
         munmap( m->map_addr, len );
-- 
2.43.0


From 83921128030774f0cf0300dd76d183fe47eee555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 12/35] fix: arrays of 8 dimensions could be saved but not
 loaded

---
 npy_array/npy_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index f29a705..89d2020 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -236,14 +236,14 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
             shape++;
             continue;
         }
+        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
         m->shape[m->ndim] = strtol( shape, &shape, 10);
         m->ndim++;
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
     }
 
     size_t n_elements = 1;
     int idx = 0;
-    while ( m->shape[ idx ] > 0 )
+    while ( idx < m->ndim )
         n_elements *= m->shape[ idx++ ];
 
 #if VERBOSE
-- 
2.43.0


From ee43e988c07ef9af33e4a406c38d12e602d27585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 13/35] fix: arrays with a dimension of length zero were not
 counted as empty

---
 npy_array/npy_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 89d2020..8b1dd5e 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -136,7 +136,7 @@ size_t npy_array_calculate_datasize( const npy_array_t *m )
 {
     size_t n_elements = 1;
     int idx = 0;
-    while ( m->shape[ idx ] > 0 && (idx < m->ndim) )
+    while ( idx < m->ndim )
         n_elements *= m->shape[ idx++ ];
     return n_elements * m->elem_size;
 }
@@ -257,7 +257,7 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         return m;
     }
 
-    m->data = malloc( n_elements * m->elem_size );
+    m->data = malloc( n_elements > 0 ? n_elements * m->elem_size : 1 );
     if ( !m->data ){
         fprintf(stderr, "Cannot allocate memory for matrix data.\n");
         free( m );
-- 
2.43.0


From 51c261740bbe504a06c276d45d791a9eeb615e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 14/35] fix: truncated files were accepted when memory mapped

---
 npy_array/npy_array.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 8b1dd5e..f0a3d1c 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -252,6 +252,12 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->map_addr = NULL;
     if( read_func == read_mapped ){
         map_handler_t *mh = (map_handler_t*) fp;
+        size_t bytes_left = mh->length - (size_t) (mh->current_pos - mh->start_pos);
+        if( bytes_left < n_elements * m->elem_size ){
+            fprintf(stderr, "Could not map all data.\n");
+            free( m );
+            return NULL;
+        }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
         return m;
@@ -299,7 +305,7 @@ static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes )
     size_t bytes_to_read = bytes_left > nbytes ? nbytes : bytes_left;
     memcpy( buffer, mh->current_pos, bytes_to_read );
     mh->current_pos += bytes_to_read;
-    return (int64_t) nbytes;
+    return (int64_t) bytes_to_read;
 }
 
 npy_array_t * npy_array_mmap( const char *filename )
-- 
2.43.0


From 34d1b3c63abef6a93b569240027771b6df334ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 15/35] fix: saving an array with many long dimensions aborted
 or truncated the dimensions

---
 npy_array/npy_array.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index f0a3d1c..e2d171e 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -97,7 +97,7 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     char *ptr = shape;
 
     for( int i = 0; i < m->ndim; i++)
-        ptr += sprintf(ptr, "%d,", (int) m->shape[i]);
+        ptr += sprintf(ptr, "%zu,", m->shape[i]);
     assert( ptr - shape < NPY_ARRAY_SHAPE_BUFSIZE );
 
     /* Potential bug? There are some additional whitespaces after the dictionaries saved from
@@ -108,10 +108,9 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
        It is terminated by a newline (\n) and padded with spaces (\x20) to make the total of:
        len(magic string) + 2 + len(length) + HEADER_LEN be evenly divisible by 64 for alignment purposes.
 
-       ... which sounds smart enough for me, and with some reverse engineering it looks like HEADER_LEN is 108.
+       ... which sounds smart enough for me. Most arrays fit in a total of 128 bytes.
 
      */
-#define HEADER_LEN 108
     /* WARNING: This code looks inocent and simple, but it was really a struggle. Do not touch unless you like pain! */
     size_t len = sprintf(dict, "{'descr': '%c%c%zu', 'fortran_order': %s, 'shape': (%s), }",
             _guess_endianness( m ),
@@ -120,8 +119,10 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
             m->fortran_order ? "True": "False",
             shape );
 
-    assert( len < HEADER_LEN ); /* FIXME: This can go wrong for really big arrays with a lot of dimensions */
-    len += sprintf( dict + len, "%*s\n", (int) (HEADER_LEN - len + NPY_ARRAY_PREHEADER_LENGTH - 1), " " );
+    size_t total_len = 128;
+    while( total_len < NPY_ARRAY_PREHEADER_LENGTH + len + 2 ) /* at least one space and the newline */
+        total_len += 64;
+    len += sprintf( dict + len, "%*s\n", (int) (total_len - NPY_ARRAY_PREHEADER_LENGTH - len - 1), " " );
 
     const uint16_t _len = (uint16_t) (len);
     memcpy( p, &_len, sizeof(uint16_t));
@@ -129,7 +130,6 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     memcpy( p, dict, len);
 
     return len + NPY_ARRAY_PREHEADER_LENGTH;
-#undef HEADER_LEN
 }
 
 size_t npy_array_calculate_datasize( const npy_array_t *m )
-- 
2.43.0


From 22c5ffda26249e6001f952c1c5f5de51836b3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 16/35] fix: a malformed npy header aborted the program or was
 read out of bounds

---
 npy_array/npy_array.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index e2d171e..b562de9 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -200,7 +200,13 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     char *descr   = find_header_item("'descr': '", header);
-    assert(descr);
+    char *fortran = find_header_item("'fortran_order': ", header);
+    char *shape   = find_header_item("'shape': ", header);
+    if( !descr || !fortran || !shape || !strchr( shape, ')' )){
+        fprintf(stderr, "Header dictionary is not complete.\n");
+        free( m );
+        return NULL;
+    }
     if ( strchr("<>|", descr[0] ) ){
         m->endianness = descr[0];
         if( descr[0] != '|' && ( descr[0] != endianness())){
@@ -215,12 +221,13 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME: Check the **endptr (second argument which is still NULL here)*/
     m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
-    assert( m->elem_size > 0 );
+    if( m->elem_size == 0 ){
+        fprintf(stderr, "Unsupported element type.\n");
+        free( m );
+        return NULL;
+    }
 
     /* FIXME: This only works if there is one and only one leading spaces. */
-    char *fortran = find_header_item("'fortran_order': ", header);
-    assert( fortran );
-
     if(strncmp(fortran, "True", 4) == 0 )
         m->fortran_order = true;
     else if(strncmp(fortran, "False", 5) == 0 )
@@ -229,22 +236,31 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         fprintf(stderr, "Warning: No matrix order found, assuming fortran_order=False");
 
     /* FIXME: This only works if there is one and only one leading spaces. */
-    char *shape   = find_header_item("'shape': ", header);
-    assert(shape);
     while (*shape != ')' ) {
         if( !isdigit( (int) *shape ) ){
             shape++;
             continue;
         }
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
+        if( m->ndim >= NPY_ARRAY_MAX_DIMENSIONS ){
+            fprintf(stderr, "Too many dimensions.\n");
+            free( m );
+            return NULL;
+        }
         m->shape[m->ndim] = strtol( shape, &shape, 10);
         m->ndim++;
     }
 
     size_t n_elements = 1;
     int idx = 0;
-    while ( idx < m->ndim )
-        n_elements *= m->shape[ idx++ ];
+    while ( idx < m->ndim ){
+        size_t dim = m->shape[ idx++ ];
+        if( dim > 0 && n_elements > SIZE_MAX / m->elem_size / dim ){
+            fprintf(stderr, "Array is too big.\n");
+            free( m );
+            return NULL;
+        }
+        n_elements *= dim;
+    }
 
 #if VERBOSE
     printf("Number of elements: %llu\n", (unsigned long long) n_elements );
-- 
2.43.0


From aa3d5ec652ad27c1b99e3666c2d11a89600930bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 17/35] fix: the compression method was set on files not yet in
 the archive and hence ignored

---
 npy_array/npy_array_list.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 73663fa..661638c 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -159,9 +159,6 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
-        if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
-            /* what is wrong? */
-        }
         /* if the filename is not set, set one. However.. if the list was created with append and prepend,
          * this will never be true. */
         if(!iter->filename)
@@ -186,6 +183,9 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
         if( idx != n )
             fprintf( stderr, "Warning: Index and counter mismatch.");
+        /* The compression can only be set once the file is in the archive */
+        if ( zip_set_file_compression(zip, idx, comp, comp_flags) < 0)
+            fprintf( stderr, "Warning: Cannot set compression of '%s'.\n", iter->filename );
 
         // fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
         
-- 
2.43.0


From 33678eb65dce74124227c14d2d6a20a2ccc342d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 18/35] fix: arrays that could not be added to an archive
 leaked and were counted as saved

---
 npy_array/npy_array_list.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 661638c..68a5a6b 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -181,6 +181,11 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         assert(s); 
 
         int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
+        if( idx < 0 ){
+            fprintf( stderr, "Warning: Cannot add '%s' to the archive: %s\n", iter->filename, zip_strerror( zip ));
+            zip_source_free( s );
+            continue;
+        }
         if( idx != n )
             fprintf( stderr, "Warning: Index and counter mismatch.");
         /* The compression can only be set once the file is in the archive */
-- 
2.43.0


From 8a0c6a54685ba1227af72684d721ef62a6e22213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 19/35] fix: a failing archive save aborted, or leaked the
 archive and reported success

---
 npy_array/npy_array_list.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 68a5a6b..dd8884b 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -155,7 +155,10 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     /* FIXME: Better test */
     zip_t *zip = zip_open( filename, ZIP_CREATE | ZIP_TRUNCATE, NULL );
-    assert( zip );
+    if( !zip ){
+        fprintf( stderr, "Warning: Cannot open '%s' for writing.\n", filename );
+        return 0;
+    }
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
@@ -199,6 +202,8 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
     if ( zip_close( zip ) < 0 ){
         fprintf(stderr, "What? no close?\n");
         fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
+        zip_discard( zip );
+        return 0;
     }
     return n;
 }
-- 
2.43.0


From 05e543e7359a88e964f180098f8dc91e0046de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 20/35] fix: entry names of an archive were used as printf
 formats when loading

---
 npy_array/npy_array_list.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index dd8884b..2aef63b 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -230,7 +230,14 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             fprintf(stderr, "Warning: Cannot read matrix.\n");
             continue;
         }
-        list = npy_array_list_append( list, arr, zip_get_name( zip, i, 0 ));
+        npy_array_list_t *elem = npy_array_list_new();
+        const char *name = zip_get_name( zip, i, 0 );
+        assert( elem && name );
+        elem->array    = arr;
+        elem->filename = malloc( strlen( name ) + 1 );
+        assert( elem->filename );
+        strcpy( elem->filename, name );
+        list = _list_append( list, elem );
     }
 
     zip_close(zip);
-- 
2.43.0


From ff8c224f3cf9e9952ed86c28bccd9f94af88cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 21/35] fix: loading a network file with inconsistent arrays
 aborted or wrote out of bounds

---
 src/neuralnet.c | 58 +++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 0106850..b951d3c 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -18,6 +18,7 @@
 #include <stdarg.h>
 #include <stdbool.h>
 #include <math.h>
+#include <limits.h>
 #include <assert.h>
 
 #if defined(VERBOSE) 
@@ -108,6 +109,30 @@ static char ** _activation_names_from_npy( npy_array_t *m )
     return ret;
 }
 
+/* There should be one 2D weight and one 1D bias array of (little-endian, C ordered) float32 for each layer,
+   one activation for each layer, and the layers should fit. */
+static bool _is_valid_network( npy_array_t *arrays[], const int n_arrays, const int n_activations )
+{
+    if( n_arrays < 2 || n_arrays % 2 != 0 || n_activations != n_arrays / 2 )
+        return false;
+
+    for( int i = 0; i < n_arrays; i += 2 ){
+        const npy_array_t *weight = arrays[i];
+        const npy_array_t *bias   = arrays[i+1];
+        if( weight->ndim != 2 || bias->ndim != 1 || weight->elem_size != sizeof(float) || bias->elem_size != sizeof(float))
+            return false;
+        if( weight->fortran_order || bias->fortran_order || weight->endianness != '<' || bias->endianness != '<' )
+            return false;
+        if( weight->shape[0] < 1 || weight->shape[0] > INT_MAX || weight->shape[1] < 1 || weight->shape[1] > INT_MAX )
+            return false;
+        if( weight->shape[1] != bias->shape[0] )
+            return false;
+        if( i > 0 && weight->shape[0] != arrays[i-2]->shape[1] )
+            return false;
+    }
+    return true;
+}
+
 /**
   @brief Create a new neural network based on specifications in file.
   @param filename Filename to neural network file.
@@ -119,6 +144,7 @@ neuralnet_t *neuralnet_load( const char *filename)
     npy_array_t      **weights_and_biases  = NULL;
     char             **activation_funcs    = NULL;
     int                wb_idx              = 0;
+    int                n_activations       = 0;
     neuralnet_t       *nn                  = NULL;
 
     /* Start with copying data from the 'npy' file into an other array for weights and biases,
@@ -141,17 +167,21 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *m = iter->array;
         if( m->typechar == 'f' )
             weights_and_biases[wb_idx++] = m;
-        else if( m->typechar == 'S' )
+        else if( m->typechar == 'S' && m->ndim == 1 && m->shape[0] > 0 && !activation_funcs ){
             activation_funcs = _activation_names_from_npy( m );
-        else {
+            n_activations    = (int) m->shape[0];
+        } else {
             fprintf( stderr, "Element type of numpy array is neither 'float32' or ascii charaters. Cannot open file '%s'.\n", filename );
             goto load_error;
         }
     }
 
-    assert( (wb_idx % 2) == 0 );  /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
-
     int n_layers = wb_idx / 2;
+    if( !_is_valid_network( weights_and_biases, wb_idx, n_activations )){
+        fprintf( stderr, "The arrays in file '%s' do not make a neural network.\n", filename );
+        goto load_error;
+    }
+
     {  /* An added scope to please 'goto' */
         int sizearray[ n_layers + 1 ];
         sizearray[0] = weights_and_biases[0]->shape[0];
@@ -173,22 +203,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *weights   = weights_and_biases[i*2];
         npy_array_t *bias      = weights_and_biases[i*2+1];
 
-        /* Some basic checks, but just warnings. */
-        if( weights->ndim != 2 )
-            fprintf(stderr, "WARNING: weight npy array not 2-dimensional in layer %d (It's %dD!)\n", i, weights->ndim);
-        if( bias->ndim != 1 )
-            fprintf(stderr, "WARNING: bias npy array not 1-dimensional in layer %d (It's %dD!)\n", i, bias->ndim);
-        if( weights->shape[1] != bias->shape[0] )
-            fprintf(stderr, "WARNING: bias size does not match weight size in layer %d. Weight: (%ld,%ld) Bias (%ld)\n",
-                    i, weights->shape[0], weights->shape[1], bias->shape[0]);
-        if( i > 0 ){
-            if( weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
-                fprintf( stderr, "WARNING: weight size mismatch between layer %d and %d.", (i-1), i );
-                fprintf( stderr, "* Prev layer output size: %ld\n", weights_and_biases[(i-1)*2]->shape[1] ); 
-                fprintf( stderr, "* This layer  input size: %ld\n", weights->shape[0] ); 
-            }
-        }
-
         memcpy( nn->layer[i].weight, weights->data, weights->shape[0] * weights->shape[1] * sizeof(float));
         /* Debug 
         print_matrix( weights->shape[0], weights->shape[1], (float*) weights->data );
@@ -197,9 +211,7 @@ neuralnet_t *neuralnet_load( const char *filename)
         memset( nn->layer[i].bias, 0,   nn->layer[i].n_output * sizeof(float));
         memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));
         /* FIXME in far future: If the matrices are fortran order, reorganize them. Hmmm ... maybe
-         * such feature belong in npy_array? */ 
-        assert( weights->fortran_order == false );
-        assert( bias->fortran_order == false );
+         * such feature belong in npy_array? (They are refused for now.) */ 
     }
 
 load_error:
-- 
2.43.0


From 9b1fee1b5c31f701c4a466efe90febdd4f335ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 22/35] fix: the logger restarted its count, or crashed, on
 single line, empty or foreign log files

---
 src/logger.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 07fb869..e9c99d4 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -43,21 +43,18 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         FILE *fp = fopen( logger->filename, "r");
         if(!fp)
             return logger->epoch_count; /* Fail silently should be OK */
+        int  next_epoch = 0;
+        bool line_start = true;
         char buf[MAX_BUFFER + 1];
-        fseek( fp, -MAX_BUFFER, SEEK_END );
-        size_t len=fread( buf, 1, MAX_BUFFER, fp );
-        fclose(fp);  /* Hurry up and close it */
-        buf[len] = '\0';
-        if( buf[len-1] == '\n' )  /* Dirty trick if the last line is terminated by newline (which it usually is) */
-            buf[len-1] = '\0';
-        char *last_newline = strrchr( buf, '\n' );
-        if ( !last_newline )
-            return logger->epoch_count;
-        char *last_line = last_newline + 1;
-        if( buf[len-1] == '\0' ) /* Fixing up the dirty trick */
-            buf[len-1] = '\n';   /* we are working on a buffer copy anyway so this is not a big deal */
-        char *e_counter = strstr( last_line, EPOCH_STR) + strlen(EPOCH_STR);
-        return atoi( e_counter ) + 1;
+        while( fgets( buf, sizeof(buf), fp ) ){ /* Lines may be longer than the buffer, but the counter is early in the line */
+            char *e_counter = line_start ? strstr( buf, EPOCH_STR " " ) : NULL;
+            int epoch;
+            if( e_counter && 1 == sscanf( e_counter + strlen(EPOCH_STR), "%d", &epoch ))
+                next_epoch = epoch + 1;
+            line_start = strchr( buf, '\n' ) != NULL;
+        }
+        fclose(fp);
+        return next_epoch;
     }
     return logger->epoch_count;
 }
-- 
2.43.0


From 78638a01ca814b061b5d11931d15e219b75a3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 23/35] fix: the logger overflowed its line buffer with many
 metrics

---
 src/logger.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index e9c99d4..04d9b15 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -7,7 +7,6 @@
 
 #include <stdio.h>
 #include <time.h>
-#include <assert.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -59,48 +58,49 @@ static int find_last_epoch_from_logfile( logger_t *logger )
     return logger->epoch_count;
 }
 
-void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+static void print_line( FILE *fp, const struct tm *timeinfo, int epoch, optimizer_t *opt, const float *epoch_results, bool validation_set_given )
 {
-    logger_t *log = (logger_t*) cb;
-
-    char buffer[MAX_BUFFER + 1];
-    char *ptr = buffer;
-    time_t rawtime;
-    struct tm * timeinfo;
-
-    time ( &rawtime );
-    timeinfo = localtime ( &rawtime );
-
     /* First the time, let's settle for the time of day, there will be other evidence to se the date and year.*/
-    ptr += sprintf ( ptr, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
+    fprintf( fp, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
 
     /* Then the epoch count. The count is only stored in log. It is not in the optimizer */
-    ptr += sprintf ( ptr, EPOCH_STR " %3d ", log->epoch_count++ );
+    fprintf( fp, EPOCH_STR " %3d ", epoch );
 
     /* Now the metric values */
     int n_metrics = optimizer_get_n_metrics( opt ); // * ( 1 + (int)validation_set_given);
     for( int phase = 0; phase <= ((int) validation_set_given); phase++ ){  /* phase 0 -> train error / phase 1: validation error */
         for ( int i = 0; i < n_metrics; i++ ){
-            ptr += sprintf ( ptr, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
+            fprintf( fp, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
                     epoch_results[i + (phase * n_metrics)] );
         }
     }
 
-    ptr += sprintf(ptr, "\n" );
-    assert( ptr - buffer < MAX_BUFFER );
+    fprintf( fp, "\n" );
+}
+
+void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+{
+    logger_t *log = (logger_t*) cb;
+
+    time_t rawtime;
+    struct tm * timeinfo;
+
+    time ( &rawtime );
+    timeinfo = localtime ( &rawtime );
+
+    int epoch = log->epoch_count++;
 
     /* Print it out */
     if ( !log->no_stdout )
-        fprintf( stdout, "%s", buffer ); 
+        print_line( stdout, timeinfo, epoch, opt, epoch_results, validation_set_given );
 
     FILE *fp = NULL;
     if ( log->filename )
         fp = fopen( log->filename, "a" );
 
     if ( fp ){
-        fprintf( fp, "%s", buffer );
+        print_line( fp, timeinfo, epoch, opt, epoch_results, validation_set_given );
         fclose( fp );
     }
     return;
 }
-
-- 
2.43.0


From 455af3770286aa03ff5c5e9f2c4b8a319f6d3107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 24/35] fix: softplus overflowed to inf for large inputs and
 its derivative became nan

---
 src/activation.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 5c04aec..8217b44 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -578,8 +578,9 @@ static void exponential( const int n, float *ar )
 
 static void softplus( const int n, float *ar )
 {
+    /* Written like this, expf() never overflows, and small values are not lost in the addition of 1 */
     for( int i = 0; i < n; i++ )
-        ar[i] = logf( expf(ar[i]) + 1.0f ) ;
+        ar[i] = fmaxf( ar[i], 0.0f ) + log1pf( expf( -fabsf( ar[i] )));
 }
 
 static void softsign( const int n, float *ar )
@@ -599,10 +600,8 @@ static void hard_sigmoid( const int n, float *ar )
 #ifndef PREDICTION_ONLY
 static void softplus_derivative    ( const int n, const float *activation, float *ar )
 {
-    for( int i=0; i < n; i++ ){
-        float x =  expf( activation[i] );
-        ar[i] *= (x - 1.0f) / x; 
-    }
+    for( int i=0; i < n; i++ )
+        ar[i] *= -expm1f( -activation[i] );
 }
 
 static void softsign_derivative    ( const int n, const float *activation, float *ar )
-- 
2.43.0


From b039e97a122cdd7ab93eba1fb1d11d187faeb451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 25/35] fix: the derivative of softmax was missing for hidden
 layers and unmatched losses

---
 src/activation.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 8217b44..d4356a2 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -635,14 +635,20 @@ static void linear_derivative      ( const int n, const float *activation, float
     /* This function is intentionally empty. */
 }
 
-static void softmax_derivative     ( const int n, const float *activation, float *ar )
-{
-    /* This function is intentionally empty. */
-}
 #if defined(__GNUC__)
 #pragma GCC diagnostic pop
 #endif
 
+static void softmax_derivative     ( const int n, const float *activation, float *ar )
+{
+    /* All outputs depend on all inputs, so this is the product with the (symmetric) jacobian: diag(a) - a*a' */
+    float dot = 0.0f;
+    for( int i=0; i < n; i++ )
+        dot += activation[i] * ar[i];
+    for( int i=0; i < n; i++ )
+        ar[i] = activation[i] * ( ar[i] - dot );
+}
+
 static void relu_derivative        ( const int n, const float *activation, float *ar )
 {
     int i = 0;
-- 
2.43.0


From e2932ff8316274b48e62a7f8378bf6212b2b91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 26/35] fix: long names of dynamically loaded activations
 overflowed the derivative's name

---
 src/activation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/activation.c b/src/activation.c
index d4356a2..d744f00 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -123,7 +123,7 @@ static activation_func get_activation_func_dynamic( const char *name )
         return NULL;
     }
     activation_func retfunc = dlsym( handle, symbol );
-    char derivative_symbol[256];
+    char derivative_symbol[ len + sizeof("_derivative") ];
     sprintf(derivative_symbol, "%s_derivative", symbol );
     free( file_and_symbol_name );
     char * error_message = dlerror();
-- 
2.43.0


From e62058b8c268441ab0e77e9b12f356890d11561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 27/35] fix: every lookup of a dynamically loaded activation,
 or of an unknown name, used more memory

---
 src/activation.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/activation.c b/src/activation.c
index d744f00..e0d084f 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -90,7 +90,10 @@ static activation_record_t *records = NULL;  /* A linked list of open activation
 
 static activation_func get_activation_func_dynamic( const char *name )
 {
-    atexit(cleanup_dynamic_symbols);
+    /* Already loaded? */
+    for( activation_record_t *iter = records; iter; iter = iter->next )
+        if( !strcmp( iter->activation_name, name ))
+            return iter->func_ptr;
 
     /* strdup() is not ansi c .... */
     size_t len = strlen( name ) + 1;
@@ -163,6 +166,12 @@ static activation_func get_activation_func_dynamic( const char *name )
     rec->func_ptr = retfunc;
     rec->next = NULL;
 
+    static int cleanup_registered = 0;
+    if( !cleanup_registered ){
+        cleanup_registered = 1;
+        atexit(cleanup_dynamic_symbols);
+    }
+
     /* Find the backmost and append */
     if( !records )
         records = rec;
-- 
2.43.0


From df664d3812501bb8725ee5156c4321972c2ea6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 28/35] fix: npy headers with other spacing or quotes were
 refused or read in the wrong order

---
 npy_array/npy_array.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b562de9..94dce58 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -142,10 +142,21 @@ size_t npy_array_calculate_datasize( const npy_array_t *m )
 }
 
 
-static char *find_header_item( const char *item, const char *header)
+/* Find the value of a key in the header dictionary. The key may be quoted with either quote, and there may be any
+   whitespace (or none) around the colon. */
+static char *find_header_item( const char *key, char *header)
 {
-    char *s = strstr(header, item);
-    return s ? s + strlen(item) : NULL;
+    const char *whitespace = " \t\r\n";
+    const size_t len = strlen(key);
+    for( char *s = strstr(header, key); s; s = strstr(s + 1, key) ){
+        if( s == header || !strchr( "'\"", s[-1] ) || s[len] != s[-1] )
+            continue;
+        char *value = s + len + 1;
+        value += strspn( value, whitespace );
+        if( *value == ':' )
+            return value + 1 + strspn( value + 1, whitespace );
+    }
+    return NULL;
 }
 
 static inline char endianness(){
@@ -199,10 +210,10 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         return NULL;
     }
 
-    char *descr   = find_header_item("'descr': '", header);
-    char *fortran = find_header_item("'fortran_order': ", header);
-    char *shape   = find_header_item("'shape': ", header);
-    if( !descr || !fortran || !shape || !strchr( shape, ')' )){
+    char *descr   = find_header_item("descr", header);
+    char *fortran = find_header_item("fortran_order", header);
+    char *shape   = find_header_item("shape", header);
+    if( !descr || strlen( descr ) < 4 || !strchr( "'\"", *descr++ ) || !fortran || !shape || !strchr( shape, ')' )){
         fprintf(stderr, "Header dictionary is not complete.\n");
         free( m );
         return NULL;
@@ -227,7 +238,6 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         return NULL;
     }
 
-    /* FIXME: This only works if there is one and only one leading spaces. */
     if(strncmp(fortran, "True", 4) == 0 )
         m->fortran_order = true;
     else if(strncmp(fortran, "False", 5) == 0 )
@@ -235,7 +245,6 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     else
         fprintf(stderr, "Warning: No matrix order found, assuming fortran_order=False");
 
-    /* FIXME: This only works if there is one and only one leading spaces. */
     while (*shape != ')' ) {
         if( !isdigit( (int) *shape ) ){
             shape++;
-- 
2.43.0


From aca3aa62fe8b2fc68a85928ce622ee184210bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 29/35] fix: mappings of files with bytes after the array were
 only partly unmapped

---
 npy_array/npy_array.c | 11 ++---------
 npy_array/npy_array.h |  1 +
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 94dce58..192048d 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -285,6 +285,7 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
+        m->map_length = mh->length;
         return m;
     }
 
@@ -414,15 +415,7 @@ void npy_array_free( npy_array_t *m )
     }
 
     if( m->map_addr ){
-        /* We need the length of the data mapped. We are mapping the whole file, so we have to
-           recalculate the size.  */
-        uint16_t header_length = 0;
-        char *preheader = m->map_addr;
-        header_length |= (unsigned char) preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-        header_length |= (unsigned char) preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
-
-        size_t len = NPY_ARRAY_PREHEADER_LENGTH + header_length + npy_array_calculate_datasize(m);
-        munmap( m->map_addr, len );
+        munmap( m->map_addr, m->map_length );
     } else
         free( m->data );
 
diff --git a/npy_array/npy_array.h b/npy_array/npy_array.h
index 3c02e01..3b2316d 100644
--- a/npy_array/npy_array.h
+++ b/npy_array/npy_array.h
@@ -55,6 +55,7 @@ typedef struct _npy_array_t {
     bool              fortran_order;
     /* Consider map_addr as a private member. Do modify this pointer! Used for unmap() */
     void             *map_addr;      /* pointer to the map if array is mmap()'ed -- else NULL */
+    size_t            map_length;    /* number of bytes mapped (private as well) */
 } npy_array_t;
 
 
-- 
2.43.0


From acff8d85c0d4757509e4b817730dcdb6f9715c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 30/35] fix: weights after the same seed depended on normal
 draws left over from earlier initializations

---
 src/neuralnet.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index b951d3c..7efc660 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -705,10 +705,12 @@ static float random_uniform()
     return (float) 2.0f * (rand() / (float) RAND_MAX) - 1.0f;
 }
 
+/* Normal distributed numbers are made in pairs. */
+static bool use_prev = false;
+
 static float random_normal()
 {
     static float v, fac;
-    static bool use_prev = false;
     float S, Z, u;
     if(use_prev)
         Z = v * fac;
@@ -743,6 +745,9 @@ void neuralnet_initialize( neuralnet_t *nn, char *initializers[] )
 {
     assert( nn );
 
+    /* No leftovers from earlier draws: The weights shall only depend on the seed. */
+    use_prev = false;
+
     for ( int i = 0; i < nn->n_layers ; i++ ){
         const int n_inp = nn->layer[i].n_input;
         const int n_out = nn->layer[i].n_output;
-- 
2.43.0


From 1ed48f17017d1a7088ba09626073335f3349702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:57 +0000
Subject: [PATCH 31/35] fix: empty arrays with long dimensions could be saved
 but not loaded

---
 npy_array/npy_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 192048d..3ed5393 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -260,6 +260,10 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     size_t n_elements = 1;
+    for( int i = 0; i < m->ndim; i++ )
+        if( m->shape[i] == 0 )
+            n_elements = 0;  /* empty, however long the other dimensions are */
+
     int idx = 0;
     while ( idx < m->ndim ){
         size_t dim = m->shape[ idx++ ];
-- 
2.43.0


From d1d74452c75e92c77110e8c8fa25d25bdc9d7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:36 +0000
Subject: [PATCH 32/35] fix: positions in data sets of 2^31 numbers and more

---
 src/evaluate.c                | 4 ++--
 src/neuralnet_predict_batch.c | 4 ++--
 src/optimizer.c               | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1515c8e..16a4891 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -36,11 +36,11 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
         float *y_pred = predictions + (i*n_output);
 #else
         SIMD_ALIGN(float y_pred[n_output]);
-        neuralnet_predict( nn, valid_X + (i*n_input), y_pred );
+        neuralnet_predict( nn, valid_X + ((size_t) i*n_input), y_pred );
 #endif
         float *res = local_results;
         for ( int j = 0; j < n_metrics; j++ ){
-            float _error = metrics[j]( n_output, y_pred, valid_Y + (i*n_output));
+            float _error = metrics[j]( n_output, y_pred, valid_Y + ((size_t) i*n_output));
             *res++ += _error;
         }
     }
diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index faed079..7081775 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -26,8 +26,8 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
     for ( int i = 0; i < n_samples; i++ ){
         /* neuralnet_predict() needs aligned memory for its output, and a row of 'output' is in general not aligned. */
         SIMD_ALIGN(float y_pred[n_output]);
-        neuralnet_predict( nn, inputs + i*n_inputs, y_pred );
-        memcpy( output + i*n_output, y_pred, n_output * sizeof(float));
+        neuralnet_predict( nn, inputs + (size_t) i*n_inputs, y_pred );
+        memcpy( output + (size_t) i*n_output, y_pred, n_output * sizeof(float));
     }
 }
 #else
diff --git a/src/optimizer.c b/src/optimizer.c
index 67616f5..11318a5 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -74,7 +74,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-        neuralnet_backpropagation( nn, train_X + (opt->pivot[idx] * n_input), train_Y + (opt->pivot[idx] * n_output), grad );
+        neuralnet_backpropagation( nn, train_X + ((size_t) opt->pivot[idx] * n_input), train_Y + ((size_t) opt->pivot[idx] * n_output), grad );
         /* When using OpenMP, OpenMP will not align stack allocated arrays -- we therefore
            have to use `_unaligned` for this accumulation. :-(  */
         vector_accumulate_unaligned( n_parameters, batchgrad, grad );
-- 
2.43.0


From b1998ed18f9e7577143d74feaa229cd210468be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:59 +0000
Subject: [PATCH 33/35] fix: training of networks of a million parameters
 overflowed the stack

---
 src/RMSprop.c   |  8 ++++++--
 src/SGD.c       |  4 +++-
 src/adagrad.c   |  4 +++-
 src/adam.c      |  9 +++++++--
 src/optimizer.c | 20 +++++++++++++++-----
 5 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/RMSprop.c b/src/RMSprop.c
index cc8d746..06b3d13 100644
--- a/src/RMSprop.c
+++ b/src/RMSprop.c
@@ -93,6 +93,10 @@ void RMSprop_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    float *batchgrad = simd_malloc( n_parameters * sizeof(float));
+    assert( batchgrad );
+    float *g2 = simd_malloc( n_parameters * sizeof(float));
+    assert( g2 );
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
         /* Apply interim update */
@@ -102,7 +106,6 @@ void RMSprop_run_epoch( optimizer_t *opt,
                 neuralnet_update( nn, rmsprop->velocity );
         }
 
-        float SIMD_ALIGN(batchgrad[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, batchgrad );
         if( opt->progress ) opt->progress( i, n_train_samples, "Train: " );
 
@@ -114,7 +117,6 @@ void RMSprop_run_epoch( optimizer_t *opt,
         float *delta_w = batchgrad;
         float *r = rmsprop->r; 
 
-        float SIMD_ALIGN(g2[n_parameters]);
         vector_square_elements( n_parameters, g2, batchgrad );
         vector_saxpby( n_parameters, r, 1.0f - rmsprop->rho, g2, rmsprop->rho );
 
@@ -127,5 +129,7 @@ void RMSprop_run_epoch( optimizer_t *opt,
         else
             neuralnet_update( nn, delta_w );
     }
+    simd_free( batchgrad );
+    simd_free( g2 );
 }
 
diff --git a/src/SGD.c b/src/SGD.c
index 6ea3dbc..2dc2270 100644
--- a/src/SGD.c
+++ b/src/SGD.c
@@ -58,6 +58,8 @@ void SGD_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    float *batchgrad = simd_malloc( n_parameters * sizeof(float));
+    assert( batchgrad );
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
         /* Apply interim update */
@@ -68,7 +70,6 @@ void SGD_run_epoch( optimizer_t *opt,
         }
 
         /* Calculate batch gradient */
-        float SIMD_ALIGN(batchgrad[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, batchgrad );
 
         /* Progress callback */
@@ -93,5 +94,6 @@ void SGD_run_epoch( optimizer_t *opt,
         else
             neuralnet_update( nn, neg_eta_grad );
     }
+    simd_free( batchgrad );
 }
 
diff --git a/src/adagrad.c b/src/adagrad.c
index b2b6a85..0b83fbe 100644
--- a/src/adagrad.c
+++ b/src/adagrad.c
@@ -98,9 +98,10 @@ void adagrad_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    float *batchgrad = simd_malloc( n_parameters * sizeof(float));
+    assert( batchgrad );
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
-        float SIMD_ALIGN(batchgrad[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, batchgrad );
         if( opt->progress ) opt->progress( i, n_train_samples, "Train: " );
         
@@ -116,5 +117,6 @@ void adagrad_run_epoch( optimizer_t *opt,
 
         neuralnet_update( nn, delta_w );
     }
+    simd_free( batchgrad );
 }
 
diff --git a/src/adam.c b/src/adam.c
index 9b7c712..9fdbb20 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -159,10 +159,14 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    float *g = simd_malloc( n_parameters * sizeof(float));
+    assert( g );
+    float *weights = simd_malloc( n_parameters * sizeof(float));
+    assert( weights );
+
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
-        float SIMD_ALIGN(g[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
@@ -180,12 +184,13 @@ void adam_run_epoch( optimizer_t *opt,
         compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
-            float SIMD_ALIGN(weights[n_parameters]);
             neuralnet_get_parameters( nn, weights );
             vector_saxpy( n_parameters, g, -adam->weight_decay, weights);
         }
 
         neuralnet_update( nn, g);
     }
+    simd_free( g );
+    simd_free( weights );
 }
 
diff --git a/src/optimizer.c b/src/optimizer.c
index 11318a5..c0d2442 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -70,14 +70,24 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
+#pragma omp parallel
+    {
+    /* These vectors - and an OpenMP reduction of batchgrad - may be too big for the stack. */
+    float *grad = simd_malloc( n_parameters * sizeof(float));
+    float *sum  = simd_malloc( n_parameters * sizeof(float));
+    assert( grad );
+    assert( sum );
+    memset( sum, 0, n_parameters * sizeof(float));
+#pragma omp for
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
-        float SIMD_ALIGN(grad[n_parameters]);
         neuralnet_backpropagation( nn, train_X + ((size_t) opt->pivot[idx] * n_input), train_Y + ((size_t) opt->pivot[idx] * n_output), grad );
-        /* When using OpenMP, OpenMP will not align stack allocated arrays -- we therefore
-           have to use `_unaligned` for this accumulation. :-(  */
-        vector_accumulate_unaligned( n_parameters, batchgrad, grad );
+        vector_accumulate( n_parameters, sum, grad );
+    }
+#pragma omp critical
+    vector_accumulate_unaligned( n_parameters, batchgrad, sum );
+    simd_free( grad );
+    simd_free( sum );
     }
     *i += batchsize;
     vector_divide_by_scalar( n_parameters, batchgrad, (float) batchsize );
-- 
2.43.0


From 8abd5f09e59867cad7922be31d97308b784b4ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:47 +0000
Subject: [PATCH 34/35] fix: layers of more weights than an int counts were
 created without memory for them

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 7efc660..27dce31 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -68,7 +68,7 @@ static void _weights_memory_free( neuralnet_t *nn )
 static bool _weights_memory_allocate( neuralnet_t *nn )
 {
     for ( int i = 0; i < nn->n_layers; i++ ){
-        if( (nn->layer[i].n_input < 1) || nn->layer[i].n_output < 1){
+        if( (nn->layer[i].n_input < 1) || nn->layer[i].n_output < 1 || nn->layer[i].n_output > INT_MAX / nn->layer[i].n_input ){
             fprintf( stderr, "Bad neural network dimensions. Can't allocate memory\n" );
             return false;
         }
-- 
2.43.0


From cfc93f10281218737d599c72df420a15b3cc8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:47 +0000
Subject: [PATCH 35/35] fix: normal distributed weights were not numbers when
 both uniform draws were zero

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 27dce31..f67f6ef 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -720,7 +720,7 @@ static float random_normal()
             v = random_uniform();  /* from -1 to +1 */
 
             S = u*u + v*v;
-        } while (S >= 1.0f);
+        } while (S >= 1.0f || S == 0.0f);
 
         fac = sqrtf( -2.0f * logf(S) / S );
         Z = u * fac;
-- 
2.43.0

