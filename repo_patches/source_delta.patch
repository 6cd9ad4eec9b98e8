From b08e7ec643e9fe4789471937ad5fab812dfbb32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 01/20] fix: truncated parameter and result files dereference a
 NULL token

---
 Octave/loadsrf.c              |  8 +++++---
 common/spf_par.c              |  8 ++++----
 common/spf_par.h              | 28 +++++++++++++++++-----------
 dtrm_glp/dtrm_glp_main.c      |  6 ++++--
 polar_scl/ca_polar_scl_main.c |  7 +++++--
 simulators/sim_bg.c           | 10 ++++++----
 6 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 40a1736..51c8cde 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -36,15 +36,17 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
          err_msg(erstr); \
+         (n) = -1; \
+         continue; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
diff --git a/common/spf_par.c b/common/spf_par.c
index a05f989..7240c7c 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -148,7 +148,7 @@ spf_read_preparse_ext(
       // Includes.
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
-         if ((sp_file = fopen(token, "rb")) == NULL) {
+         if ((token == NULL) || ((sp_file = fopen(token, "rb")) == NULL)) {
             err_msg("spf_read_preparse(): can't open include file.");
             free(sp_str);
             free(str1);
@@ -254,16 +254,16 @@ int tryread_group_int_param(
   if (strcmp(*inout_tk, param_key) == 0) {
     int i = 0;
     char *tk = strtok(NULL, tk_seps_prepared);
-    if (tk[0] == GROUP_CHAR_BEGIN) {
+    if ((tk != NULL) && (tk[0] == GROUP_CHAR_BEGIN)) {
       tk = strtok(NULL, tk_seps_prepared);
-      while ((tk[0] != GROUP_CHAR_END) && (i < max_n)) {
+      while ((tk != NULL) && (tk[0] != GROUP_CHAR_END) && (i < max_n)) {
         *x = atoi(tk);
         x = (int *)((unsigned char *)x + step_size);
         tk = strtok(NULL, tk_seps_prepared);
         i++;
       }
     }
-    else {
+    if ((tk == NULL) || (tk[0] != GROUP_CHAR_END)) {
       err_msg(erstr);
       return RC_ERROR;
     }
diff --git a/common/spf_par.h b/common/spf_par.h
index ce2e6a5..017c541 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -44,6 +44,7 @@
 #define TRYGET_INT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) continue; \
       (x) = atoi(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -53,6 +54,7 @@
 #define TRYGET_FLOAT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) continue; \
       (x) = atof(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -62,6 +64,7 @@
 #define TRYGET_ONOFF_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) continue; \
       (x) = (!strcmp(tk, switch_on_token)) ? 1 : 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -72,16 +75,17 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
          err_msg(erstr); \
-         return 1; \
+         (n) = -1; \
+         continue; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
@@ -93,18 +97,20 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i] = atoi(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
+            if ((tk) == NULL) break; \
             (y)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
          err_msg(erstr); \
-         return 1; \
+         (n) = -1; \
+         continue; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
@@ -114,12 +120,12 @@
 
 #define SPF_SKIP_UNKNOWN_PARAMETER(tk) { \
    (tk) = strtok(NULL, tk_seps_prepared); \
-   if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+   if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      while (((tk)[strlen(tk) - 1] != GROUP_CHAR_END) && ((tk) != NULL)) \
+      while (((tk) != NULL) && ((tk)[strlen(tk) - 1] != GROUP_CHAR_END)) \
          (tk) = strtok(NULL, tk_seps_prepared); \
    } \
-   (tk) = strtok(NULL, tk_seps_prepared); \
+   if ((tk) != NULL) (tk) = strtok(NULL, tk_seps_prepared); \
 }
 
 
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ae9bf34..cb76254 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -125,6 +125,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "RM_r", c_r);
       if (strcmp(token, "border_node_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -138,6 +139,7 @@ cdc_init(
       }
       if (strcmp(token, "border_node_lsize") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -148,11 +150,11 @@ cdc_init(
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
-         if (token[0] == GROUP_CHAR_BEGIN) {
+         if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
-            while (token[0] != GROUP_CHAR_END) {
+            while ((token != NULL) && (token[0] != GROUP_CHAR_END)) {
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index d507819..3287e3b 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -174,6 +174,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "c_m", c_m);
       if (strcmp(token, "info_bits_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -187,6 +188,7 @@ cdc_init(
       }
       if (strcmp(token, "ca_polar_crc") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
@@ -200,6 +202,7 @@ cdc_init(
       }
       if (strcmp(token, "list_size") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -211,11 +214,11 @@ cdc_init(
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
-         if (token[0] == GROUP_CHAR_BEGIN) {
+         if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
-            while (token[0] != GROUP_CHAR_END) {
+            while ((token != NULL) && (token[0] != GROUP_CHAR_END)) {
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index e5d82a1..2df8f93 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -219,6 +219,7 @@ int sim_init(
 
     if (strcmp(token, res_file_token) == 0) {
       token = strtok(NULL, tk_seps_prepared);
+      if (token == NULL) continue;
       if (strlen(token) >= FN_LEN_MAX) {
         err_msg("sim_bg init error: output file name is too long.");
         return RC_ERROR;
@@ -231,16 +232,17 @@ int sim_init(
       if (strcmp(token, snr_val_trn_token) == 0) {
         int i = 0;
         token = strtok(NULL, tk_seps_prepared);
-        if (token[0] == GROUP_CHAR_BEGIN) {
+        if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
           token = strtok(NULL, tk_seps_prepared);
-          while ((token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
+          while ((token != NULL) && (token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
             sim->snr_db[i] = atof(token);
             token = strtok(NULL, tk_seps_prepared);
+            if (token == NULL) break;
             sim->trn_req[i++] = atoi(token);
             token = strtok(NULL, tk_seps_prepared);
           }
         }
-        else {
+        if ((token == NULL) || (token[0] != GROUP_CHAR_END)) {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
           return RC_ERROR;
         }
@@ -250,7 +252,7 @@ int sim_init(
       }
     }
     if (sim->snr_num < 1) {
-      TRYGET_GRDOUBLE_TOKEN(token, "EbNo_values", sim->snr_db, sim->snr_num, SNR_NUM_MAX, "sim_bg init error: too many Eb/No values!");
+      TRYGET_GRDOUBLE_TOKEN(token, "EbNo_values", sim->snr_db, sim->snr_num, SNR_NUM_MAX, "sim_bg init error: cannot read EbNo_values (or too many values)!");
     }
     TRYGET_INT_TOKEN(token, "min_trials_per_snr", sim->min_trn);
     TRYGET_INT_TOKEN(token, "min_errors_per_snr", sim->min_en_bl);
-- 
2.43.0


From 4c9204b9c448f11cc6264b511230dd618a09355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 02/20] fix: include as the last token and include files ending
 with a comment are merged wrongly

---
 common/spf_par.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 7240c7c..3b9dea7 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -138,7 +138,10 @@ spf_read_preparse_ext(
    sp_str[0] = 0;
 
    // Remove comments from str1 and copy the result to str2.
-   str2_len = strcpy_strip_comments(str1, i1, 1, str2);
+   str2_len = strcpy_strip_comments(str1, i1, 0, str2);
+   // The last token must be followed by a separator too (it may be an include).
+   str2[str2_len++] = ' ';
+   str2[str2_len] = 0;
 
    // ----- Preparse parameters.
 
@@ -162,9 +165,9 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
+         i1 = strcpy_strip_comments(str1, i1, 0, str1);
          str1[i1++] = ' ';
          str1[i1] = 0;
-         i1 = strcpy_strip_comments(str1, i1, 1, str1);
          if (i1 + str2_len >= SP_STR_MAX) {
             err_msg("spf_read_preparse(): file is too huge.");
             free(sp_str);
-- 
2.43.0


From 357427a4d1e7c548f0962b7c691d5765517bfb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 03/20] fix: heap overflow when group braces expand the
 preparsed parameters string

---
 common/spf_par.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/spf_par.c b/common/spf_par.c
index 3b9dea7..fd32f5d 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -183,6 +183,14 @@ spf_read_preparse_ext(
          continue;
       }
       
+      // Each token takes its length plus up to 3 more characters in sp_str.
+      if (sp_str_len + strlen(token) + 4 > SP_STR_MAX) {
+         err_msg("spf_read_preparse(): file is too huge.");
+         free(sp_str);
+         free(str1);
+         return RC_ERROR;
+      }
+
       // Group begins.
       if (token[0] == GROUP_CHAR_BEGIN) {
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
-- 
2.43.0


From 6e222e0b62289be94cfc95c24311ce4ecaa0b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 04/20] fix: polar enc_bpsk with CRC returns eff_k and drops
 encoder errors

---
 polar_scl/ca_polar_scl_main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 3287e3b..55bd37a 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -412,6 +412,7 @@ enc_bpsk(
 {
    cdc_inst_type *dd;
    int *x_crc;
+   int rc;
 
    dd = (cdc_inst_type *)cdc;
 
@@ -423,9 +424,9 @@ enc_bpsk(
       }
       calc_crc(x, dd->eff_k, dd->crc, dd->crc_len, x_crc + dd->crc_len);
       memcpy(x_crc, x, dd->eff_k * sizeof(int));
-      smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
+      rc = smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
       free(x_crc);
-      return dd->eff_k;
+      return rc;
    }
    else {
       return smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x, y);
-- 
2.43.0


From 336e5ee36ae012613392a2d8b78c86120c209887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 05/20] fix: sim_run ignores encoder errors, leaks its buffers
 and counts failed trials

---
 simulators/sim_bg.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 2df8f93..19ff73f 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -357,6 +357,7 @@ int sim_run(
   time_t start_time;
   int en = 0;
   int i;
+  int ret_code = RC_OK;
 
   sim = (sim_bg_inst *)inst;
 
@@ -374,7 +375,8 @@ int sim_run(
   c_out = (double *)malloc(c_n * sizeof(double));
   if ((x == NULL) || (x_dec == NULL) || (c_in == NULL) || (c_out == NULL)) {
     err_msg("sim_bg run error: short of memory.");
-    return RC_ERROR;
+    ret_code = RC_ERROR;
+    goto ret;
   }
 
   // Main simulation loop.
@@ -394,12 +396,14 @@ int sim_run(
 
     while (sim->pt[csnrn].trn < sim->trn_req[csnrn]) {
 
-      sim->pt[csnrn].trn++;
-
       // Generate random or zero code word.
       if (sim->use_rndcw) {
         for (i = 0; i < c_k; i++) x[i] = (RND > 0.5) ? 1 : 0;
-        enc_bpsk(sim->dc_inst, x, c_in);
+        if (enc_bpsk(sim->dc_inst, x, c_in) != RC_OK) {
+          err_msg("sim_bg run error: error while encoding.");
+          ret_code = RC_ERROR;
+          goto ret;
+        }
       }
       else {
         for (i = 0; i < c_k; i++) x[i] = 0;
@@ -415,8 +419,10 @@ int sim_run(
       int rc = dec_bpsk(sim->dc_inst, c_out, x_dec);
       if (rc == RC_ERROR) {
         err_msg("sim_bg run error: error while decoding.");
-        return RC_ERROR;
+        ret_code = RC_ERROR;
+        goto ret;
       }
+      sim->pt[csnrn].trn++;
 
       // Count the number of incorrect information bits.
       en = 0;
@@ -434,15 +440,19 @@ int sim_run(
 
       // Check if the ML decoding would fail too.
       if (sim->do_ml && rc != RC_DEC_ERASURE) {
-        sim->pt[csnrn].trn_ml++;
         double d1 = 0.0, d2 = 0.0;
         if (sim->do_ml_hd)
           for (i = 0; i < c_n; i++) c_out[i] = (c_out[i] > 0.0) ? 1.0 : -1.0;
         // d1 <-- dist(c_in, c_out).
         for (i = 0; i < c_n; i++) d1 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         // d2 <-- dist[encode(x_dec), c_out].
-        enc_bpsk(sim->dc_inst, x_dec, c_in);
+        if (enc_bpsk(sim->dc_inst, x_dec, c_in) != RC_OK) {
+          err_msg("sim_bg run error: error while encoding.");
+          ret_code = RC_ERROR;
+          goto ret;
+        }
         for (i = 0; i < c_n; i++) d2 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
+        sim->pt[csnrn].trn_ml++;
         if (d1 > d2) sim->pt[csnrn].enml_bl++;
       }
 
@@ -450,23 +460,22 @@ int sim_run(
 
       // Check elapsed time.
       if (time(NULL) - start_time > sim->ret_int) {
-        free(c_out);
-        free(c_in);
-        free(x_dec);
-        free(x);
-        return RC_SIMUL_NOT_COMPLETED;
+        ret_code = RC_SIMUL_NOT_COMPLETED;
+        goto ret;
       }
     }
 
     sim->csnrn = ++csnrn;
   }
 
+ret:
+
   free(c_out);
   free(c_in);
   free(x_dec);
   free(x);
 
-  return RC_OK;
+  return ret_code;
 }
 
 // Return short simulation status string.
-- 
2.43.0


From 28db79a6969d66a21d6d9e7151eff95aa1cb0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 06/20] fix: main ignores simulation and saving errors and
 reads past argv

---
 simulators/main_txt.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 29387d7..66585ba 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -69,8 +69,8 @@ int main(int argc, char **argv) {
 
    for (i = 2; i < argc; i++) {
       if (strcmp(argv[i], "-nr") == 0) sp.dont_randomize = 1;
-      if (strcmp(argv[i], "-si") == 0) save_int = atoi(argv[++i]);
-      if (strcmp(argv[i], "-ri") == 0) sp.ret_int = atoi(argv[++i]);
+      if ((strcmp(argv[i], "-si") == 0) && (i + 1 < argc)) save_int = atoi(argv[++i]);
+      if ((strcmp(argv[i], "-ri") == 0) && (i + 1 < argc)) sp.ret_int = atoi(argv[++i]);
    }
 
 #ifdef WIN32
@@ -123,13 +123,14 @@ int main(int argc, char **argv) {
    }
    msg_printf("\n");
 
-   show_msg("Simulation is over.");
+   if (rc == RC_OK) show_msg("Simulation is over.");
+   else err_msg("Simulation is stopped.");
    sim_cur_res_str(sim_inst, msg_str);
    show_msg(msg_str);
 
-   sim_save_res(sim_inst);
+   if (sim_save_res(sim_inst) != RC_OK) rc = RC_ERROR;
 
    sim_close(sim_inst);
 
-   return RC_OK;
+   return rc;
 }
\ No newline at end of file
-- 
2.43.0


From 2de8bfcf31d89542324b6ffa5e737dd6e81e03c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 07/20] fix: sim_init leaks its buffers and the codec instance
 on errors

---
 simulators/sim_bg.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 19ff73f..3cf2f47 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -188,10 +188,10 @@ int sim_init(
   sim_init_params *sp, // Simulation parameters.
   void **inst // Simulation instance.
 ) {
-  char *sp_str; // Simulation parameters string.
-  sim_bg_inst *sim; // Simulator instance.
+  char *sp_str = NULL; // Simulation parameters string.
+  sim_bg_inst *sim = NULL; // Simulator instance.
   // Temporary variables.
-  char *token, *str1;
+  char *token, *str1 = NULL;
 
   // Read and preparse simulation parameters.
   if (spf_read_preparse(sp->spf_name, &sp_str) != RC_OK) return RC_ERROR;
@@ -200,7 +200,7 @@ int sim_init(
   sim = (sim_bg_inst *)malloc(sizeof(sim_bg_inst));
   if (sim == NULL) {
     err_msg("sim_bg init error: short of memory!");
-    return RC_ERROR;
+    goto ret_err;
   }
   memset(sim, 0, sizeof(sim_bg_inst));
 
@@ -208,7 +208,7 @@ int sim_init(
   str1 = (char *)malloc(SP_STR_MAX);
   if (str1 == NULL) {
     err_msg("sim_bg init error: short of memory!");
-    return RC_ERROR;
+    goto ret_err;
   }
   str1[0] = 0;
 
@@ -222,7 +222,7 @@ int sim_init(
       if (token == NULL) continue;
       if (strlen(token) >= FN_LEN_MAX) {
         err_msg("sim_bg init error: output file name is too long.");
-        return RC_ERROR;
+        goto ret_err;
       }
       strcpy(sim->rf_name, token);
       token = strtok(NULL, tk_seps_prepared);
@@ -244,7 +244,7 @@ int sim_init(
         }
         if ((token == NULL) || (token[0] != GROUP_CHAR_END)) {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
-          return RC_ERROR;
+          goto ret_err;
         }
         sim->snr_num = i;
         token = strtok(NULL, tk_seps_prepared);
@@ -268,7 +268,8 @@ int sim_init(
   strcpy(str1, sp_str);
   if (cdc_init(str1, &(sim->dc_inst))) {
     err_msg("sim_bg init error: cannot init codec.");
-    return RC_ERROR;
+    sim->dc_inst = NULL;
+    goto ret_err;
   }
 
   sim->code_n = cdc_get_n(sim->dc_inst);
@@ -277,7 +278,7 @@ int sim_init(
   // Check if all necessary parameters are specified.
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
-    return RC_ERROR;
+    goto ret_err;
   }
   if (sim->min_trn <= 0) {
     sim->min_trn = 1;
@@ -287,7 +288,7 @@ int sim_init(
   }
   if ((sim->code_n == 0) || (sim->code_k == 0)) {
     err_msg("sim_bg init error: code_n or code_k are not specified.");
-    return RC_ERROR;
+    goto ret_err;
   }
 
   // Assign other settings and init counters in the simulation instance.
@@ -307,6 +308,17 @@ int sim_init(
   (*inst) = sim;
 
   return RC_OK;
+
+ret_err:
+
+  if (sim != NULL) {
+    cdc_close(sim->dc_inst);
+    free(sim);
+  }
+  free(str1);
+  free(sp_str);
+
+  return RC_ERROR;
 }
 
 // Delete simulation instance.
-- 
2.43.0


From 15372557f830fc87be4b67035fbc3d4af628b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 08/20] fix: sim_init accepts simulations without the required
 res_file

---
 simulators/sim_bg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 3cf2f47..b41da39 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -276,6 +276,10 @@ int sim_init(
   sim->code_k = cdc_get_k(sim->dc_inst);
 
   // Check if all necessary parameters are specified.
+  if (sim->rf_name[0] == 0) {
+    err_msg("sim_bg init error: no res_file is specified.");
+    goto ret_err;
+  }
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
     goto ret_err;
-- 
2.43.0


From b105fa51a72f97ff2492eedad651f6328a3b3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 09/20] fix: requested number of trials may drop below the
 specified minimum or overflow

---
 simulators/sim_bg.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index b41da39..8c49fb9 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -44,7 +44,7 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MAX_TRIALS_PER_SNR 1e10
+#define MAX_TRIALS_PER_SNR 2e9 // Must fit int.
 
 // Minimum number of observed block errors to estimate required number of trials.
 #define MIN_EN_FOR_TRN_ESTIMATION 20
@@ -90,6 +90,7 @@ typedef struct {
   double snr_db[SNR_NUM_MAX];
   int min_trn;
   int min_en_bl;
+  int trn_min[SNR_NUM_MAX]; // Minimum number of trials for each SNR value.
   int trn_req[SNR_NUM_MAX];
   int do_ml; // If 1 evaluate ML LB.
   int do_ml_hd; // If 1 evaluate ML LB for hard dec. decoder.
@@ -300,6 +301,7 @@ int sim_init(
     if (sim->trn_req[i] < 1) {
       sim->trn_req[i] = sim->min_trn;
     }
+    sim->trn_min[i] = sim->trn_req[i];
   }
   sim->csnrn = 0;
   sim->ret_int = sp->ret_int;
@@ -344,12 +346,12 @@ static void update_trn_req(
     double estimate;
     if (sim->pt[csnrn].en_bl > MIN_EN_FOR_TRN_ESTIMATION) {
       estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;
-      sim->trn_req[csnrn] = (int)MAX(sim->min_trn, MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
       return;
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
       estimate = sim->pt[csnrn].trn * 1.5;
-      sim->trn_req[csnrn] = (int)MIN(estimate + 0.5, MAX_TRIALS_PER_SNR);
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
     }
   }
 }
-- 
2.43.0


From f8483133a962af78e3627cfd2bd99a05e50393af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 10/20] fix: sim_save_res leaves the busy flag on errors and
 loses trials when saving fails

---
 simulators/sim_bg.c | 120 ++++++++++++++++++++++++++++----------------
 1 file changed, 78 insertions(+), 42 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 8c49fb9..4f5b9ec 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -564,14 +564,12 @@ sim_cur_res_str(
   }
 }
 
-// Save simulation results.
-int
-sim_save_res(
-  void *inst // Simulation instance.
+// Merge new simulation results into the results file.
+// The busy flag must be already set.
+static int update_res_file(
+  sim_bg_inst *sim // Simulation instance.
 ) {
-  sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -583,30 +581,7 @@ sim_save_res(
   int er_n_n = 0;
   int enml_bl_n = 0;
   char err_reading_str[] = "sim_bg saving error: error reading old res file.";
-  int i, j, n, snrs_to_save;
-
-  sim = (sim_bg_inst *)inst;
-
-  // Check if the file is busy.
-  strcpy(bsyfn, sim->rf_name);
-  strcat(bsyfn, ".bsy");
-  n = 0;
-  while ((fp = fopen(bsyfn, "r")) != NULL) {
-    fclose(fp);
-    if (n++ > 30) {
-      err_msg("sim_bg saving error: output file is busy too long.");
-      return RC_ERROR;
-    }
-    sleep(1000);
-  }
-
-  // Create the busy flag.
-  if ((fp = fopen(bsyfn, "w")) == NULL) {
-    err_msg("sim_bg saving error: cannot create busy flag file.");
-    return RC_ERROR;
-  }
-  fprintf(fp, "Busy");
-  fclose(fp);
+  int i, j, n, rc, snrs_to_save;
 
   // Try to read and preparse old res file.
   if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
@@ -614,7 +589,6 @@ sim_save_res(
     // Get old data.
     token = strtok(str1, tk_seps_prepared);
     while (token != NULL) {
-      int rc;
       // TRYGET_INT_TOKEN(token, code_n_token, code_n);
       // TRYGET_INT_TOKEN(token, code_k_token, code_k);
       TRYGET_GRDOUBLE_TOKEN(token, SNR_token, snr_db, snr_num, SNR_NUM_MAX, err_reading_str);
@@ -622,32 +596,50 @@ sim_save_res(
         &token, tr_num_token, &pt_file[0].trn, sizeof(sim_point), &trn_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) {
+        free(str1);
+        return RC_ERROR;
+      }
       rc = tryread_group_int_param(
         &token, en_bit_token, &pt_file[0].en_bit, sizeof(sim_point), &en_bit_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) {
+        free(str1);
+        return RC_ERROR;
+      }
       rc = tryread_group_int_param(
         &token, en_bl_token, &pt_file[0].en_bl, sizeof(sim_point), &en_bl_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) {
+        free(str1);
+        return RC_ERROR;
+      }
       rc = tryread_group_int_param(
         &token, er_n_token, &pt_file[0].er_n, sizeof(sim_point), &er_n_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) {
+        free(str1);
+        return RC_ERROR;
+      }
       rc = tryread_group_int_param(
         &token, ml_tr_num_token, &pt_file[0].trn_ml, sizeof(sim_point), &ml_trn_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) {
+        free(str1);
+        return RC_ERROR;
+      }
       rc = tryread_group_int_param(
         &token, enml_bl_token, &pt_file[0].enml_bl, sizeof(sim_point), &enml_bl_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) {
+        free(str1);
+        return RC_ERROR;
+      }
       SPF_SKIP_UNKNOWN_PARAMETER(token);
     }
     free(str1);
@@ -691,9 +683,6 @@ sim_save_res(
       copy_sim_point(&pt_file[n], &sim->pt[n]);
     }
   }
-  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
-  }
 
   // Save updated data.
 
@@ -758,11 +747,58 @@ sim_save_res(
     );
   }
 
+  rc = ferror(fp);
+  if ((fclose(fp) != 0) || (rc != 0)) {
+    err_msg("sim_bg saving error: cannot write results.");
+    return RC_ERROR;
+  }
+
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
+  }
+
+  return RC_OK;
+}
+
+// Save simulation results.
+int
+sim_save_res(
+  void *inst // Simulation instance.
+) {
+  sim_bg_inst *sim;
+  FILE *fp;
+  char bsyfn[FN_LEN_MAX + 4]; // Busy flag file name.
+  int n, rc;
+
+  sim = (sim_bg_inst *)inst;
+
+  // Check if the file is busy.
+  strcpy(bsyfn, sim->rf_name);
+  strcat(bsyfn, ".bsy");
+  n = 0;
+  while ((fp = fopen(bsyfn, "r")) != NULL) {
+    fclose(fp);
+    if (n++ > 30) {
+      err_msg("sim_bg saving error: output file is busy too long.");
+      return RC_ERROR;
+    }
+    sleep(1000);
+  }
+
+  // Create the busy flag.
+  if ((fp = fopen(bsyfn, "w")) == NULL) {
+    err_msg("sim_bg saving error: cannot create busy flag file.");
+    return RC_ERROR;
+  }
+  fprintf(fp, "Busy");
+  fclose(fp);
+
+  rc = update_res_file(sim);
+
   // Delete busy flag file.
   remove(bsyfn);
 
-  fclose(fp);
-  return RC_OK;
+  return rc;
 }
 
 // Control simulation parameters "on the fly".
-- 
2.43.0


From ea43e27623da33912d50fd738e3758f263562ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 11/20] fix: merging results overflows SNR tables and
 duplicates SNR values

---
 simulators/sim_bg.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 4f5b9ec..cd5c4c5 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -654,9 +654,16 @@ static int update_res_file(
     // Update the data.
     for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
       if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
+      // Look for this SNR value (the file might be not sorted).
       n = 0;
-      while ((snr_db[n] < sim->snr_db[i]) && (n < snr_num)) n++;
-      if ((snr_db[n] > sim->snr_db[i]) || (n >= snr_num)) {
+      while ((n < snr_num) && (snr_db[n] != sim->snr_db[i])) n++;
+      if (n >= snr_num) {
+        if (snr_num >= SNR_NUM_MAX) {
+          err_msg("sim_bg saving error: too many SNR values in res file.");
+          return RC_ERROR;
+        }
+        n = 0;
+        while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
         // Make room for the new at n if required.
         for (j = snr_num; j > n; j--) {
           snr_db[j] = snr_db[j - 1];
@@ -695,7 +702,7 @@ static int update_res_file(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%.15g ", snr_db[n]);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0


From 2ee4d3123987c6155bda468baf88f9e23d5660d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 12/20] fix: old results are overwritten when the results file
 can't be read

---
 simulators/sim_bg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index cd5c4c5..39fcae5 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -683,7 +683,15 @@ static int update_res_file(
   }
   else {
 
-    // Assume there was no old res file.
+    // There must be no old data to lose (no res file or it is empty).
+    if ((fp = fopen(sim->rf_name, "rb")) != NULL) {
+      rc = fgetc(fp);
+      fclose(fp);
+      if (rc != EOF) {
+        err_msg("sim_bg saving error: cannot read old res file.");
+        return RC_ERROR;
+      }
+    }
     snrs_to_save = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;
     for (n = 0; n < snrs_to_save; n++) {
       snr_db[n] = sim->snr_db[n];
-- 
2.43.0


From 96a36d3005e63099f91b82aa9222f6ed1af9e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 13/20] fix: bit error rate overflows int for long simulations

---
 Octave/loadsrf.c    | 2 +-
 simulators/sim_bg.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 51c8cde..90d0aff 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -132,7 +132,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   mxArr = mxCreateDoubleMatrix(1, snr_num, mxREAL);
   d = mxGetPr(mxArr);
   for (n = 0; n < snr_num; n++) {
-    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / (trn[n] * c_k) : 0.0;
+    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / ((double)trn[n] * c_k) : 0.0;
   }
   mxSetFieldByNumber(res, 0, 3, mxArr);
 
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 39fcae5..270de26 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -543,7 +543,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn,
         sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0
       );
@@ -556,7 +556,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn
       );
       strcat(ds, str1);
-- 
2.43.0


From 36fbed1c80714854d9a72c5e615766589e7944a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 14/20] fix: msg_printf overflows its buffer on long messages

---
 Octave/ui_octave_txt.c | 2 +-
 common/ui_txt.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Octave/ui_octave_txt.c b/Octave/ui_octave_txt.c
index 9e10357..351d95d 100644
--- a/Octave/ui_octave_txt.c
+++ b/Octave/ui_octave_txt.c
@@ -46,7 +46,7 @@ void msg_printf(
   va_list args;
 
   va_start(args, msgf);
-  vsprintf(str_buf, msgf, args);
+  vsnprintf(str_buf, sizeof(str_buf), msgf, args);
   va_end(args);
 
   mexPrintf("%s", str_buf);
diff --git a/common/ui_txt.c b/common/ui_txt.c
index 1ba6472..358eed9 100644
--- a/common/ui_txt.c
+++ b/common/ui_txt.c
@@ -46,7 +46,7 @@ void msg_printf(
    va_list args;
 
    va_start(args, msgf);
-   vsprintf(str_buf, msgf, args);
+   vsnprintf(str_buf, sizeof(str_buf), msgf, args);
    va_end(args);
 
    printf("%s", str_buf);
-- 
2.43.0


From 0c9b145306c0f3647d86fdf8ef387fb35d5ac51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 15/20] fix: dtrm0 and dtrm1 overflow their buffers or recurse
 forever on unsupported RM_m, RM_r

---
 dtrm/dtrm0.c | 10 +++++++++-
 dtrm/dtrm1.c |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 8f832d3..792eda6 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -37,6 +37,10 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Limits for the code parameters.
+#define RM_M_MAX           24
+#define RM_R_MAX           10   // (r, r) nodes are decoded using a buffer of this size (log2).
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -92,7 +96,7 @@ tri0_dec(
 
    // RM(m, m) case.
    if (r == m) {
-      int tmp[1024];
+      int tmp[1 << RM_R_MAX];
       (*x_dec_len) = n; // n information bits.
       for (i = 0; i < n; i++) {
          if (CHECK_EST0(y_in[i])) {
@@ -188,6 +192,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_r < 1) || (c_r > RM_R_MAX) || (c_m < c_r) || (c_m > RM_M_MAX)) {
+      err_msg("cdc_init: unsupported RM_m or RM_r.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 44577ea..02a283d 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -42,6 +42,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Limits for the code parameters.
+#define NODE_M_MAX         12   // End nodes are decoded using buffers of this size (log2).
+
 
 //-----------------------------------------------------------------------------
 // Internal typedefs.
@@ -75,7 +78,7 @@ tri1_dec(
 )
 {
    int i, n2, cur_x_dec_len;
-   int tmp[4096];
+   int tmp[1 << NODE_M_MAX];
    double *y1, *y2, *y_dec1, *y_dec2;
 
    // RM(m, m) case.
@@ -195,6 +198,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_r < 1) || (c_r > NODE_M_MAX) || (c_m < c_r) || (c_m - c_r + 1 > NODE_M_MAX)) {
+      err_msg("cdc_init: unsupported RM_m or RM_r.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
-- 
2.43.0


From 89e20d845237090e2856ba614af7a6713b113fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 16/20] fix: dtrm1 decoder ignores memory allocation failures

---
 dtrm/dtrm1.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 02a283d..543162a 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -126,10 +126,10 @@ tri1_dec(
    // Decode u1.
    // [x_dec1, y_dec1] = dtrm01_she(r - 1, m - 1, y1 .* y2);
    for (i = 0; i < n2; i++) aux_buf[i] = y1[i] * y2[i];
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r - 1, m - 1, n2,
       y_dec1, x_dec, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) = cur_x_dec_len;
 
    // Decode u2.
@@ -137,10 +137,10 @@ tri1_dec(
    for (i = 0; i < n2; i++) y1[i] *= y_dec1[i];
    VADD_EST(y1, y2, aux_buf, n2);
    // ADD_EST_EPS(y1, y2, aux_buf, n2);
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r, m - 1, n2,
       y_dec2, x_dec + cur_x_dec_len, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) += cur_x_dec_len;
 
    // y_dec = [y_dec1 .* y_dec2, y_dec2];
@@ -297,7 +297,7 @@ dec_bpsk(
    double *dec_input, *y_dec, *aux_buf;
    // int max_peak_lsiz;
    void *mem_buf;
-   int i;
+   int i, rc;
 
    dd = (cdc_inst_type *)cdc;
 
@@ -314,9 +314,13 @@ dec_bpsk(
    for (i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;
    VY_TO_FORMAT(dec_input, dec_input, dd->c_n);
 
-   tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf);
+   rc = tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf);
 
    free(mem_buf);
 
+   if (rc != 0) {
+      err_msg("dec_bpsk: Short of memory.");
+      return -1;
+   }
    return 0;
 }
-- 
2.43.0


From 30a5c553aef9102cbf675cd9573f114daa951d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 17/20] fix: dtrm_glp and ca_polar_scl overflow buffers on
 inconsistent or out of range parameters

---
 common/srm_utils.c            |  6 +++
 common/srm_utils.h            |  3 ++
 dtrm_glp/dtrm_glp_main.c      | 74 +++++++++++++++++++++++++++++++----
 polar_scl/ca_polar_scl_main.c | 63 ++++++++++++++++++++++++++---
 4 files changed, 132 insertions(+), 14 deletions(-)

diff --git a/common/srm_utils.c b/common/srm_utils.c
index fac66a3..8929da9 100644
--- a/common/srm_utils.c
+++ b/common/srm_utils.c
@@ -155,6 +155,12 @@ int calc_srm_k(int m, int r, uint32 *node_table) {
    return calc_srm_k_p(m, r, node_table);
 }
 
+// Calculate the number of border nodes of SubRM(r, m) tr0/P(node_table) code.
+int calc_srm_nodes_num(int m, int r) {
+   if ((r == 0) || (m == r)) return 1;
+   return calc_srm_nodes_num(m - 1, r - 1) + calc_srm_nodes_num(m - 1, r);
+}
+
 //
 // Utils for tr0/P(node_table) codes, modified gen. matrix.
 //
diff --git a/common/srm_utils.h b/common/srm_utils.h
index 9daf2ae..eba26a8 100644
--- a/common/srm_utils.h
+++ b/common/srm_utils.h
@@ -62,6 +62,9 @@ int mrm_enc_bpsk(
 // Calculate dimension of SubRM(r, m) tr/P(node_table) code.
 int calc_srm_k(int m, int r, uint32 *node_table);
 
+// Calculate the number of border nodes of SubRM(r, m) tr0/P(node_table) code.
+int calc_srm_nodes_num(int m, int r);
+
 // Encode SubRM(r, m) tr0/P(node_table) code (for BSC).
 // Modified generator matrix.
 int smrm_enc_bsc(
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index cb76254..70e50f6 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -37,6 +37,11 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Limits for the code and decoder parameters.
+#define C_M_MAX            11
+#define LSIZ_MAX           65536
+#define P_INFO_LEN_MAX     10000
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -61,9 +66,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
+size_t get_membuf_size(decoder_type *dd) {
    int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -81,6 +86,15 @@ int get_membuf_size(decoder_type *dd) {
    return mem_buf_size;
 }
 
+// Check that p[] is a permutation of (0 1 ... m - 1).
+static int is_permutation(const int *p, int m) {
+  int i, mask = 0;
+  for (i = 0; i < m; i++) {
+    if ((p[i] < 0) || (p[i] >= m)) return 0;
+    mask |= 1 << p[i];
+  }
+  return mask == (1 << m) - 1;
+}
 
 //-----------------------------------------------------------------------------
 // codec interface functions.
@@ -96,8 +110,8 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
-   int p_num = 0;
+   int p_info[P_INFO_LEN_MAX], inf_coeff[1 << C_M_MAX];
+   int p_num = 0, p_info_len = 0;
 
    // Allocate decoder instance.
    dd = (cdc_inst_type *)malloc(sizeof(cdc_inst_type));
@@ -126,6 +140,7 @@ cdc_init(
       if (strcmp(token, "border_node_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
          if (token == NULL) continue;
+         CHK_FREE(dd->dc.node_table);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -145,7 +160,7 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "permutations") == 0) {
-         if (c_m == 0) {
+         if (c_m <= 0) {
             err_msg("cdc_init(): parameters file: RM_m must be specified before permutations.");
             goto ret_err;
          }
@@ -156,6 +171,10 @@ cdc_init(
             p_num = 0;
             while ((token != NULL) && (token[0] != GROUP_CHAR_END)) {
                for (i = 0; i < c_m; i++) {
+                  if (i1 >= P_INFO_LEN_MAX) {
+                     err_msg("cdc_init(): parameters file: too many permutations.");
+                     goto ret_err;
+                  }
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
@@ -165,8 +184,9 @@ cdc_init(
                }
                p_num++;
             }
+            p_info_len = i1;
          }
-         else {
+         if ((token == NULL) || (token[0] != GROUP_CHAR_END)) {
             err_msg("cdc_init(): parameters file: permutations.");
             goto ret_err;
          }
@@ -191,26 +211,56 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_r < 2) || (c_r >= c_m) || (c_m > C_M_MAX)) {
+      err_msg("cdc_init: unsupported RM_m or RM_r.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No border nodes map.");
       goto ret_err;
    }
+   if (dd->dc.node_table_len < calc_srm_nodes_num(c_m, c_r)) {
+      err_msg("cdc_init: border_node_mask is too short.");
+      goto ret_err;
+   }
    if (dd->dc.peak_lsiz == 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
-   if ((dd->use_var_list != 0) && (dd->dist_t_n == 0)) {
+   if ((dd->use_var_list != 0) && (dd->dist_t_n <= 0)) {
       err_msg("cdc_init: No distance_threshold.");
       goto ret_err;
    }
+   // The memory buffer must fit the longest list.
+   if (dd->use_var_list != 0) {
+      for (i = 0; i < dd->dist_t_n; i++) {
+         if (dd->lsiz[i] < 1) {
+            err_msg("cdc_init: wrong list size.");
+            goto ret_err;
+         }
+         dd->dc.peak_lsiz = MAX(dd->dc.peak_lsiz, dd->lsiz[i]);
+      }
+   }
+   if ((dd->dc.peak_lsiz < 1) || (dd->dc.peak_lsiz > LSIZ_MAX)) {
+      err_msg("cdc_init: wrong list size.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
    dd->c_k = dd->dc.c_k = c_k = calc_srm_k(c_m, c_r, dd->dc.node_table);
+   if (c_k < 1) {
+      err_msg("cdc_init: no information bits.");
+      goto ret_err;
+   }
 
    // Generate permutations.
+   if (p_info_len != p_num * c_m) {
+      err_msg("cdc_init: permutations do not match RM_m.");
+      goto ret_err;
+   }
    if (p_num == 0) {
       // permutations parameter was not given => only one permutation
       // (0 1 ... m-1) (no permutation).
@@ -221,7 +271,7 @@ cdc_init(
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
       dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
-      if ((dd->dc.pxarr == NULL) || (dd->dc.pxarr == NULL)) {
+      if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
       }
@@ -240,6 +290,10 @@ cdc_init(
    }
    // Generate permutation arrays.
    for (pn = 0; pn < p_num; pn++) {
+      if (!is_permutation(p1, c_m)) {
+         err_msg("cdc_init: invalid permutation.");
+         goto ret_err;
+      }
       // Next permutation for y.
       for (i = 0; i < c_n; i++) {
          i1 = 0;
@@ -255,6 +309,10 @@ cdc_init(
          i2 = inf_coeff[i];
          for (j = 0; j < c_m; j++) i1 |= ((i2 >> j) & 1) << p1[j];
          for (j = 0; j < c_k; j++) if (inf_coeff[j] == i1) break;
+         if (j >= c_k) {
+            err_msg("cdc_init: permutations are not applicable to this code.");
+            goto ret_err;
+         }
          px[i] = j;
       }
       // for (i = 0; i < c_k; i++) msg_printf("%d ", px[i]); // DDD
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 55bd37a..4cff666 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -40,6 +40,11 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Limits for the code and decoder parameters.
+#define C_M_MAX            11
+#define LSIZ_MAX           65536
+#define P_INFO_LEN_MAX     10000
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -63,9 +68,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
+size_t get_membuf_size(decoder_type *dd) {
    int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -121,6 +126,16 @@ int get_best_in_list(
   }
 }
 
+// Check that p[] is a permutation of (0 1 ... m - 1).
+static int is_permutation(const int *p, int m) {
+  int i, mask = 0;
+  for (i = 0; i < m; i++) {
+    if ((p[i] < 0) || (p[i] >= m)) return 0;
+    mask |= 1 << p[i];
+  }
+  return mask == (1 << m) - 1;
+}
+
 #ifdef DBG
 void print_bin_vect(char rem[], int *x, int x_len) {
   int i;
@@ -146,8 +161,8 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
-   int p_num = 0;
+   int p_info[P_INFO_LEN_MAX], inf_coeff[1 << C_M_MAX];
+   int p_num = 0, p_info_len = 0;
 
    // Allocate decoder instance.
    dd = (cdc_inst_type *)malloc(sizeof(cdc_inst_type));
@@ -175,6 +190,7 @@ cdc_init(
       if (strcmp(token, "info_bits_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
          if (token == NULL) continue;
+         CHK_FREE(dd->dc.node_table);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -189,6 +205,7 @@ cdc_init(
       if (strcmp(token, "ca_polar_crc") == 0) {
          token = strtok(NULL, tk_seps_prepared);
          if (token == NULL) continue;
+         CHK_FREE(dd->crc);
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
@@ -209,7 +226,7 @@ cdc_init(
       }
       if (strcmp(token, "permutations") == 0) {
          // TODO: Permutations that were used for RM codes are not usable with Polar, but let's leave it here for now.
-         if (c_m == 0) {
+         if (c_m <= 0) {
             err_msg("cdc_init(): parameters file: c_m must be specified before permutations.");
             goto ret_err;
          }
@@ -220,6 +237,10 @@ cdc_init(
             p_num = 0;
             while ((token != NULL) && (token[0] != GROUP_CHAR_END)) {
                for (i = 0; i < c_m; i++) {
+                  if (i1 >= P_INFO_LEN_MAX) {
+                     err_msg("cdc_init(): parameters file: too many permutations.");
+                     goto ret_err;
+                  }
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
@@ -229,8 +250,9 @@ cdc_init(
                }
                p_num++;
             }
+            p_info_len = i1;
          }
-         else {
+         if ((token == NULL) || (token[0] != GROUP_CHAR_END)) {
             err_msg("cdc_init(): parameters file: permutations.");
             goto ret_err;
          }
@@ -250,25 +272,45 @@ cdc_init(
       err_msg("cdc_init: c_m is not specified.");
       goto ret_err;
    }
+   if ((c_m < 1) || (c_m > C_M_MAX)) {
+      err_msg("cdc_init: unsupported c_m.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No info_bits_mask.");
       goto ret_err;
    }
+   if (dd->dc.node_table_len < (1 << c_m)) {
+      err_msg("cdc_init: info_bits_mask is too short.");
+      goto ret_err;
+   }
    if (dd->dc.peak_lsiz == 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
+   if ((dd->dc.peak_lsiz < 1) || (dd->dc.peak_lsiz > LSIZ_MAX)) {
+      err_msg("cdc_init: wrong list size.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
    dd->c_k = dd->dc.c_k = c_k = get_k_from_node_table(c_n, dd->dc.node_table);
    dd->eff_k = c_k - dd->crc_len;
+   if ((dd->eff_k < 1) || (dd->eff_k < dd->crc_len)) {
+      err_msg("cdc_init: not enough information bits.");
+      goto ret_err;
+   }
    dd->dc.ret_list = (dd->crc_len > 0) ? 1 : 0;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
 
    // Generate permutations.
    // TODO: Permutations.
+   if (p_info_len != p_num * c_m) {
+      err_msg("cdc_init: permutations do not match c_m.");
+      goto ret_err;
+   }
    if (p_num == 0) {
       // permutations parameter was not given => only one permutation
       // (0 1 ... m-1) (no permutation).
@@ -298,6 +340,10 @@ cdc_init(
    }
    // Generate permutation arrays.
    for (pn = 0; pn < p_num; pn++) {
+      if (!is_permutation(p1, c_m)) {
+         err_msg("cdc_init: invalid permutation.");
+         goto ret_err;
+      }
       // Next permutation for y.
       for (i = 0; i < c_n; i++) {
          i1 = 0;
@@ -313,6 +359,10 @@ cdc_init(
          i2 = inf_coeff[i];
          for (j = 0; j < c_m; j++) i1 |= ((i2 >> j) & 1) << p1[j];
          for (j = 0; j < c_k; j++) if (inf_coeff[j] == i1) break;
+         if (j >= c_k) {
+            err_msg("cdc_init: permutations are not applicable to this code.");
+            goto ret_err;
+         }
          px[i] = j;
       }
       // for (i = 0; i < c_k; i++) msg_printf("%d ", px[i]); // DDD
@@ -347,6 +397,7 @@ ret_err:
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
       if (dd->dc.pyarr != NULL) free(dd->dc.pyarr);
       if (dd->dc.node_table != NULL) free(dd->dc.node_table);
+      if (dd->crc != NULL) free(dd->crc);
       free(dd);
       (*cdc) = NULL;
    }
-- 
2.43.0


From d8260b4065325f0a6f0131ff19f555e4fa295123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 18/20] fix: list decoders use missing candidates and ignore
 memory allocation failures

---
 dtrm_glp/dtrm_glp_main.c      |  5 ++++-
 polar_scl/ca_polar_scl_main.c | 12 +++++++++---
 polar_scl/polar_scl_inner.c   |  3 ++-
 polar_scl/polar_scl_inner.h   |  1 +
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 70e50f6..6a66d21 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -466,7 +466,10 @@ dec_bpsk(
          for (j = 0; j < dd->dc.node_table_len; j++)
             dd->dc.node_table[j] = (dd->dc.node_table[j] == 0) ? 0 : dd->lsiz[i];
          rm_dec(&(dd->dc), dec_input, x_dec, NULL);
-         enc_bpsk(cdc, x_dec, y_dec);
+         if (enc_bpsk(cdc, x_dec, y_dec) != 0) {
+            free(mem_buf);
+            return -1;
+         }
          d1 = 0.0;
          // d1 <-- dist(dec_input, y_dec).
          for (j = 0; j < dd->c_n; j++)
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 4cff666..60ad9c8 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -113,7 +113,7 @@ int get_best_in_list(
     int i;
     int *tmp = (int *)malloc(x_len * sizeof(int));
     if (tmp == NULL) {
-      return 0;
+      return -2;
     }
     for (i = 0; i < lsiz; i++) {
       if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp)) {
@@ -497,6 +497,7 @@ dec_bpsk(
    uint8 *mem_buf, *mem_buf_ptr;
    int mem_buf_size;
    int best_ind;
+   int lsiz; // Number of candidates in the list.
    int is_erasure = 0;
 
    dd = (cdc_inst_type *)cdc;
@@ -524,11 +525,16 @@ dec_bpsk(
    for (int i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;
 
    if (dd->dc.ret_list) {
-      polar_dec(&(dd->dc), dec_input, x_candidates, NULL);
-      best_ind = get_best_in_list(x_candidates, dd->eff_k, dd->dc.peak_lsiz, dd->crc, dd->crc_len);
+      lsiz = polar_dec(&(dd->dc), dec_input, x_candidates, NULL);
+      best_ind = get_best_in_list(x_candidates, dd->eff_k, lsiz, dd->crc, dd->crc_len);
 #ifdef DBG
       printf("best_ind: %d\n", best_ind);
 #endif
+      if (best_ind < -1) {
+        err_msg("dec_bpsk: Short of memory.");
+        free(mem_buf);
+        return RC_ERROR;
+      }
       if (best_ind < 0) {
         is_erasure = 1;
         best_ind = 0;
diff --git a/polar_scl/polar_scl_inner.c b/polar_scl/polar_scl_inner.c
index 328377b..28873bb 100644
--- a/polar_scl/polar_scl_inner.c
+++ b/polar_scl/polar_scl_inner.c
@@ -359,6 +359,7 @@ void polar_dec_inner(
 }
 
 // Decoding procedure.
+// Return: number of sequences returned in x_dec.
 int
 polar_dec(
    decoder_type *dd, // Decoder instance data.
@@ -544,5 +545,5 @@ polar_dec(
     }
   }
 
-  return 0;
+  return dd->ret_list ? cur_lsiz : 1;
 }
diff --git a/polar_scl/polar_scl_inner.h b/polar_scl/polar_scl_inner.h
index c1dee67..4046b05 100644
--- a/polar_scl/polar_scl_inner.h
+++ b/polar_scl/polar_scl_inner.h
@@ -61,6 +61,7 @@ typedef struct {
 
 
 // Decoding procedure.
+// Return: number of sequences returned in x_dec.
 int
 polar_dec(
   decoder_type *dd, // Decoder instance data.
-- 
2.43.0


From 48449a11b4ff2cf4f01cc38220905ec22795f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 19/20] fix: README names a wrong comment character

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index d12850e..b06f8a1 100644
--- a/README.md
+++ b/README.md
@@ -46,7 +46,7 @@ Common options are:
 
 These are plain text with the following structure:
 * Empty lines are skipped.
-* Lines starting with `#` are considered to be comments and ignored.
+* Text from `%` up to the end of the line is considered to be a comment and ignored.
 * Each parameter is a key/value pair separated by one or more spaces.
 * Parameter may have a group value surrounded by curly brackets (`{}`).
 * Any parameter with unknown key is ignored. 
-- 
2.43.0


From 2b8eb822ff282e59099d4ea71624c190140a82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:46 +0000
Subject: [PATCH 20/20] fix: errors in the results loader leak the file text

mexErrMsgTxt() leaves the MEX function at once, so everything the callers
of err_msg() release after reporting an error was lost in Octave. Only
warn there, and raise the error when everything has been released.
---
 Octave/loadsrf.c       | 6 +++---
 Octave/ui_octave_txt.c | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 90d0aff..77e6e45 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -86,14 +86,14 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   // Check arguments.
   if (nrhs < 1) {
     msg_printf("Usage: %s('path/to/file.srf')\n", mexFunctionName());
-    err_msg("No input file name.\n");
+    mexErrMsgTxt("No input file name.\n");
     return;
   }
 
   // Get data from the SRF file.
   char *infName = mxArrayToString(prhs[0]);
   if (spf_read_preparse(infName, &str1) != 0) {
-    err_msg(err_reading_msg);
+    mexErrMsgTxt(err_reading_msg);
     return;
   }
   token = strtok(str1, tk_seps_prepared);
@@ -115,7 +115,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   if ((snr_num != trn_n) || (en_bit_n != trn_n) || (en_bl_n != trn_n) || (er_n_n > 0 && er_n_n != trn_n)
       || (enml_bl_n != trn_n) || (ml_trn_n != trn_n)
       || (c_n == 0) || (c_k == 0)) {
-    err_msg("Invalid SRF file.");
+    mexErrMsgTxt("Invalid SRF file.");
     return;
   }
 
diff --git a/Octave/ui_octave_txt.c b/Octave/ui_octave_txt.c
index 351d95d..c624a19 100644
--- a/Octave/ui_octave_txt.c
+++ b/Octave/ui_octave_txt.c
@@ -33,8 +33,10 @@ void show_msg(char msg[]) {
   mexPrintf("%s\n", msg);
 }
 
+// mexErrMsgTxt() does not return to the caller, who still has to release its
+// memory and files. So it only can be called after that is done.
 void err_msg(char msg[]) {
-  mexErrMsgTxt(msg);
+  mexWarnMsgTxt(msg);
 }
 
 void msg_printf(
-- 
2.43.0

