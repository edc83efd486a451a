From ba075d6f61fedf6baf8d57c4d1f61b676e428498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 01/73] fix: compare_sequence_par() compares the image names of
 both objects

---
 liboptv/src/parameters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 785328d..5ad5d3a 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -99,7 +99,7 @@ int compare_sequence_par(sequence_par *sp1, sequence_par *sp2) {
         return 0; /*not equal*/
 
     for (cam = 0; cam < sp1->num_cams; cam++) {
-        if (strcmp(sp1->img_base_name[cam],sp1->img_base_name[cam]) !=0){
+        if (strcmp(sp1->img_base_name[cam],sp2->img_base_name[cam]) !=0){
             return 0; /*not equal*/
         }
     }
-- 
2.43.0


From 331476969495bc4bf676771f39d8137b6a419046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 02/73] fix: check fopen() results before using the file in
 parameter I/O

---
 liboptv/src/parameters.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 5ad5d3a..4cd10d2 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -156,6 +156,11 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
+    if (fpp == NULL) {
+        printf("Could not open tracking parameters file %s\n", filename);
+        free(ret);
+        return NULL;
+    }
     if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) == 0) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) == 0) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->dvymin)) == 0) goto handle_error;
@@ -227,6 +232,11 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
+    if (fpp == NULL) {
+        printf("Could not open volume parameters file %s\n", filename);
+        free(ret);
+        return NULL;
+    }
     if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) == 0) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) == 0) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) == 0) goto handle_error;
@@ -533,8 +543,10 @@ int compare_target_par(target_par *targ1, target_par *targ2) {
 void write_target_par(target_par *targ, char *filename) {
     FILE *file = fopen(filename, "w");
 
-    if (file == NULL)
+    if (file == NULL) {
         printf("Can't create file: %s\n", filename);
+        return;
+    }
 
     fprintf(file, "%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d",
             targ->gvthres[0],
-- 
2.43.0


From 80d228399c672f001e90437a2d8875adef430e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 03/73] fix: truncated parameter files are read errors, not
 successes

---
 liboptv/src/parameters.c | 76 ++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 4cd10d2..42bd0a1 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -38,14 +38,14 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
 
     for (cam = 0; cam < num_cams; cam++) {
         read_ok = fscanf(par_file, "%s\n", line);
-        if (read_ok == 0) goto handle_error;
+        if (read_ok != 1) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) == 0)
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) != 1)
         goto handle_error;
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) == 0)    
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) != 1)    
         goto handle_error;
 
     fclose(par_file);
@@ -161,15 +161,15 @@ parsing to fail */
         free(ret);
         return NULL;
     }
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dangle)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dacc)) == 0) goto handle_error;
-    if(fscanf(fpp, "%d\n", &(ret->add)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dangle)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dacc)) != 1) goto handle_error;
+    if(fscanf(fpp, "%d\n", &(ret->add)) != 1) goto handle_error;
     fclose (fpp);
     
     ret->dsumg = ret->dn = ret->dnx = ret->dny = 0;
@@ -237,19 +237,19 @@ parsing to fail */
         free(ret);
         return NULL;
     }
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) != 1) goto handle_error;
     
-    if(fscanf(fpp, "%lf\n", &(ret->cnx)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cny)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cn)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->csumg)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->eps0)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cnx)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cny)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cn)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->csumg)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->eps0)) != 1) goto handle_error;
     
     fclose (fpp);
     return ret;
@@ -367,26 +367,26 @@ parsing to fail */
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
     
-    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imx)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imy)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->chfield)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) == 0) goto handle_error; 
+    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imx)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imy)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->chfield)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) != 1) goto handle_error; 
     
     fclose(par_file);
     ret->mm->nlay = 1;
-- 
2.43.0


From 2823988fbdbc40718f069f47e4d9a28d68274ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 04/73] fix: read_control_par() closes its file when the camera
 count is bad

---
 liboptv/src/parameters.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 42bd0a1..89f7125 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -363,6 +363,7 @@ parsing to fail */
 
     if (fscanf(par_file, "%d\n", &num_cams) != 1) {
         printf("Could not read number of cameras from %s", filename);
+        fclose(par_file);
         return NULL;
     }
     ret = new_control_par(num_cams);
-- 
2.43.0


From 69335a8316e53a011b9b3f51665f7f70e2215901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 05/73] fix: bound the length of image names read from
 parameter files

---
 liboptv/src/parameters.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 89f7125..3cab5aa 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -37,7 +37,7 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
     ret = new_sequence_par(num_cams);
 
     for (cam = 0; cam < num_cams; cam++) {
-        read_ok = fscanf(par_file, "%s\n", line);
+        read_ok = fscanf(par_file, "%239s\n", line);
         if (read_ok != 1) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
@@ -368,10 +368,10 @@ parsing to fail */
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
+        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
+        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-- 
2.43.0


From 25f8bbd3e04b60940b57ffb77430d8c533c6065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 06/73] fix: read_ori() closes the orientation file when its
 contents are bad

---
 liboptv/src/calibration.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 6e7a973..c6d4370 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -100,22 +100,22 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
   scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf",
 	  &(Ex->x0), &(Ex->y0), &(Ex->z0),
 	  &(Ex->omega), &(Ex->phi), &(Ex->kappa));
-  if (scan_res != 6) return 0;
+  if (scan_res != 6) goto handle_error;
   
   /* Exterior rotation matrix */
   for (i=0; i<3; i++) {
     scan_res = fscanf (fp, " %lf %lf %lf",
         &(Ex->dm[i][0]), &(Ex->dm[i][1]), &(Ex->dm[i][2]));
-    if (scan_res != 3) return 0;
+    if (scan_res != 3) goto handle_error;
   }
 
   /* Interior */
   scan_res = fscanf (fp, "%lf %lf %lf", &(I->xh), &(I->yh), &(I->cc));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   /* Glass */
   scan_res = fscanf (fp, "%lf %lf %lf", &(G->vec_x), &(G->vec_y), &(G->vec_z));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   fclose(fp);
   
-- 
2.43.0


From cdbcbf92b4933962c7eac56c8fafe0099396f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 07/73] fix: read_ori() reports unreadable distortion
 parameters as failure

---
 liboptv/src/calibration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index c6d4370..7f9dcc5 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -128,6 +128,7 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
         &(addp->k1), &(addp->k2), &(addp->k3), &(addp->p1), &(addp->p2),
         &(addp->scx), &(addp->she));
     fclose (fp);
+    if (scan_res != 7) return 0;
   } else {
     printf("no addpar fallback used\n"); // Waits for proper logging.
     addp->k1 = addp->k2 = addp->k3 = addp->p1 = addp->p2 = addp->she = 0.0;
-- 
2.43.0


From beeb61688020dc5d035689dd7e554c97c18f1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 08/73] fix: write_ori() without a distortion file is a success

---
 liboptv/src/calibration.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 7f9dcc5..e00ce42 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -43,7 +43,10 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   fclose (fp);
   fp = NULL;
   
-  if (add_file == NULL) goto finalize;
+  if (add_file == NULL) {
+    success = 1;
+    goto finalize;
+  }
   fp = fopen (add_file, "w");
   if (! fp) {
         printf("Can't open ascii file: %s\n", add_file);
-- 
2.43.0


From 7d2f85ec0f779fc52b4ea6fb1d6a329b171c7e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 09/73] fix: read_ori() does not pass a NULL file name to
 fopen()

---
 liboptv/src/calibration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index e00ce42..a300ec3 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -123,7 +123,7 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
   fclose(fp);
   
   /* Additional: */
-  fp = fopen(add_file, "r");
+  fp = (add_file != NULL) ? fopen(add_file, "r") : NULL;
   if ((fp == NULL) && add_fallback) fp = fopen (add_fallback, "r");
   
   if (fp) {
-- 
2.43.0


From a2837cbbf62ed311f5052a3fe30083593f8bb848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 10/73] fix: read_targets() reports truncated target files as
 an error

---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index a75b4c6..c5c36e2 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -59,7 +59,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
         goto handle_error;
     }
 
-    if (fscanf(FILEIN, "%d\n", &num_targets) == 0) {
+    if (fscanf(FILEIN, "%d\n", &num_targets) != 1) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
     }
@@ -70,7 +70,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
 		  &(buffer[tix].nx),   &(buffer[tix].ny),
 		  &(buffer[tix].sumg), &(buffer[tix].tnr) );
       
-      if (scanf_ok == 0) {
+      if (scanf_ok != 8) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
       }
-- 
2.43.0


From 0cd524cbd3f88bf57876037e2033f63e593cd90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 11/73] fix: read_path_frame() reports truncated link files as
 an error

---
 liboptv/src/tracking_frame_buf.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index c5c36e2..c5f6342 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -247,7 +247,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     }
     
     read_res = fscanf(filein, "%d\n", &read_res);
-    if (!read_res) goto finalize;
+    if (read_res != 1) goto finalize;
     
     if (linkage_file_base != NULL) {
         sprintf(fname, "%s.%d", linkage_file_base, frame_num);
@@ -260,7 +260,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
     
         read_res = fscanf(linkagein, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        if (read_res != 1) goto finalize;
     }
     
     if (prio_file_base != NULL) {
@@ -274,7 +274,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
     
         read_res = fscanf(prioin, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        if (read_res != 1) goto finalize;
     }
     
     targets = 0;
@@ -282,7 +282,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
-            if (!read_res) {
+            if (read_res != 5) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -298,7 +298,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
-            if (!read_res) {
+            if (read_res != 6) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
-- 
2.43.0


From 30b9579764e94337fb34a4a9dbf920c18a8e28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 12/73] fix: read_path_frame() reads particle numbers of more
 than 4 digits

---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index c5f6342..7a35b9f 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -280,7 +280,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     targets = 0;
     do {
         if (linkagein != NULL) {
-            read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
+            read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
             if (read_res != 5) {
                 printf("Error with linkage file format in: %s.%d\n",
@@ -295,7 +295,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
         
         if (prioin != NULL) {
-            read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
+            read_res = fscanf( prioin, "%d %d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
             if (read_res != 6) {
-- 
2.43.0


From 77bd927a043f7e35283bb47b83d268b3b007bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 13/73] fix: write_targets() adds no number for negative
 frames, as documented

---
 liboptv/src/tracking_frame_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 7a35b9f..01464f3 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -106,7 +106,7 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     int	tix, printf_ok, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
-    if (frame_num == 0){
+    if (frame_num <= 0){
         sprintf(fileout, "%s%s", file_base, "_targets");
     } else {
         sprintf(fileout, "%s%04d%s", file_base, frame_num, "_targets");
-- 
2.43.0


From 8be5a433a55bb0cd37545c292f9b2efd877c6a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 14/73] fix: over-long file names fail instead of overrunning
 the name buffers

---
 liboptv/src/tracking_frame_buf.c | 55 +++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 01464f3..b1d6601 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -42,16 +42,18 @@ int compare_targets(target *t1, target *t2) {
 */
 
 int read_targets(target buffer[], char* file_base, int frame_num) {
-    FILE *FILEIN;
-    int	tix, num_targets, scanf_ok;
+    FILE *FILEIN = NULL;
+    int	tix, num_targets, scanf_ok, name_len;
     char filein[STR_MAX_LEN + 1];
 
     if (frame_num > 0) {
-        sprintf(filein, "%s%04d%s", file_base, frame_num, "_targets");
+        name_len = snprintf(filein, sizeof(filein), "%s%04d%s", file_base,
+            frame_num, "_targets");
     } else {
-        strncpy(filein, file_base, STR_MAX_LEN);
-        strncat(filein, "_targets", STR_MAX_LEN);
+        name_len = snprintf(filein, sizeof(filein), "%s%s", file_base,
+            "_targets");
     }
+    if (name_len < 0 || name_len >= (int) sizeof(filein)) goto handle_error;
     
     FILEIN = fopen (filein, "r");
     if (! FILEIN) {
@@ -102,15 +104,18 @@ handle_error:
 int write_targets(target buffer[], int num_targets, char* file_base, \
     int frame_num) {
     
-    FILE *FILEOUT;
-    int	tix, printf_ok, success = 0;
+    FILE *FILEOUT = NULL;
+    int	tix, printf_ok, name_len, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
     if (frame_num <= 0){
-        sprintf(fileout, "%s%s", file_base, "_targets");
+        name_len = snprintf(fileout, sizeof(fileout), "%s%s", file_base,
+            "_targets");
     } else {
-        sprintf(fileout, "%s%04d%s", file_base, frame_num, "_targets");
+        name_len = snprintf(fileout, sizeof(fileout), "%s%04d%s", file_base,
+            frame_num, "_targets");
     }
+    if (name_len < 0 || name_len >= (int) sizeof(fileout)) goto finalize;
 
     FILEOUT = fopen(fileout, "w");
     if (! FILEOUT) {
@@ -228,9 +233,9 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     char *corres_file_base, char *linkage_file_base, char *prio_file_base,
     int frame_num)
 {
-    FILE *filein, *linkagein = NULL, *prioin = NULL;
+    FILE *filein = NULL, *linkagein = NULL, *prioin = NULL;
     char fname[STR_MAX_LEN];
-    int read_res = 0, targets = -1, alt_link = 0;
+    int read_res = 0, targets = -1, alt_link = 0, name_len;
     double discard; /* For position values that are to be read again from a 
                        differnt file. */
     
@@ -238,7 +243,9 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     a record of path and correspondence info. We don't need the nuber of points
     because we read to EOF anyway. */
     
-    sprintf(fname, "%s.%d", corres_file_base, frame_num);
+    name_len = snprintf(fname, sizeof(fname), "%s.%d", corres_file_base,
+        frame_num);
+    if (name_len < 0 || name_len >= (int) sizeof(fname)) goto finalize;
     filein = fopen (fname, "r");
     if (!filein) {
         /* Keeping the printf until we have proper logging. */
@@ -250,7 +257,9 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     if (read_res != 1) goto finalize;
     
     if (linkage_file_base != NULL) {
-        sprintf(fname, "%s.%d", linkage_file_base, frame_num);
+        name_len = snprintf(fname, sizeof(fname), "%s.%d", linkage_file_base,
+            frame_num);
+        if (name_len < 0 || name_len >= (int) sizeof(fname)) goto finalize;
         linkagein = fopen (fname, "r");
         
         if (!linkagein) {
@@ -264,7 +273,9 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     }
     
     if (prio_file_base != NULL) {
-        sprintf(fname, "%s.%d", prio_file_base, frame_num);
+        name_len = snprintf(fname, sizeof(fname), "%s.%d", prio_file_base,
+            frame_num);
+        if (name_len < 0 || name_len >= (int) sizeof(fname)) goto finalize;
         prioin = fopen (fname, "r");
         
         if (!prioin) {
@@ -366,19 +377,23 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     char *corres_file_base, char *linkage_file_base, char *prio_file_base,
     int frame_num) 
 {
-    FILE *corres_file, *linkage_file = NULL, *prio_file = NULL;
+    FILE *corres_file = NULL, *linkage_file = NULL, *prio_file = NULL;
     char corres_fname[STR_MAX_LEN + 1], linkage_fname[STR_MAX_LEN + 1];
     char prio_fname[STR_MAX_LEN + 1];
-    int	pix, success = 0;
+    int	pix, name_len, success = 0;
 
-    sprintf(corres_fname, "%s.%d", corres_file_base, frame_num);
+    name_len = snprintf(corres_fname, sizeof(corres_fname), "%s.%d",
+        corres_file_base, frame_num);
+    if (name_len < 0 || name_len >= (int) sizeof(corres_fname)) goto finalize;
     corres_file = fopen (corres_fname, "w");
     if (corres_file == NULL) {
         printf("Can't open file %s for writing\n", corres_fname);
         goto finalize;
     }
     
-    sprintf(linkage_fname, "%s.%d", linkage_file_base, frame_num);
+    name_len = snprintf(linkage_fname, sizeof(linkage_fname), "%s.%d",
+        linkage_file_base, frame_num);
+    if (name_len < 0 || name_len >= (int) sizeof(linkage_fname)) goto finalize;
     linkage_file = fopen (linkage_fname, "w");
     if (linkage_file == NULL) {
         printf("Can't open file %s for writing\n", linkage_fname);
@@ -389,7 +404,9 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     fprintf(linkage_file, "%d\n", num_parts);
     
     if (prio_file_base != NULL) {
-        sprintf(prio_fname, "%s.%d", prio_file_base, frame_num);
+        name_len = snprintf(prio_fname, sizeof(prio_fname), "%s.%d",
+            prio_file_base, frame_num);
+        if (name_len < 0 || name_len >= (int) sizeof(prio_fname)) goto finalize;
         prio_file = fopen (prio_fname, "w");
         if (prio_file == NULL) {
             printf("Can't open file %s for writing\n", prio_fname);
-- 
2.43.0


From 9d32e25fac66f60a50b0f77a7d6aee1bff04a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 15/73] fix: distort_brown_affin() sets its outputs at the
 sensor center

---
 liboptv/src/trafo.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 8690a20..89bcdef 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -171,7 +171,6 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
   
   
   r = sqrt (x*x + y*y);
-  if (r != 0)
     {
       x += x * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
-- 
2.43.0


From b918c272b2946b0078acdc5696294f3d97c2daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 16/73] fix: correct_brown_affine_exact() sets its outputs at
 the sensor center

---
 liboptv/src/trafo.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 89bcdef..c75bbca 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -209,7 +209,11 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     double  r, rq, xq, yq;
     int itnum = 0;
   
-    if ((x == 0) && (y == 0)) return;
+    if ((x == 0) && (y == 0)) {
+        *x1 = 0;
+        *y1 = 0;
+        return;
+    }
     
     /* Initial guess for the flat point is the distorted point, assuming 
        distortion is small. */
-- 
2.43.0


From bd1f521358a1aa75752283ebaac101c621c41001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 17/73] fix: fast_box_blur() frees its first buffer if the
 second can't be had

---
 liboptv/src/image_processing.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index e58fed0..4cd28e8 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -144,7 +144,10 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     nq = n*n;
     
     if ((row_accum = (int *)calloc(image_size, sizeof(int))) == NULL) return 0;
-    if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) return 0;
+    if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) {
+        free(row_accum);
+        return 0;
+    }
     
     /* Sum over lines first [1]: */
     for (i = 0; i < cpar->imy; i++) {
-- 
2.43.0


From ab04df1a72e3d1c49535de2acb0f175c71c54747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 18/73] fix: prepare_image() fails cleanly on a missing or
 truncated filter file

---
 liboptv/src/image_processing.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 4cd28e8..70fd3a9 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -403,9 +403,14 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
+        if (fp == NULL) {
+            free (img_lp);
+            return 0;
+        }
         for (i = 0; i < 9; i++) {
-            if (fscanf(fp, "%lf", (double *)filt + i) == 0) {
+            if (fscanf(fp, "%lf", (double *)filt + i) != 1) {
                 fclose(fp);
+                free (img_lp);
                 return 0;
             }
         }
-- 
2.43.0


From f2ae66b52f45bea952a42cc0d15762db7fce8c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 19/73] fix: prepare_image() reports allocation failure of its
 smoothing step

---
 liboptv/src/image_processing.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 70fd3a9..6a9ec28 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -389,7 +389,10 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
       puts ("calloc for img_lp --> error");
       return 0;
   }
-  fast_box_blur(dim_lp, img, img_lp, cpar);
+  if (! fast_box_blur(dim_lp, img, img_lp, cpar)) {
+      free (img_lp);
+      return 0;
+  }
   subtract_img (img, img_lp, img_hp, cpar);
   
   /* consider field mode */
-- 
2.43.0


From 1d7eecdd0d58accb605049fc65bd8f0ec0e27ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 20/73] fix: filter_3() saturates results outside the range of
 unsigned short

---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 6a9ec28..4020425 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -51,7 +51,7 @@ int filter_3(unsigned char *img, unsigned char *img_lp, filter_t filt,
         *ptr7, *ptr8, *ptr9;
 	int end;
 	double sum = 0;
-	unsigned short buf;
+	double buf;
 	register int i, j;
     int image_size = cpar->imx * cpar->imy;
 
-- 
2.43.0


From 7ca24a903c0bba9cd8415a354988c171984bc19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 21/73] fix: peak_fit() uses the proper image dimension in
 touch tests

---
 liboptv/src/segmentation.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index fbe6e9d..18349a1 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -393,14 +393,14 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
               if (i>0 && j>1)           check_touch (ptr_peak, pnr, *(label_img+n-imx-1));
               if (i>0)                  check_touch (ptr_peak, pnr, *(label_img+n-imx));
-              if (i>0 && j<imy-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
+              if (i>0 && j<imx-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
 
               if (j>0)                  check_touch (ptr_peak, pnr, *(label_img+n-1));
-              if (j<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
+              if (j<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
 
-              if (i<imx-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
-              if (i<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
-              if (i<imx-1 && j<imy-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
+              if (i<imy-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
+              if (i<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
+              if (i<imy-1 && j<imx-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
           }
     }
 
-- 
2.43.0


From 343393e17ac2e94c7511f0954c5b15f09d840e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 22/73] fix: peak_fit() does not report a target that was
 unified with the first peak

---
 liboptv/src/segmentation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 18349a1..46d0d34 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -449,7 +449,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
           /* otherwise unify targets */
           unified++;
-          peaks[i].unr = p2;
+          peaks[i].unr = p2 + 1;
           peaks[p2].x += peaks[i].x;
           peaks[p2].y += peaks[i].y;
           peaks[p2].sumg += peaks[i].sumg;
-- 
2.43.0


From 0e6d69dc141e6a81d02e3a6f35d6c6517adb3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 23/73] fix: peak_fit() does not read neighbours outside the
 image

---
 liboptv/src/segmentation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 46d0d34..18f8c7b 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -283,6 +283,9 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     for (i=ymin; i<ymax-1; i++) for (j=xmin; j<xmax; j++) {
           n = i*imx + j;
 
+          /* pixels on the image edge don't have all their neighbours */
+          if (i < 1 || i >= imy-1 || j < 1 || j >= imx-1)    continue;
+
           /* compare with threshold */
           gv = *(img + n);   if (gv <= thres)   continue;
 
@@ -329,7 +332,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                       yn = y8[k];
                       xn = x8[k];
                       
-                      if (xn<0 || xn>imx || yn<0 || yn>imy) 
+                      if (xn<1 || xn>=imx-1 || yn<1 || yn>=imy-1) 
                         continue;
                       
                       n = imx*yn + xn;
-- 
2.43.0


From 8c9ab126b9616d021438e7331dc5b6891640786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 24/73] fix: targets with a long outline do not overrun the
 segmentation wait list

---
 liboptv/src/segmentation.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 18f8c7b..4e366d2 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -20,6 +20,9 @@ Description:
 
 typedef short targpix[2];
 
+/* how many pixels can wait for the test of their neighbours */
+#define MAX_WAIT 2048
+
 
 /*  targ_rec() thresholding and center of gravity with a peak fitting technique 
     uses 4 neighbours for connectivity and 8 to find local maxima, see:
@@ -55,7 +58,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
     register unsigned char    gv, gvref;
 
-    targpix waitlist[2048];
+    targpix waitlist[MAX_WAIT];
 
     /* avoid many dereferences */
     int imx, imy;
@@ -122,7 +125,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
                     /* conditions for threshold, discontinuity, image borders */
                     /* and peak fitting */
-                    if (   (gv > thres)
+                    if (   (gv > thres) && (n_wait < MAX_WAIT)
                        && (xn > xmin - 1) && (xn < xmax + 1) 
                        && (yn > ymin - 1) && (yn < ymax + 1)
                        && (gv <= gvref+disco)
@@ -264,7 +267,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     /* the following were not assigned, probably from globals */
     int nmax = 1024; 
     peak          *peaks, *ptr_peak;    /* detected peaks */
-    targpix       waitlist[2048];     /* pix to be tested for connectivity */
+    targpix       waitlist[MAX_WAIT]; /* pix to be tested for connectivity */
 
     imx = cpar->imx;
     imy = cpar->imy;
@@ -343,7 +346,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
                       /* conditions for threshold, discontinuity, image borders */
                       /* and peak fitting */
-                      if (   (gv > thres)
+                      if (   (gv > thres) && (n_wait < MAX_WAIT)
                          && (xn>=xmin)&&(xn<xmax) && (yn>=ymin)&&(yn<ymax-1)
                          && (gv <= gvref+disco)
                          && (gvref + disco >= *(img + imx*(yn-1) + xn))
-- 
2.43.0


From f5b9e6eab1b0f2b945beea97b28b3c8a44d5116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 25/73] fix: peak_fit() does not overrun its peak list

---
 liboptv/src/segmentation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 4e366d2..6f5c040 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -303,7 +303,8 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
            &&   gv >= *(img + n-imx-1)
            &&   gv >= *(img + n+imx-1)
            &&   gv >= *(img + n-imx+1)
-           &&   gv >= *(img + n+imx+1) )
+           &&   gv >= *(img + n+imx+1)
+           &&   n_peaks < 4*nmax )
             {
               /* label peak in label_img, initialize peak */
               n_peaks++;
-- 
2.43.0


From 38275d3954dd1f4e902d06fa3333e30b1c818927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 26/73] fix: sorting an empty array of targets or coordinates
 touches no memory

---
 liboptv/src/correspondences.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 2b9e764..3dc0db9 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -71,7 +71,7 @@ void qs_con (n_tupel *con, int left, int right){
 */
 
 void quicksort_target_y (target *pix, int num) {
-  qs_target_y (pix, 0, num-1);
+  if (num > 0) qs_target_y (pix, 0, num-1);
 }
 
 /* qs_target_y() uses quicksort algorithm to 
@@ -118,7 +118,7 @@ void qs_target_y (target *pix, int left, int right){
    integer num equal to the length of the array pix
 */
 void quicksort_coord2d_x (coord_2d *crd, int num) {
-	qs_coord2d_x (crd, 0, num-1);
+	if (num > 0) qs_coord2d_x (crd, 0, num-1);
 }
 
 void qs_coord2d_x (coord_2d	*crd, int left, int right){
-- 
2.43.0


From 99dd6f6e11ff32f45e4ffc518fbd8c701f014267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 27/73] fix: the scratch size given to clique finders is the
 size allocated

---
 liboptv/src/correspondences.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 3dc0db9..92cc199 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -661,7 +661,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent quadruplets in the list */
   if (cpar->num_cams == 4) {
     match0 = four_camera_matching(list, frm->num_targets[0], 
-        vpar->corrmin, con0, 4*nmax);
+        vpar->corrmin, con0, cpar->num_cams*nmax);
     
     match_counts[0] = take_best_candidates(con0, con, cpar->num_cams, match0, tim);
     match_counts[3] += match_counts[0];
@@ -670,7 +670,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent triplets :  123, 124, 134, 234 */
   if ((cpar->num_cams == 4 && cpar->allCam_flag == 0) || cpar->num_cams == 3) {
     match0 = three_camera_matching(list, cpar->num_cams, frm->num_targets, 
-        vpar->corrmin, con0, 4*nmax, tim);
+        vpar->corrmin, con0, cpar->num_cams*nmax, tim);
     
     match_counts[1] = take_best_candidates(con0, &(con[match_counts[3]]), 
         cpar->num_cams, match0, tim);
@@ -680,7 +680,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /*   search consistent pairs :  12, 13, 14, 23, 24, 34 */
   if(cpar->num_cams > 1 && cpar->allCam_flag == 0) {
       match0 = consistent_pair_matching(list, cpar->num_cams, 
-          frm->num_targets, vpar->corrmin, con0, 4*nmax, tim);
+          frm->num_targets, vpar->corrmin, con0, cpar->num_cams*nmax, tim);
                 
       match_counts[2] = take_best_candidates(con0, &(con[match_counts[3]]), 
           cpar->num_cams, match0, tim);
-- 
2.43.0


From 5306f9c161720aba3b9f48a22ce95b46fe397833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 28/73] fix: off-by-one in the bounds of target usage marks

---
 liboptv/src/correspondences.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 92cc199..2c248e0 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -370,16 +370,16 @@ int three_camera_matching(correspond *list[4][4], int num_cams,
         for (i = 0; i < target_counts[i1]; i++) {
             for (i2 = i1 + 1; i2 < num_cams - 1; i2++) {
                 p1 = list[i1][i2][i].p1;
-                if (p1 > nmax || tusage[i1][p1] > 0) continue;
+                if (p1 >= nmax || tusage[i1][p1] > 0) continue;
                 
                 for (j = 0; j < list[i1][i2][i].n; j++) {
                     p2 = list[i1][i2][i].p2[j];
-                    if (p2 > nmax || tusage[i2][p2] > 0) continue;
+                    if (p2 >= nmax || tusage[i2][p2] > 0) continue;
 
                     for (i3 = i2 + 1; i3 < num_cams; i3++)
                         for (k = 0; k < list[i1][i3][i].n; k++) {
                             p3 = list[i1][i3][i].p2[k];
-                            if (p3 > nmax || tusage[i3][p3] > 0) continue;
+                            if (p3 >= nmax || tusage[i3][p3] > 0) continue;
 						  						  
                             for (m = 0; m < list[i2][i3][p2].n; m++) {
                                 if (p3 != list[i2][i3][p2].p2[m]) continue;
@@ -431,7 +431,7 @@ int consistent_pair_matching(correspond *list[4][4], int num_cams,
         for (i2 = i1 + 1; i2 < num_cams; i2++) {
             for (i=0; i < target_counts[i1]; i++) {
                 p1 = list[i1][i2][i].p1;
-                if (p1 > nmax || tusage[i1][p1] > 0) continue;
+                if (p1 >= nmax || tusage[i1][p1] > 0) continue;
 
                 /* if the candidate is the only one, there is no ambiguity. 
                    we only take unambiguous pairs.
@@ -439,7 +439,7 @@ int consistent_pair_matching(correspond *list[4][4], int num_cams,
                 if (list[i1][i2][i].n != 1) continue;
 
                 p2 = list[i1][i2][i].p2[0];
-                if (p2 > nmax || tusage[i2][p2] > 0) continue;
+                if (p2 >= nmax || tusage[i2][p2] > 0) continue;
 
                 corr = list[i1][i2][i].corr[0] / list[i1][i2][i].dist[0];
                 if (corr <= accept_corr) continue;
-- 
2.43.0


From ceb17f5879ac159d7336fbc09f1cb2045e1a6ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 29/73] fix: get_mmf_from_mmlut() stays inside the look-up
 table

---
 liboptv/src/multimed.c | 934 ++++++++++++++++++++---------------------
 1 file changed, 467 insertions(+), 467 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 2abe438..785e310 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -1,467 +1,467 @@
-/****************************************************************************
-
-Routine:            multimed.c
-
-Author/Copyright:       Hans-Gerd Maas
-
-Address:            Institute of Geodesy and Photogrammetry
-                    ETH - Hoenggerberg
-                    CH - 8093 Zurich
-
-Creation Date:          20.4.88
-    
-Description:            
-1 point, exterior orientation, multimedia parameters    ==> X,Y=shifts
-          (special case 3 media, medium 2 = plane parallel)
-                            
-Routines contained:     -
-
-****************************************************************************/
-
-#include "multimed.h"
-
-/*  multimed_nlay() creates the Xq,Yq points for each X,Y point in the image space
-    using radial shift from the multimedia model.
-    
-    Arguments:
-    Calibration *cal - calibration parameters.
-    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
-        layers)
-    vec3d pos - three doubles of the particle position in the 3D space.
-    double *Xq, *Yq - returned values; two dimensional position on the glass 
-        surface separating the water from air.
-*/
-void  multimed_nlay (Calibration *cal, mm_np *mm, vec3d pos, 
-    double *Xq, double *Yq)
-{
-    double  radial_shift;
-      
-    radial_shift = multimed_r_nlay (cal, mm, pos); 
-
-    /* if radial_shift == 1.0, this degenerates to Xq = X, Yq = Y  */
-    *Xq = cal->ext_par.x0 + (pos[0] - cal->ext_par.x0) * radial_shift;
-    *Yq = cal->ext_par.y0 + (pos[1] - cal->ext_par.y0) * radial_shift;
-}
-
-
-/*  multimedia_r_nlay() calculates and returns the radial shift
-    
-    Arguments:
-    Calibration *cal - calibration parameters.
-    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
-        layers)
-    vec3d pos - three doubles of the particle position in the 3D space.
-    
-    Returns:
-    double radial_shift: default is 1.0 if no solution is found
-*/
-double multimed_r_nlay (Calibration *cal, mm_np *mm, vec3d pos) {
-    int i, it = 0;
-    int n_iter = 40;
-    double beta1, beta2[32], beta3, r, rbeta, rdiff, rq, mmf=1.0;
-    double X,Y,Z;
-    double zout;
-    
-    /* 1-medium case */
-    if (mm->n1 == 1 && mm->nlay == 1 && mm->n2[0]== 1 && mm->n3 == 1)
-        return (1.0);
-    
-    /* interpolation using the existing mmlut */
-	if (cal->mmlut.data != NULL) {
-        mmf = get_mmf_from_mmlut(cal, pos);
-        if (mmf > 0) return (mmf);
-    }
-    
-    /* iterative procedure */
-    X = pos[0];
-    Y = pos[1];
-    Z = pos[2];
-    
-    /* Extra layers protrude into water side: */
-    zout = Z;
-    for (i = 1; i < mm->nlay; i++)
-        zout += mm->d[i];
-    
-    r = norm((X - cal->ext_par.x0), (Y - cal->ext_par.y0), 0);
-    rq = r;
-  
-    do
-    {
-        beta1 = atan (rq/(cal->ext_par.z0 - Z));
-        for (i = 0; i < mm->nlay; i++)
-            beta2[i] = asin (sin(beta1) * mm->n1/mm->n2[i]);
-        beta3 = asin (sin(beta1) * mm->n1/mm->n3);
-
-        rbeta = (cal->ext_par.z0 - mm->d[0]) * tan(beta1) - zout * tan(beta3);
-        for (i = 0; i < mm->nlay; i++)
-            rbeta += (mm->d[i] * tan(beta2[i]));
-        
-        rdiff = r - rbeta;
-        rq += rdiff;
-        it++;
-    }
-    while (((rdiff > 0.001) || (rdiff < -0.001))  &&  it < n_iter);
-
- 
-    if (it >= n_iter) {
-        printf ("multimed_r_nlay stopped after %d iterations\n", n_iter);  
-        return (1.0);
-    }
-
-    if (r != 0){ 
-        return (rq/r);
-    }  
-    else {
-        return (1.0);
-    }
-}
-
-/*  trans_Cam_Point() projects global-coordinate points of the camera and an
-    image points on the glass surface separating those points.
-    
-    Input arguments:
-    Exterior ex - holding global-coordinates camera position.
-    mm_np mm - holding glass thickness.
-    Glass gl - holding the glass position in global-coordinates as a 
-        glass-normal vector.
-    vec3d pos - the global coordinates of the observed point.
-    
-    Output arguments:
-    Exterior ex_t - only the primary point fields are used, and are set 
-        to the glass/Z axis intersection.
-    double cross_p[3] - the observed point projection coordinates in global
-        coordinates.
-    double cross_c[3] - same for the camera position. Since the camera point
-        is projected on the other side of the glass, it'll have a small 
-        difference in Z value from ``cross_p``.
-*/
-void trans_Cam_Point(Exterior ex, mm_np mm, Glass gl, vec3d pos, 
-    Exterior *ex_t, vec3d pos_t, double cross_p[3], double cross_c[3])
-{
-    double dist_cam_glas,dist_point_glas,dist_o_glas; //glas inside at water 
-    vec3d glass_dir, primary_pt, renorm_glass, temp;
-    
-    vec_set(glass_dir, gl.vec_x, gl.vec_y, gl.vec_z);
-    vec_set(primary_pt, ex.x0, ex.y0, ex.z0);
-
-    dist_o_glas = vec_norm(glass_dir);
-    dist_cam_glas = vec_dot(primary_pt, glass_dir) / dist_o_glas \
-        - dist_o_glas - mm.d[0];
-    dist_point_glas = vec_dot(pos, glass_dir) / dist_o_glas - dist_o_glas;
-
-    vec_scalar_mul(glass_dir, dist_cam_glas/dist_o_glas, renorm_glass);
-    vec_subt(primary_pt, renorm_glass, cross_c);
-
-    vec_scalar_mul(glass_dir, dist_point_glas/dist_o_glas, renorm_glass);
-    vec_subt(pos, renorm_glass, cross_p);
-
-    ex_t->x0 = 0.;
-    ex_t->y0 = 0.;
-    ex_t->z0 = dist_cam_glas + mm.d[0];
-
-    vec_scalar_mul(glass_dir, mm.d[0]/dist_o_glas, renorm_glass);
-    vec_subt(cross_c, renorm_glass, temp);
-    vec_subt(cross_p, temp, temp);
-    
-    vec_set(pos_t, vec_norm(temp), 0, dist_point_glas);
-}
-
-/* the opposite direction transfer from X_t,Y_t,Z_t to the X,Y,Z in 3D space */
-
-void back_trans_Point(vec3d pos_t, mm_np mm, Glass G, double cross_p[3], 
-    double cross_c[3], vec3d pos)
-{  
-    double nVe, nGl;
-    vec3d glass_dir, renorm_glass, after_glass, temp;
-    
-    vec_set(glass_dir, G.vec_x, G.vec_y, G.vec_z);
-    nGl = vec_norm(glass_dir);
-    
-    vec_scalar_mul(glass_dir, mm.d[0]/nGl, renorm_glass);
-    vec_subt(cross_c, renorm_glass, after_glass);
-    vec_subt(cross_p, after_glass, temp);
-    
-    nVe = vec_norm(temp);
-    
-    vec_scalar_mul(glass_dir, -pos_t[2]/nGl, renorm_glass);
-    vec_subt(after_glass, renorm_glass, pos);
-    
-    if (nVe > 0) {  
-        /* We need this for when the cam-point line is exactly perp. to glass.
-         The degenerate case will have nVe == 0 and produce NaNs on the
-         following calculations.
-        */
-        vec_scalar_mul(temp, -pos_t[0]/nVe, renorm_glass);
-        vec_subt(pos, renorm_glass, pos);
-    }
-}
-
-/*  move_along_ray() calculates the position of a point in a global Z value
-    along a ray whose vertex and direction are given.
-    
-    Arguments:
-    double glob_Z - the Z value of the result point in the global
-        coordinate system.
-    vec3d vertex - the ray vertex.
-    vec3d direct - the ray direction, a unit vector.
-    vec3d out - result buffer.
-*/
-void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out) {
-    out[0] = vertex[0] + (glob_Z - vertex[2]) * direct[0]/direct[2];   
-    out[1] = vertex[1] + (glob_Z - vertex[2]) * direct[1]/direct[2];
-    out[2] = glob_Z;
-}
-
-/*  init_mmlut() prepares the multimedia Look-Up Table for a single camera
-    Arguments: 
-    
-    volume_par *vpar - struct holding the observed volume size.
-    control_par *cpar - struct holding general control parameters such as 
-        image size.
-    Calibration *cal - current single-camera positioning and other camera-
-        specific data.
-    
-    Output:
-    initializes data in cal->mmlut->data
-*/ 
-void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
-  register int  i,j, nr, nz;
-  double R, Zmin, Rmax=0, Zmax;
-  vec3d pos, a, xyz, xyz_t; 
-  double x,y, *Ri,*Zi, *data;
-  double rw = 2.0; 
-
-  /* A frame representing a point outside tank, middle of glass*/
-  Calibration cal_t;
-
-  double Zmin_t, Zmax_t;
-  double cross_p[3],cross_c[3]; 
-  double xc[2], yc[2];  /* image corners */
-  
-  /* image corners */
-  xc[0] = 0.0;
-  xc[1] = (double) cpar->imx;
-  yc[0] = 0.0;
-  yc[1] = (double) cpar->imy;
-
-  /* find extrema of imaged object volume */      
-  Zmin = vpar->Zmin_lay[0];
-  Zmax = vpar->Zmax_lay[0];
-  
-  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
-  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
- 
-  Zmin -= fmod (Zmin, rw);
-  Zmax += (rw - fmod (Zmax, rw));
-  Zmin_t=Zmin;
-  Zmax_t=Zmax;
-
-  /* intersect with image vertices rays */
-  cal_t = *cal;
-
-  for (i = 0; i < 2; i ++) {
-      for (j = 0; j < 2; j++) {
-          pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
-
-          x = x - cal->int_par.xh;
-          y = y - cal->int_par.yh;
-  
-          correct_brown_affin (x, y, cal->added_par, &x,&y);  
-          ray_tracing(x, y, cal, *(cpar->mm), pos, a);
-          
-          move_along_ray(Zmin, pos, a, xyz);
-          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz, \
-            &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
-
-          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
-          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
-
-          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
-          if (R > Rmax)
-              Rmax = R;
-           
-          move_along_ray(Zmax, pos, a, xyz);
-          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz,\
-              &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
-  
-          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
-          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
-
-          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
-          if (R > Rmax)
-              Rmax = R;
-      }
-  }
-
-  /* round values (-> enlarge) */
-  Rmax += (rw - fmod (Rmax, rw));
-
-  /* get # of rasterlines in r,z */
-  nr = (int)(Rmax/rw + 1);
-  nz = (int)((Zmax_t-Zmin_t)/rw + 1);
-
-  /* create two dimensional mmlut structure */
-  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
-  
-  cal->mmlut.nr = nr;
-  cal->mmlut.nz = nz;
-  cal->mmlut.rw = rw;
-  
-  if (cal->mmlut.data == NULL) {
-      data = (double *) malloc (nr*nz * sizeof (double));
-  
-      /* fill mmlut structure */
-      Ri = (double *) malloc (nr * sizeof (double));
-      for (i = 0; i < nr; i++)
-        Ri[i] = i*rw;
-
-      Zi = (double *) malloc (nz * sizeof (double));
-      for (i = 0; i < nz; i++)
-        Zi[i] = Zmin_t + i*rw;
-
-      for (i = 0; i < nr; i++) {
-        for (j = 0; j < nz; j++) {
-            vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
-            data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
-        } /* nr */
-      } /* nz */
-    
-      free (Ri);
-      free (Zi);
-      cal->mmlut.data = data;
-    }
-}
-
-
-/*  get_mmf_from_mmlut() returns the value of mmf (double) for a 3D point
-    using the multimedia look up table.
-    
-    Arguments:
-    pos - vector of 3 doubles, position in 3D space 
-   Calibration parameters pointer, *cal
-*/
-double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
-    int i, ir,iz, nr,nz, rw, v4[4];
-    double R, sr, sz, mmf = 1.0;
-    vec3d temp;
-    
-    rw = cal->mmlut.rw;
-  
-    vec_subt(pos, cal->mmlut.origin, temp);
-    sz = temp[2]/rw;
-    iz = (int) sz;
-    sz -= iz;
-    
-    R = norm(temp[0], temp[1], 0);
-    
-    sr = R/rw;
-    ir = (int) sr;
-    sr -= ir;
-  
-    nz = cal->mmlut.nz;
-    nr = cal->mmlut.nr;
-    
-    /* check whether point is inside camera's object volume */
-    if (ir > nr)
-        return (0);
-    if (iz < 0  ||  iz > nz)
-        return (0);
-  
-    /* bilinear interpolation in r/z box */
-    /* ================================= */
-  
-    /* get vertices of box */
-    v4[0] = ir*nz + iz;
-    v4[1] = ir*nz + (iz+1);
-    v4[2] = (ir+1)*nz + iz;
-    v4[3] = (ir+1)*nz + (iz+1);
-  
-    /* 2. check wther point is inside camera's object volume */
-    /* important for epipolar line computation */
-    for (i = 0; i < 4; i++)
-        if (v4[i] < 0  ||  v4[i] > nr*nz)
-            return (0);
-    
-    /* interpolate */
-    mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
-        + cal->mmlut.data[v4[1]] * (1-sr)*sz
-        + cal->mmlut.data[v4[2]] * sr*(1-sz)
-        + cal->mmlut.data[v4[3]] * sr*sz;
-  
-    return (mmf);
-}
-
-
-/*  volumedimension() finds the limits of the measurement volume in 3D space.
-    
-    Arguments:
-    double pointers to the limits of the volume in x (xmin,xmax), y (ymin, ymax) and
-    z (zmin, zmax) directions
-    volume_par *vpar - struct holding the observed volume size.
-    control_par *cpar - struct holding general control parameters such as 
-        image size.
-    Calibration *cal - scene parameters.
-*/  
-void volumedimension (double *xmax, double *xmin, 
-    double *ymax, double *ymin,
-    double *zmax, double *zmin,
-    volume_par *vpar, control_par *cpar, Calibration **cal)
-{
-  int i_cam, i, j;
-  double X, Y;
-  vec3d pos, a;
-  double x,y;  
-  double xc[2], yc[2];  /* image corners */
-  double Zmin, Zmax;
-  
-  xc[0] = 0.0;
-  xc[1] = (double) cpar->imx;
-  yc[0] = 0.0;
-  yc[1] = (double) cpar->imy;
-  
-  Zmin = vpar->Zmin_lay[0];
-  Zmax = vpar->Zmax_lay[0];
-  
-  /* there is a bug, see the original multimed.c  
-  https://github.com/3dptv/3dptv/src_c/multimed.c#L899
-  obviously we have left and right side that could be smaller or larger in Z
-  */
-  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
-  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
-
-  *zmin = Zmin;
-  *zmax = Zmax;
-    
-  /* find extrema of imaged object volume */
-  for (i_cam = 0; i_cam < cpar->num_cams; i_cam++) {
-      for (i = 0; i < 2; i ++) {
-          for (j = 0; j < 2; j++) {
-              pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
-              x = x - cal[i_cam]->int_par.xh;
-              y = y - cal[i_cam]->int_par.yh;
-              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
-          
-              ray_tracing(x, y, cal[i_cam], *(cpar->mm), pos, a);
-          
-              X = pos[0] + (Zmin - pos[2]) * a[0]/a[2];   
-              Y = pos[1] + (Zmin - pos[2]) * a[1]/a[2];
-              
-                     
-              if ( X > *xmax) *xmax = X;
-              if ( X < *xmin) *xmin = X;
-              if ( Y > *ymax) *ymax = Y;
-              if ( Y < *ymin) *ymin = Y;
-
-              X = pos[0] + (Zmax - pos[2]) * a[0]/a[2];   
-              Y = pos[1] + (Zmax - pos[2]) * a[1]/a[2];
-        
-              if ( X > *xmax) *xmax = X;
-              if ( X < *xmin) *xmin = X;
-              if ( Y > *ymax) *ymax = Y;
-              if ( Y < *ymin) *ymin = Y;
-        
-          }
-      }
-  }
-}
-
+/****************************************************************************
+
+Routine:            multimed.c
+
+Author/Copyright:       Hans-Gerd Maas
+
+Address:            Institute of Geodesy and Photogrammetry
+                    ETH - Hoenggerberg
+                    CH - 8093 Zurich
+
+Creation Date:          20.4.88
+    
+Description:            
+1 point, exterior orientation, multimedia parameters    ==> X,Y=shifts
+          (special case 3 media, medium 2 = plane parallel)
+                            
+Routines contained:     -
+
+****************************************************************************/
+
+#include "multimed.h"
+
+/*  multimed_nlay() creates the Xq,Yq points for each X,Y point in the image space
+    using radial shift from the multimedia model.
+    
+    Arguments:
+    Calibration *cal - calibration parameters.
+    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
+        layers)
+    vec3d pos - three doubles of the particle position in the 3D space.
+    double *Xq, *Yq - returned values; two dimensional position on the glass 
+        surface separating the water from air.
+*/
+void  multimed_nlay (Calibration *cal, mm_np *mm, vec3d pos, 
+    double *Xq, double *Yq)
+{
+    double  radial_shift;
+      
+    radial_shift = multimed_r_nlay (cal, mm, pos); 
+
+    /* if radial_shift == 1.0, this degenerates to Xq = X, Yq = Y  */
+    *Xq = cal->ext_par.x0 + (pos[0] - cal->ext_par.x0) * radial_shift;
+    *Yq = cal->ext_par.y0 + (pos[1] - cal->ext_par.y0) * radial_shift;
+}
+
+
+/*  multimedia_r_nlay() calculates and returns the radial shift
+    
+    Arguments:
+    Calibration *cal - calibration parameters.
+    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
+        layers)
+    vec3d pos - three doubles of the particle position in the 3D space.
+    
+    Returns:
+    double radial_shift: default is 1.0 if no solution is found
+*/
+double multimed_r_nlay (Calibration *cal, mm_np *mm, vec3d pos) {
+    int i, it = 0;
+    int n_iter = 40;
+    double beta1, beta2[32], beta3, r, rbeta, rdiff, rq, mmf=1.0;
+    double X,Y,Z;
+    double zout;
+    
+    /* 1-medium case */
+    if (mm->n1 == 1 && mm->nlay == 1 && mm->n2[0]== 1 && mm->n3 == 1)
+        return (1.0);
+    
+    /* interpolation using the existing mmlut */
+	if (cal->mmlut.data != NULL) {
+        mmf = get_mmf_from_mmlut(cal, pos);
+        if (mmf > 0) return (mmf);
+    }
+    
+    /* iterative procedure */
+    X = pos[0];
+    Y = pos[1];
+    Z = pos[2];
+    
+    /* Extra layers protrude into water side: */
+    zout = Z;
+    for (i = 1; i < mm->nlay; i++)
+        zout += mm->d[i];
+    
+    r = norm((X - cal->ext_par.x0), (Y - cal->ext_par.y0), 0);
+    rq = r;
+  
+    do
+    {
+        beta1 = atan (rq/(cal->ext_par.z0 - Z));
+        for (i = 0; i < mm->nlay; i++)
+            beta2[i] = asin (sin(beta1) * mm->n1/mm->n2[i]);
+        beta3 = asin (sin(beta1) * mm->n1/mm->n3);
+
+        rbeta = (cal->ext_par.z0 - mm->d[0]) * tan(beta1) - zout * tan(beta3);
+        for (i = 0; i < mm->nlay; i++)
+            rbeta += (mm->d[i] * tan(beta2[i]));
+        
+        rdiff = r - rbeta;
+        rq += rdiff;
+        it++;
+    }
+    while (((rdiff > 0.001) || (rdiff < -0.001))  &&  it < n_iter);
+
+ 
+    if (it >= n_iter) {
+        printf ("multimed_r_nlay stopped after %d iterations\n", n_iter);  
+        return (1.0);
+    }
+
+    if (r != 0){ 
+        return (rq/r);
+    }  
+    else {
+        return (1.0);
+    }
+}
+
+/*  trans_Cam_Point() projects global-coordinate points of the camera and an
+    image points on the glass surface separating those points.
+    
+    Input arguments:
+    Exterior ex - holding global-coordinates camera position.
+    mm_np mm - holding glass thickness.
+    Glass gl - holding the glass position in global-coordinates as a 
+        glass-normal vector.
+    vec3d pos - the global coordinates of the observed point.
+    
+    Output arguments:
+    Exterior ex_t - only the primary point fields are used, and are set 
+        to the glass/Z axis intersection.
+    double cross_p[3] - the observed point projection coordinates in global
+        coordinates.
+    double cross_c[3] - same for the camera position. Since the camera point
+        is projected on the other side of the glass, it'll have a small 
+        difference in Z value from ``cross_p``.
+*/
+void trans_Cam_Point(Exterior ex, mm_np mm, Glass gl, vec3d pos, 
+    Exterior *ex_t, vec3d pos_t, double cross_p[3], double cross_c[3])
+{
+    double dist_cam_glas,dist_point_glas,dist_o_glas; //glas inside at water 
+    vec3d glass_dir, primary_pt, renorm_glass, temp;
+    
+    vec_set(glass_dir, gl.vec_x, gl.vec_y, gl.vec_z);
+    vec_set(primary_pt, ex.x0, ex.y0, ex.z0);
+
+    dist_o_glas = vec_norm(glass_dir);
+    dist_cam_glas = vec_dot(primary_pt, glass_dir) / dist_o_glas \
+        - dist_o_glas - mm.d[0];
+    dist_point_glas = vec_dot(pos, glass_dir) / dist_o_glas - dist_o_glas;
+
+    vec_scalar_mul(glass_dir, dist_cam_glas/dist_o_glas, renorm_glass);
+    vec_subt(primary_pt, renorm_glass, cross_c);
+
+    vec_scalar_mul(glass_dir, dist_point_glas/dist_o_glas, renorm_glass);
+    vec_subt(pos, renorm_glass, cross_p);
+
+    ex_t->x0 = 0.;
+    ex_t->y0 = 0.;
+    ex_t->z0 = dist_cam_glas + mm.d[0];
+
+    vec_scalar_mul(glass_dir, mm.d[0]/dist_o_glas, renorm_glass);
+    vec_subt(cross_c, renorm_glass, temp);
+    vec_subt(cross_p, temp, temp);
+    
+    vec_set(pos_t, vec_norm(temp), 0, dist_point_glas);
+}
+
+/* the opposite direction transfer from X_t,Y_t,Z_t to the X,Y,Z in 3D space */
+
+void back_trans_Point(vec3d pos_t, mm_np mm, Glass G, double cross_p[3], 
+    double cross_c[3], vec3d pos)
+{  
+    double nVe, nGl;
+    vec3d glass_dir, renorm_glass, after_glass, temp;
+    
+    vec_set(glass_dir, G.vec_x, G.vec_y, G.vec_z);
+    nGl = vec_norm(glass_dir);
+    
+    vec_scalar_mul(glass_dir, mm.d[0]/nGl, renorm_glass);
+    vec_subt(cross_c, renorm_glass, after_glass);
+    vec_subt(cross_p, after_glass, temp);
+    
+    nVe = vec_norm(temp);
+    
+    vec_scalar_mul(glass_dir, -pos_t[2]/nGl, renorm_glass);
+    vec_subt(after_glass, renorm_glass, pos);
+    
+    if (nVe > 0) {  
+        /* We need this for when the cam-point line is exactly perp. to glass.
+         The degenerate case will have nVe == 0 and produce NaNs on the
+         following calculations.
+        */
+        vec_scalar_mul(temp, -pos_t[0]/nVe, renorm_glass);
+        vec_subt(pos, renorm_glass, pos);
+    }
+}
+
+/*  move_along_ray() calculates the position of a point in a global Z value
+    along a ray whose vertex and direction are given.
+    
+    Arguments:
+    double glob_Z - the Z value of the result point in the global
+        coordinate system.
+    vec3d vertex - the ray vertex.
+    vec3d direct - the ray direction, a unit vector.
+    vec3d out - result buffer.
+*/
+void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out) {
+    out[0] = vertex[0] + (glob_Z - vertex[2]) * direct[0]/direct[2];   
+    out[1] = vertex[1] + (glob_Z - vertex[2]) * direct[1]/direct[2];
+    out[2] = glob_Z;
+}
+
+/*  init_mmlut() prepares the multimedia Look-Up Table for a single camera
+    Arguments: 
+    
+    volume_par *vpar - struct holding the observed volume size.
+    control_par *cpar - struct holding general control parameters such as 
+        image size.
+    Calibration *cal - current single-camera positioning and other camera-
+        specific data.
+    
+    Output:
+    initializes data in cal->mmlut->data
+*/ 
+void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
+  register int  i,j, nr, nz;
+  double R, Zmin, Rmax=0, Zmax;
+  vec3d pos, a, xyz, xyz_t; 
+  double x,y, *Ri,*Zi, *data;
+  double rw = 2.0; 
+
+  /* A frame representing a point outside tank, middle of glass*/
+  Calibration cal_t;
+
+  double Zmin_t, Zmax_t;
+  double cross_p[3],cross_c[3]; 
+  double xc[2], yc[2];  /* image corners */
+  
+  /* image corners */
+  xc[0] = 0.0;
+  xc[1] = (double) cpar->imx;
+  yc[0] = 0.0;
+  yc[1] = (double) cpar->imy;
+
+  /* find extrema of imaged object volume */      
+  Zmin = vpar->Zmin_lay[0];
+  Zmax = vpar->Zmax_lay[0];
+  
+  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
+  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
+ 
+  Zmin -= fmod (Zmin, rw);
+  Zmax += (rw - fmod (Zmax, rw));
+  Zmin_t=Zmin;
+  Zmax_t=Zmax;
+
+  /* intersect with image vertices rays */
+  cal_t = *cal;
+
+  for (i = 0; i < 2; i ++) {
+      for (j = 0; j < 2; j++) {
+          pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
+
+          x = x - cal->int_par.xh;
+          y = y - cal->int_par.yh;
+  
+          correct_brown_affin (x, y, cal->added_par, &x,&y);  
+          ray_tracing(x, y, cal, *(cpar->mm), pos, a);
+          
+          move_along_ray(Zmin, pos, a, xyz);
+          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz, \
+            &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
+
+          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
+          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
+
+          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
+          if (R > Rmax)
+              Rmax = R;
+           
+          move_along_ray(Zmax, pos, a, xyz);
+          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz,\
+              &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
+  
+          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
+          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
+
+          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
+          if (R > Rmax)
+              Rmax = R;
+      }
+  }
+
+  /* round values (-> enlarge) */
+  Rmax += (rw - fmod (Rmax, rw));
+
+  /* get # of rasterlines in r,z */
+  nr = (int)(Rmax/rw + 1);
+  nz = (int)((Zmax_t-Zmin_t)/rw + 1);
+
+  /* create two dimensional mmlut structure */
+  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
+  
+  cal->mmlut.nr = nr;
+  cal->mmlut.nz = nz;
+  cal->mmlut.rw = rw;
+  
+  if (cal->mmlut.data == NULL) {
+      data = (double *) malloc (nr*nz * sizeof (double));
+  
+      /* fill mmlut structure */
+      Ri = (double *) malloc (nr * sizeof (double));
+      for (i = 0; i < nr; i++)
+        Ri[i] = i*rw;
+
+      Zi = (double *) malloc (nz * sizeof (double));
+      for (i = 0; i < nz; i++)
+        Zi[i] = Zmin_t + i*rw;
+
+      for (i = 0; i < nr; i++) {
+        for (j = 0; j < nz; j++) {
+            vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
+            data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
+        } /* nr */
+      } /* nz */
+    
+      free (Ri);
+      free (Zi);
+      cal->mmlut.data = data;
+    }
+}
+
+
+/*  get_mmf_from_mmlut() returns the value of mmf (double) for a 3D point
+    using the multimedia look up table.
+    
+    Arguments:
+    pos - vector of 3 doubles, position in 3D space 
+   Calibration parameters pointer, *cal
+*/
+double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
+    int i, ir,iz, nr,nz, rw, v4[4];
+    double R, sr, sz, mmf = 1.0;
+    vec3d temp;
+    
+    rw = cal->mmlut.rw;
+  
+    vec_subt(pos, cal->mmlut.origin, temp);
+    sz = temp[2]/rw;
+    iz = (int) sz;
+    sz -= iz;
+    
+    R = norm(temp[0], temp[1], 0);
+    
+    sr = R/rw;
+    ir = (int) sr;
+    sr -= ir;
+  
+    nz = cal->mmlut.nz;
+    nr = cal->mmlut.nr;
+    
+    /* check whether point is inside camera's object volume */
+    if (ir >= nr - 1)
+        return (0);
+    if (iz < 0  ||  iz >= nz - 1)
+        return (0);
+  
+    /* bilinear interpolation in r/z box */
+    /* ================================= */
+  
+    /* get vertices of box */
+    v4[0] = ir*nz + iz;
+    v4[1] = ir*nz + (iz+1);
+    v4[2] = (ir+1)*nz + iz;
+    v4[3] = (ir+1)*nz + (iz+1);
+  
+    /* 2. check wther point is inside camera's object volume */
+    /* important for epipolar line computation */
+    for (i = 0; i < 4; i++)
+        if (v4[i] < 0  ||  v4[i] >= nr*nz)
+            return (0);
+    
+    /* interpolate */
+    mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
+        + cal->mmlut.data[v4[1]] * (1-sr)*sz
+        + cal->mmlut.data[v4[2]] * sr*(1-sz)
+        + cal->mmlut.data[v4[3]] * sr*sz;
+  
+    return (mmf);
+}
+
+
+/*  volumedimension() finds the limits of the measurement volume in 3D space.
+    
+    Arguments:
+    double pointers to the limits of the volume in x (xmin,xmax), y (ymin, ymax) and
+    z (zmin, zmax) directions
+    volume_par *vpar - struct holding the observed volume size.
+    control_par *cpar - struct holding general control parameters such as 
+        image size.
+    Calibration *cal - scene parameters.
+*/  
+void volumedimension (double *xmax, double *xmin, 
+    double *ymax, double *ymin,
+    double *zmax, double *zmin,
+    volume_par *vpar, control_par *cpar, Calibration **cal)
+{
+  int i_cam, i, j;
+  double X, Y;
+  vec3d pos, a;
+  double x,y;  
+  double xc[2], yc[2];  /* image corners */
+  double Zmin, Zmax;
+  
+  xc[0] = 0.0;
+  xc[1] = (double) cpar->imx;
+  yc[0] = 0.0;
+  yc[1] = (double) cpar->imy;
+  
+  Zmin = vpar->Zmin_lay[0];
+  Zmax = vpar->Zmax_lay[0];
+  
+  /* there is a bug, see the original multimed.c  
+  https://github.com/3dptv/3dptv/src_c/multimed.c#L899
+  obviously we have left and right side that could be smaller or larger in Z
+  */
+  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
+  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
+
+  *zmin = Zmin;
+  *zmax = Zmax;
+    
+  /* find extrema of imaged object volume */
+  for (i_cam = 0; i_cam < cpar->num_cams; i_cam++) {
+      for (i = 0; i < 2; i ++) {
+          for (j = 0; j < 2; j++) {
+              pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
+              x = x - cal[i_cam]->int_par.xh;
+              y = y - cal[i_cam]->int_par.yh;
+              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
+          
+              ray_tracing(x, y, cal[i_cam], *(cpar->mm), pos, a);
+          
+              X = pos[0] + (Zmin - pos[2]) * a[0]/a[2];   
+              Y = pos[1] + (Zmin - pos[2]) * a[1]/a[2];
+              
+                     
+              if ( X > *xmax) *xmax = X;
+              if ( X < *xmin) *xmin = X;
+              if ( Y > *ymax) *ymax = Y;
+              if ( Y < *ymin) *ymin = Y;
+
+              X = pos[0] + (Zmax - pos[2]) * a[0]/a[2];   
+              Y = pos[1] + (Zmax - pos[2]) * a[1]/a[2];
+        
+              if ( X > *xmax) *xmax = X;
+              if ( X < *xmin) *xmin = X;
+              if ( Y > *ymax) *ymax = Y;
+              if ( Y < *ymin) *ymin = Y;
+        
+          }
+      }
+  }
+}
+
-- 
2.43.0


From b106f700bd263a84c13ee20115fda5d50f8baced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 30/73] fix: orient() frees its working calibration and
 weighted observations

---
 liboptv/src/orientation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 21f23c2..9de8c8b 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -577,15 +577,18 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     free(X);
     free(P);
     free(y);
+    free(yh);
     free(Xbeta);
     free(Xh);
 
     if (stopflag){
         rotation_matrix(&(cal->ext_par));
         memcpy(cal_in, cal, sizeof (Calibration));
+        free(cal);
         return resi;
     }
     else {
+        free(cal);
         free(resi);
         return NULL;
     }
-- 
2.43.0


From 0bbb423b9e0045b686c7a481621d4d88a66a2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 31/73] fix: read_man_ori_fix() checks what it read and closes
 its file once

---
 liboptv/src/orientation.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 9de8c8b..66bf7b3 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -726,10 +726,16 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
         goto handle_error;
     }
 
-    for (i=0; i<cam; i++)
-        fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy);
-    fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]);
-    fclose (fpp);
+    for (i=0; i<cam; i++) {
+        if (fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy) != 4) {
+            printf("Bad format for file: %s\n", man_ori_filename);
+            goto handle_error;
+        }
+    }
+    if (fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]) != 4) {
+        printf("Bad format for file: %s\n", man_ori_filename);
+        goto handle_error;
+    }
 
     /* read the id and positions of the fixed points, assign the pre-defined to fix4 */
     fix = read_calblock(&num_fix, calblock_filename);
@@ -750,6 +756,7 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
         if (num_match >= num_fix) break;
     }
     
+    fclose (fpp);
     free(fix);   
     return num_match;
 
-- 
2.43.0


From 16fce4e63ec48852e3fa3b91a5c4d83cb0122cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 32/73] fix: raw_orient() refuses more points than its
 equations buffer holds

---
 liboptv/src/orientation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 66bf7b3..94d96b6 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -622,6 +622,9 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     double 	xp, yp, xc, yc;
     vec3d   pos;
 
+    /* two equations per point must fit in X, y */
+    if (nfix > 5) return 0;
+
     /* init X, y (set to zero) */
     for (i = 0; i < 10; i++) {
       for (j = 0; j < 6; j++)
-- 
2.43.0


From 8e05494c415a9040800b9b93e3fa7c99884acbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 33/73] fix: read_sortgrid_par() reports an empty file as an
 error

---
 liboptv/src/sortgrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index cc72b4c..188e39b 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -139,7 +139,7 @@ int read_sortgrid_par(char *filename) {
     
     fpp = fopen(filename, "r");
     if(!fpp) goto handle_error;
-    if(fscanf(fpp, "%d\n",  &eps) == 0) goto handle_error;
+    if(fscanf(fpp, "%d\n",  &eps) != 1) goto handle_error;
     fclose (fpp);
     
     return eps;
-- 
2.43.0


From 31620621cb10105c8694986dcaa8df4d3166057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 34/73] fix: sortgrid() sets all fields of the points it did
 not find

---
 liboptv/src/sortgrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index 188e39b..39eca08 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -52,7 +52,7 @@ target* sortgrid (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], in
   double        xp,yp;
       
   /* sorted pix should be just of the same size as fix[] */
-  sorted_pix = (target *) malloc(nfix * sizeof(target));
+  sorted_pix = (target *) calloc(nfix, sizeof(target));
 
   for (i=0; i<nfix; i++) sorted_pix[i].pnr = -999;
 
-- 
2.43.0


From effd92fd6cf8282c6a74f3d9ee5791b04945b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 35/73] fix: tracking adds no more particles than a frame can
 hold

---
 liboptv/src/track.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index b439874..ead9f02 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -905,7 +905,9 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                              (quali+w[mm].freq);
                         register_link_candidate(curr_path_inf, rr, w[mm].ftnr);
 
-                        if (tpar->add) {
+                        if (tpar->add &&
+                            fb->buf[3]->num_parts < fb->buf[3]->max_targets)
+                        {
                             add_particle(fb->buf[3], X[4], philf);
                             num_added++;
                         }
@@ -946,7 +948,9 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
             if ( curr_path_inf->inlist == 0 && curr_path_inf->prev >= 0 ) {
                 quali = assess_new_position(X[2], v2, philf, fb->buf[2], run_info);
 
-                if (quali>=2) {
+                if (quali>=2 &&
+                    fb->buf[2]->num_parts < fb->buf[2]->max_targets)
+                {
                     vec_copy(X[3], X[2]);
                     in_volume = 0;
 
@@ -1162,7 +1166,9 @@ double trackback_c (tracking_run *run_info)
             if (tpar->add) {
                 if ( curr_path_inf->inlist == 0) {
                     quali = assess_new_position(X[2], v2, philf, fb->buf[2], run_info);
-                    if (quali>=2) {
+                    if (quali>=2 &&
+                        fb->buf[2]->num_parts < fb->buf[2]->max_targets)
+                    {
                         //vec_copy(X[3], X[2]);
                         in_volume = 0;
 
-- 
2.43.0


From abb692d7628bcaac5f6cecc64215b299cd8a1853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 36/73] fix: angle_acc() gives a valid angle for nearly
 parallel velocities

---
 liboptv/src/track.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index ead9f02..9508462 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -192,6 +192,7 @@ int pos3d_in_bounds(vec3d pos, track_par *bounds) {
 void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
 {
     vec3d v0, v1;
+    double cosine;
 
     vec_subt(pred, start, v0);
     vec_subt(cand, start, v1);
@@ -204,8 +205,12 @@ void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
     } else if ((v0[0] == v1[0]) && (v0[1] == v1[1]) && (v0[2] == v1[2])) {
         *angle = 0;         // otherwise it returns NaN
     } else {
-        *angle = (200./M_PI) * acos(vec_dot(v0, v1) / vec_norm(v0) \
-                                    / vec_norm(v1));
+        cosine = vec_dot(v0, v1) / vec_norm(v0) / vec_norm(v1);
+
+        /* Rounding may exceed the domain of acos(), for parallel vectors. */
+        if (cosine > 1.0) cosine = 1.0;
+        if (cosine < -1.0) cosine = -1.0;
+        *angle = (200./M_PI) * acos(cosine);
     }
 }
 
-- 
2.43.0


From 9dace11ec7709bb5ccae177e4d04dbdbed097bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 37/73] fix: trackback_c() uses the Y limits of the measurement
 volume

---
 liboptv/src/track.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 9508462..8eba4a2 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1077,7 +1077,7 @@ double trackback_c (tracking_run *run_info)
     double angle, acc, dl;
     vec3d diff_pos, X[6];     /* 6 reference points used in the algorithm */
     vec2d n[4], v2[4];     // replaces xn,yn, x2[4], y2[4],
-    double rr, Ymin = 0, Ymax = 0;
+    double rr;
     double npart = 0, nlinks = 0;
     foundpix *w;
 
@@ -1181,7 +1181,7 @@ double trackback_c (tracking_run *run_info)
 
                         /* volume check */
                         if ( vpar->X_lay[0] < X[3][0] && X[3][0] < vpar->X_lay[1] &&
-                             Ymin < X[3][1] && X[3][1] < Ymax &&
+                             run_info->ymin < X[3][1] && X[3][1] < run_info->ymax &&
                              vpar->Zmin_lay[0] < X[3][2] && X[3][2] < vpar->Zmax_lay[1])
                         {in_volume = 1;}
 
-- 
2.43.0


From 4be3fff776ae9f6ad38f3950500494d0d315a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 38/73] fix: tr_new() initializes the Y limits before they are
 extended

---
 liboptv/src/tracking_run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 8c983ae..c8046fe 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -67,6 +67,9 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
     tr->lmax = norm((tpar->dvxmin - tpar->dvxmax), \
                     (tpar->dvymin - tpar->dvymax), \
                     (tpar->dvzmin - tpar->dvzmax));
+    /* volumedimension() only extends the limits. */
+    tr->ymax = 0;
+    tr->ymin = 0;
     volumedimension(&(vpar->X_lay[1]), &(vpar->X_lay[0]), &(tr->ymax),
                     &(tr->ymin), &(vpar->Zmax_lay[1]), &(vpar->Zmin_lay[0]),
                     vpar, cpar, cal);
-- 
2.43.0


From dc41233adc2e848fa9728c9c17dfa5d59135cc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 39/73] fix: frame_init() has a target count for every camera

---
 liboptv/src/tracking_frame_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index b1d6601..f13c731 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -455,7 +455,7 @@ void frame_init(frame *new_frame, int num_cams, int max_targets) {
     new_frame->correspond = (corres *) calloc(max_targets, sizeof(corres));
     
     new_frame->targets = (target**) calloc(num_cams, sizeof(target*));
-    new_frame->num_targets = (int *) calloc(max_targets, sizeof(int));
+    new_frame->num_targets = (int *) calloc(num_cams, sizeof(int));
     
     for (cam = 0; cam < num_cams; cam++) {
         new_frame->targets[cam] = \
-- 
2.43.0


From e8e325041b96619b61a215182167ffa7f1dfe552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 40/73] fix: add_particle() drops link candidates of the slot's
 former user

---
 liboptv/src/track.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 8eba4a2..bd8413f 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -700,6 +700,7 @@ void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
     ref_path_inf = &(frm->path_info[num_parts]);
     vec_copy(ref_path_inf->x, pos);
     reset_links(ref_path_inf);
+    ref_path_inf->inlist = 0; /* the slot may be reused */
     
     ref_corres = &(frm->correspond[num_parts]);
     ref_targets = frm->targets;
-- 
2.43.0


From bca1302ad53f1cd8417cdbe3042e075f275fe45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 41/73] fix: tr_free() frees the frames and image names, as
 documented

---
 liboptv/src/tracking_run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index c8046fe..8e3510b 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -86,9 +86,9 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
    TrackingRun *tr - points to the TrackingRun object to free.
 */
 void tr_free(tracking_run *tr) {
+    fb_free(tr->fb);
     free(tr->fb);
-    free(tr->seq_par->img_base_name);
-    free(tr->seq_par);
+    free_sequence_par(tr->seq_par);
     free(tr->tpar);
     free(tr->vpar);
     free_control_par(tr->cpar);
-- 
2.43.0


From 2427dd36df22268e2ecd41557041db966b632028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 42/73] fix: tr_new_legacy() returns NULL when a parameter file
 can't be read

---
 liboptv/src/tracking_run.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 8e3510b..e59d1e2 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -13,15 +13,33 @@
    char *tpar_fname - path to tracking parameters file.
    char *vpar_fname - path to volume parameters file.
    char *cpar_fname - path to control parameters file.
+   
+   Returns:
+   the new tracking run object, or NULL if any of the files can't be read.
 */
 tracking_run* tr_new_legacy(char *seq_par_fname, char *tpar_fname,
     char *vpar_fname, char *cpar_fname, Calibration **cal) 
 {
+    sequence_par *seq_par = NULL;
+    track_par *tpar = NULL;
+    volume_par *vpar = NULL;
     control_par *cpar = read_control_par(cpar_fname);
-    sequence_par *seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
-    return tr_new(seq_par, read_track_par(tpar_fname), 
-        read_volume_par(vpar_fname), cpar, 4, 20000,
+    
+    if (cpar == NULL) goto handle_error;
+    seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
+    tpar = read_track_par(tpar_fname);
+    vpar = read_volume_par(vpar_fname);
+    if (seq_par == NULL || tpar == NULL || vpar == NULL) goto handle_error;
+    
+    return tr_new(seq_par, tpar, vpar, cpar, 4, 20000,
         "res/rt_is", "res/ptv_is", "res/added", cal, 10000);
+
+handle_error:
+    if (seq_par != NULL) free_sequence_par(seq_par);
+    free(tpar);
+    free(vpar);
+    if (cpar != NULL) free_control_par(cpar);
+    return NULL;
 }
 
 /* tr_new() aggregates several parameter structs used by tracking, and
-- 
2.43.0


From 839d861da6a0cc8fd5fdf8342437fac5ab02ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 43/73] fix: init_mmlut() does not change the grid of an
 existing table

---
 liboptv/src/multimed.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 785e310..3113aa3 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -301,13 +301,12 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   nz = (int)((Zmax_t-Zmin_t)/rw + 1);
 
   /* create two dimensional mmlut structure */
-  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
-  
-  cal->mmlut.nr = nr;
-  cal->mmlut.nz = nz;
-  cal->mmlut.rw = rw;
-  
   if (cal->mmlut.data == NULL) {
+      vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
+      cal->mmlut.nr = nr;
+      cal->mmlut.nz = nz;
+      cal->mmlut.rw = rw;
+      
       data = (double *) malloc (nr*nz * sizeof (double));
   
       /* fill mmlut structure */
-- 
2.43.0


From 98e03a3e462d3882b611720ec1c2f59508528f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 44/73] fix: Python correspondences() has room for all match
 counts and frees its arrays

---
 py_bind/optv/correspondences.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 1b14fc3..2b826e7 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -164,7 +164,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
         np.ndarray[ndim=3, dtype=np.float64_t] clique_targs
         
         # Return buffers:
-        int *match_counts = <int *> malloc(num_cams * sizeof(int))
+        int *match_counts = <int *> calloc(4, sizeof(int))
         n_tupel *corresp_buf
     
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -214,10 +214,11 @@ def correspondences(list img_pts, list flat_coords, list cals,
         sorted_corresp[clique_type] = clique_ids
     
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3] # the total, for any number of cameras
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
+    free(corrected)
     free(match_counts)
     free(corresp_buf) # Note this for future returning of correspondences.
     
-- 
2.43.0


From bee5b0a4203301294bed5138dc00af87d8d92c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 45/73] fix: single_cam_correspondence() returns the y position
 of targets

---
 py_bind/optv/correspondences.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 2b826e7..3958d0d 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -251,7 +251,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
     """
     cdef: 
         int pt, num_points
-        coord_2d *corrected = <coord_2d *> malloc(sizeof(coord_2d *))
+        coord_2d *corrected
     
     corrected = (<MatchedCoords>flat_coords[0]).buf
 
@@ -277,7 +277,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
         if p1 > -1:
             targ = img_pts[0][p1]
             clique_targs[0, pt, 0] = (<Target> targ)._targ.x
-            clique_targs[0, pt, 1] = (<Target> targ)._targ.x
+            clique_targs[0, pt, 1] = (<Target> targ)._targ.y
             # we also update the tnr, see docstring of correspondences
             (<Target> targ)._targ.tnr = pt
 
-- 
2.43.0


From 5bc58812b235deb304967b12002133f8ddc7a77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 46/73] fix: Python correspondences() rejects lists that do not
 fit the number of cameras

---
 py_bind/optv/correspondences.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 3958d0d..a1bb94e 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -153,6 +153,12 @@ def correspondences(list img_pts, list flat_coords, list cals,
         sorted_pos, sorted_corresp, num_targs = single_cam_correspondence(img_pts, flat_coords, cals)
         return sorted_pos, sorted_corresp, num_targs
 
+    if cparam._control_par.num_cams != num_cams or num_cams > 4:
+        raise ValueError("Number of calibrations does not fit the control "
+            "parameters, or is more than 4.")
+    if len(img_pts) != num_cams or len(flat_coords) != num_cams:
+        raise ValueError("Targets and coordinates needed for each camera.")
+
     cdef:        
         calibration **calib = <calibration **> malloc(
             num_cams * sizeof(calibration *))
-- 
2.43.0


From 448593179964e10385f675b3fc5992435f8a4932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 47/73] fix: preprocess_image() uses the given output and
 checks the image size

---
 py_bind/optv/image_processing.pyx | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index 6add162..503819e 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -32,14 +32,24 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
     numpy.ndarray representing the result image.
     '''
 
+    cdef np.ndarray[ndim=2, dtype=np.uint8_t] result_img
+    
     # check arrays dimensions
     if input_img.ndim != 2:
         raise TypeError("Input array must be two-dimensional")
     if (output_img is not None) and (input_img.shape[0] != output_img.shape[0] or
                          input_img.shape[1] != output_img.shape[1]):
         raise ValueError("Different shapes of input and output images.")
+    if input_img.shape[0] != control._control_par.imy or \
+            input_img.shape[1] != control._control_par.imx:
+        raise ValueError("Image shape does not fit the control parameters.")
+    
+    # The C code works on contiguous images only.
+    input_img = np.ascontiguousarray(input_img)
+    if output_img is None or not output_img.flags['C_CONTIGUOUS']:
+        result_img = np.empty_like(input_img)
     else:
-        output_img = np.empty_like(input_img)
+        result_img = output_img
     
     if filter_hp == 2:
         if filter_file == None or not isinstance(filter_file, string_types):
@@ -47,16 +57,17 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
     else:
         filter_file=b""
         
-    for arr in (input_img, output_img):
-        if not arr.flags['C_CONTIGUOUS']:
-            np.ascontiguousarray(arr)
-    
     if (1 != prepare_image( < unsigned char *> input_img.data,
-                            < unsigned char *> output_img.data,
+                            < unsigned char *> result_img.data,
                             lowpass_dim,
                             filter_hp,
                             filter_file,
                             control._control_par)):
         raise Exception("prepare_image C function failed: "
                       + "failure of memory allocation or filter file reading")
+    
+    if output_img is None:
+        return result_img
+    if output_img is not result_img:
+        output_img[...] = result_img
     return output_img              
-- 
2.43.0


From beef47cb583c458d7bfd3841d8ad6a4fbbaec3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 48/73] fix: preprocess_image() accepts the name of a filter
 file

---
 py_bind/optv/image_processing.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index 503819e..3143704 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -52,8 +52,10 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
         result_img = output_img
     
     if filter_hp == 2:
-        if filter_file == None or not isinstance(filter_file, string_types):
+        if filter_file is None or not isinstance(filter_file, string_types + (bytes,)):
             raise ValueError("Expecting a filter file name, received None or non-string.")
+        if not isinstance(filter_file, bytes):
+            filter_file = filter_file.encode('UTF-8')
     else:
         filter_file=b""
         
-- 
2.43.0


From 8cbfe3ac42e037bf0fc5df56d47526d4e327b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 49/73] fix: parameter setters and getters stay inside the
 fixed-size arrays

---
 py_bind/optv/parameters.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index a5c703c..32f9a5d 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -101,6 +101,8 @@ cdef class MultimediaParams:
     def set_layers(self, refr_index, thickness):
         if len(refr_index) != len(thickness):
             raise ValueError("Lengths of refractive index and thickness must be equal.")
+        elif len(refr_index) > 3:
+            raise ValueError("Can't store more than 3 layers.")
         else:
             for i in range(len(refr_index)):
                 self._mm_np[0].n2[i] = refr_index[i]
@@ -464,6 +466,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].X_lay, copy)
     
     def set_X_lay(self, X_lay):
+        if len(X_lay) != 2:
+            raise ValueError("Expected exactly two values.")
         for i in range(len(X_lay)):
             self._volume_par[0].X_lay[i] = X_lay[i]
             
@@ -472,6 +476,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmin_lay, copy)
 
     def set_Zmin_lay(self, Zmin_lay):
+        if len(Zmin_lay) != 2:
+            raise ValueError("Expected exactly two values.")
         for i in range(len(Zmin_lay)):
             self._volume_par[0].Zmin_lay[i] = Zmin_lay[i]
             
@@ -480,6 +486,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmax_lay, copy)
     
     def set_Zmax_lay(self, Zmax_lay):
+        if len(Zmax_lay) != 2:
+            raise ValueError("Expected exactly two values.")
         for i in range(len(Zmax_lay)):
             self._volume_par[0].Zmax_lay[i] = Zmax_lay[i]
             
@@ -782,6 +790,8 @@ cdef class TargetParams:
         copy - if True, return a copy of the underlying array. This way the 
             original is safe.
         """
+        if num_cams > 4 or num_cams < 0:
+            raise ValueError("Can't get more than 4 grey-level thresholds.")
         return wrap_1d_c_arr_as_ndarray(self, num_cams, numpy.NPY_INT, 
             self._targ_par.gvthres, (1 if copy else 0))
         
-- 
2.43.0


From 31c031b5e9c445a5879002251faf15bb65d839c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 50/73] fix: Python image names can not overrun their buffers
 or the list of cameras

---
 py_bind/optv/parameters.pxd |  2 +-
 py_bind/optv/parameters.pyx | 43 +++++++++++++++++++++++++++++--------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/py_bind/optv/parameters.pxd b/py_bind/optv/parameters.pxd
index b9149b5..c84b8e4 100644
--- a/py_bind/optv/parameters.pxd
+++ b/py_bind/optv/parameters.pxd
@@ -14,7 +14,7 @@ cdef extern from "optv/parameters.h":
     
     ctypedef struct sequence_par:
         char ** img_base_name
-        int first, last
+        int num_cams, first, last
         
     ctypedef struct volume_par:
         double X_lay[2]
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 32f9a5d..20b40c6 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -9,6 +9,9 @@ cimport numpy as numpy
 from cpython cimport PyObject, Py_INCREF
 
 cdef extern from "optv/parameters.h":
+    enum:
+        SEQ_FNAME_MAX_LEN
+    
     int c_compare_mm_np "compare_mm_np"(mm_np * mm_np1, mm_np * mm_np2)
     
     track_par * c_read_track_par "read_track_par"(char * file_name)
@@ -59,6 +62,31 @@ cdef numpy.ndarray wrap_1d_c_arr_as_ndarray(object base_obj,
     
     return ndarr
     
+cdef check_cam(int num_cams, int cam):
+    """
+    Raises IndexError if there is no camera number ``cam``.
+    """
+    if cam < 0 or cam >= num_cams:
+        raise IndexError("No camera number {}".format(cam))
+
+cdef set_c_name(char **names, int num_cams, int cam, str new_name):
+    """
+    Copies a Python string to the buffer of one camera's image name.
+    
+    Arguments:
+    char **names - array of buffers, SEQ_FNAME_MAX_LEN long each.
+    int num_cams - length of the array.
+    int cam - the camera whose name is to be set.
+    str new_name - the name. ValueError is raised if it can't fit.
+    """
+    py_byte_string = new_name.encode('UTF-8')
+    cdef char * c_string = py_byte_string
+    
+    check_cam(num_cams, cam)
+    if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
+        raise ValueError("Image name is too long.")
+    strncpy(names[cam], c_string, SEQ_FNAME_MAX_LEN)
+
 cdef class MultimediaParams:
     """
     Relates to photographing through several transparent media (air, tank 
@@ -393,15 +421,14 @@ cdef class SequenceParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
+        check_cam(self._sequence_par[0].num_cams, cam)
         cdef char * c_str = self._sequence_par[0].img_base_name[cam]
         cdef py_str = c_str
         return py_str
     
     # Set image base name for camera #cam
     def set_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        set_c_name(self._sequence_par[0].img_base_name, self._sequence_par[0].num_cams, cam, new_img_name)
     
     # Checks for equality between this and other SequenceParams objects
     # Gives the ability to use "==" and "!=" operators on two SequenceParams objects
@@ -697,27 +724,25 @@ cdef class ControlParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
+        check_cam(self._control_par[0].num_cams, cam)
         cdef char * c_str = self._control_par[0].img_base_name[cam]
         cdef py_str = c_str
         return py_str
     
     # Set image base name for camera #cam
     def set_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        set_c_name(self._control_par[0].img_base_name, self._control_par[0].num_cams, cam, new_img_name)
     
     # Get calibration image base name of camera #cam
     def get_cal_img_base_name(self, cam):
+        check_cam(self._control_par[0].num_cams, cam)
         cdef char * c_str = self._control_par[0].cal_img_base_name[cam]
         cdef py_str = c_str
         return py_str
     
     # Set calibration image base name for camera #cam
     def set_cal_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(new_img_name) + 1)
+        set_c_name(self._control_par[0].cal_img_base_name, self._control_par[0].num_cams, cam, new_img_name)
     
     def get_multimedia_params(self):
         return self._multimedia_params
-- 
2.43.0


From 5db7688fc9ee130276a6fd40e273ffe84b5d29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 51/73] fix: Python parameter readers raise an error and keep
 their values if reading fails

---
 py_bind/optv/parameters.pyx | 44 +++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 20b40c6..baae86f 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -252,8 +252,12 @@ cdef class TrackingParams:
         Reads tracking parameters from an old-style .par file having the
         objects' arguments ordered one per line.
         """
+        cdef track_par *new_par = c_read_track_par(file_name)
+        if new_par == NULL:
+            raise IOError("Problem reading tracking parameters.")
+        
         free(self._track_par)
-        self._track_par = c_read_track_par(file_name)
+        self._track_par = new_par
     
     # Checks for equality between this and other trackParams objects
     # Gives the ability to use "==" and "!=" operators on two trackParams objects
@@ -412,12 +416,15 @@ cdef class SequenceParams:
         filename - path to the text file containing the parameters.
         num_cams - expected number of cameras
         """
+        # read parameters from file to a new sequence_par C struct
+        cdef sequence_par *new_par = c_read_sequence_par(filename, num_cams)
+        if new_par == NULL:
+            raise IOError("Problem reading sequence parameters.")
+        
         # free the memory of previous C struct and its inner strings before 
-        # creating a new one.
+        # replacing it.
         c_free_sequence_par(self._sequence_par)
-        
-        # read parameters from file to a new sequence_par C struct
-        self._sequence_par = c_read_sequence_par(filename, num_cams)
+        self._sequence_par = new_par
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
@@ -575,10 +582,14 @@ cdef class VolumeParams:
         Argument:
         filename - path to the text file containing the parameters.
         """
+        # read parameters from file to a new volume_par C struct
+        cdef volume_par *new_par = c_read_volume_par(filename)
+        if new_par == NULL:
+            raise IOError("Problem reading volume parameters.")
+        
         # free the memory of previous C struct 
         free(self._volume_par)
-        # read parameters from file to a new volume_par C struct
-        self._volume_par = c_read_volume_par(filename)
+        self._volume_par = new_par
     
     # Checks for equality between self and other VolumeParams objects
     # Gives the ability to use "==" and "!=" operators on two VolumeParams objects
@@ -712,13 +723,17 @@ cdef class ControlParams:
     # Arguments:
     # filename - path to text file containing the parameters.
     def read_control_par(self, filename):
-        # free the memory of previous C struct and its inner strings before creating a new one
+        # read parameters from file to a new control_par C struct
+        cdef control_par *new_par = c_read_control_par(filename)
+        if new_par == NULL:
+            raise IOError("Problem reading control parameters.")
+        
+        # free the memory of previous C struct and its inner strings before replacing it
         c_free_control_par(self._control_par)
         # memory for _multimedia_params' mm_np struct was just freed,
         # so set _multimedia params' mm_np pointer to NULL to avoid double free corruption 
         self._multimedia_params._mm_np = NULL
-        # read parameters from file to a new control_par C struct
-        self._control_par = c_read_control_par(filename)
+        self._control_par = new_par
         # set _multimedia_params's _mm_np to the new mm_np that just allocated and read into _control_par
         self._multimedia_params.set_mm_np(self._control_par[0].mm)
         
@@ -906,11 +921,12 @@ cdef class TargetParams:
         
         Fills up the fields of the object from the file and returns.
         """
-        free(self._targ_par)
-        self._targ_par = read_target_par(inp_filename)
-        
-        if self._targ_par == NULL:
+        cdef target_par *new_par = read_target_par(inp_filename)
+        if new_par == NULL:
             raise IOError("Problem reading target recognition parameters.")
+        
+        free(self._targ_par)
+        self._targ_par = new_par
     
     def __dealloc__(self):
         free(self._targ_par)
-- 
2.43.0


From cd19c308a4b7ab252f1ba22fde1ca95da5afe869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 52/73] fix: Calibration.from_file() uses its fallback file and
 raises an error on failure

---
 py_bind/optv/calibration.pyx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index 613bc61..ebcfa8f 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -71,10 +71,15 @@ cdef class Calibration:
         fallback_file - optional path to file used in case ``add_file`` fails
             to open.
         """
-        free(self._calibration);
-        self._calibration = read_calibration(
+        cdef calibration *new_cal = read_calibration(
             (<char *>ori_file if ori_file != None else < char *> 0),
-            (<char *>add_file if add_file != None else < char *> 0), NULL)
+            (<char *>add_file if add_file != None else < char *> 0),
+            (<char *>fallback_file if fallback_file != None else < char *> 0))
+        
+        if new_cal == NULL:
+            raise IOError("Failed to read calibration.")
+        free(self._calibration);
+        self._calibration = new_cal
         
     def write(self, filename, add_file):
         """
-- 
2.43.0


From 0776e256c73a2a99e50b793c19f0fd828cf06c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 53/73] fix: Python read_targets() raises an error if reading
 fails

---
 py_bind/optv/tracking_framebuf.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 06b5f3f..1679c61 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -220,6 +220,9 @@ def read_targets(basename, int frame_num):
     c_string = py_byte_string
     
     num_targets = c_read_targets(tarr, c_string, frame_num)
+    if num_targets < 0:
+        free(tarr)
+        raise IOError("Failed to read targets.")
     ret.set(tarr, num_targets, 1)
     
     return ret
-- 
2.43.0


From a44e5af76cea7551cdcd34c7073e2db716d98d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 54/73] fix: TargetArray.write() raises an error if writing
 fails

---
 py_bind/optv/tracking_framebuf.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 1679c61..020b0a4 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -166,7 +166,9 @@ cdef class TargetArray:
         file_base - path to the file, base part.
         frame_num - frame number part of the file name.
         """
-        write_targets(self._tarr, self._num_targets, file_base, frame_num)
+        if not write_targets(
+            self._tarr, self._num_targets, file_base, frame_num):
+            raise IOError("Failed to write targets.")
 
     def __getitem__(self, int ix):
         """
-- 
2.43.0


From 2378b6021d9168c478dfef5e50155cbeb82437a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 55/73] fix: Frame.read() frees its array of names and checks
 the number of names

---
 py_bind/optv/tracking_framebuf.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 020b0a4..2a5aa34 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -280,9 +280,13 @@ cdef class Frame:
         prio_file_base - optional, for the linkage file with added 'prio'
             column.
         """
-        cdef char **targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
+        cdef char **targ_fb
         cdef char* pb
         
+        if len(target_file_base) != self._num_cams:
+            raise ValueError("Target file names needed for each camera.")
+        targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
+        
         for cam in range(self._num_cams):
             targ_fb[cam] = target_file_base[cam]
         
@@ -300,6 +304,7 @@ cdef class Frame:
         frame_init(self._frm, self._num_cams, MAX_TARGETS)
         success = read_frame(self._frm, corres_file_base, linkage_file_base, 
             pb, targ_fb, frame_num)
+        free(targ_fb)
         
         return success
      
-- 
2.43.0


From 218f2832c2f6c87d985a1f4961e97b0efda8ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 56/73] fix: creating a Frame from files raises an error if
 reading fails

---
 py_bind/optv/tracking_framebuf.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 2a5aa34..b9348c1 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -260,8 +260,9 @@ cdef class Frame:
             self._frm = NULL
 
         else:
-            self.read(corres_file_base, linkage_file_base, 
-                target_file_base, frame_num, prio_file_base)
+            if not self.read(corres_file_base, linkage_file_base, 
+                target_file_base, frame_num, prio_file_base):
+                raise IOError("Failed to read frame.")
     
     def read(Frame self, char *corres_file_base, char *linkage_file_base,
         list target_file_base, int frame_num, prio_file_base):
-- 
2.43.0


From 3051f01e222e9f621514dd19ee43ec19cf0a304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 57/73] fix: targets taken from a TargetArray keep its memory
 alive

---
 py_bind/optv/tracking_framebuf.pxd | 1 +
 py_bind/optv/tracking_framebuf.pyx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/py_bind/optv/tracking_framebuf.pxd b/py_bind/optv/tracking_framebuf.pxd
index 1a29a35..dc6f77f 100644
--- a/py_bind/optv/tracking_framebuf.pxd
+++ b/py_bind/optv/tracking_framebuf.pxd
@@ -38,6 +38,7 @@ cdef extern from "optv/tracking_frame_buf.h":
 cdef class Target:
     cdef target* _targ
     cdef int _owns_data
+    cdef object _owner
     cdef void set(Target self, target* targ)
 
 cdef class TargetArray:
diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index b9348c1..eacade0 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -189,6 +189,7 @@ cdef class TargetArray:
         
         ret = Target()
         ret.set(self._tarr + ix)
+        ret._owner = self # the array is kept while its members are used.
         return ret
     
     def __len__(self):
-- 
2.43.0


From fc79a84dcd605a6444cf384757f977883145f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 58/73] fix: Frame.target_positions_for_camera() checks the
 camera number

---
 py_bind/optv/tracking_framebuf.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index eacade0..d8ebd67 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -344,6 +344,9 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos2d
             int tix
         
+        if cam < 0 or cam >= self._num_cams:
+            raise IndexError("No camera number {}".format(cam))
+        
         pos2d = np.empty((self._frm.num_parts, 2))
         for pt in range(self._frm.num_parts):
             tix = self._frm.correspond[pt].p[cam]
-- 
2.43.0


From e0087c781b5b22feacb6ab5b8b4d6d5e5560d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 59/73] fix: Tracker keeps its file names alive and frees its
 frame buffer

---
 py_bind/optv/tracker.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index cbf47d3..8f0c9c9 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -40,7 +40,7 @@ cdef class Tracker:
         """
         # We need to keep a reference to the Python objects so that their
         # allocations are not freed.
-        self._keepalive = (cpar, vpar, tpar, spar, cals)
+        self._keepalive = (cpar, vpar, tpar, spar, cals, dict(naming))
         
         self.run_info = tr_new(spar._sequence_par, tpar._track_par,
             vpar._volume_par, cpar._control_par, TR_BUFSPACE, MAX_TARGETS,
@@ -94,7 +94,10 @@ cdef class Tracker:
     
     def __dealloc__(self):
         # Don't call tr_free, just free the memory that belongs to us.
+        if self.run_info == NULL:
+            return
         fb_free(self.run_info.fb)
+        free(self.run_info.fb)
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
                                 # owner of the Tracker.
         free(self.run_info) # not using tr_free() which assumes ownership of 
-- 
2.43.0


From 9207dcd9437522961b73af694ddc32b60112effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 60/73] fix: Tracker rejects lists that do not fit the number
 of cameras

---
 py_bind/optv/tracker.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index 8f0c9c9..e327a33 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -38,6 +38,11 @@ cdef class Tracker:
         dict naming - a dictionary with naming rules for the frame buffer 
             files. See the ``default_naming`` member (which is the default).
         """
+        if len(cals) != cpar._control_par.num_cams or \
+                spar._sequence_par.num_cams < len(cals):
+            raise ValueError("Number of calibrations and image names must "
+                "fit the control parameters.")
+        
         # We need to keep a reference to the Python objects so that their
         # allocations are not freed.
         self._keepalive = (cpar, vpar, tpar, spar, cals, dict(naming))
-- 
2.43.0


From 89c3d6e797b3c06dccd6a4d41e9902f7f0664146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 61/73] fix: data access of an empty Frame raises an error

---
 py_bind/optv/tracking_framebuf.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index d8ebd67..fde9c26 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -319,6 +319,8 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos3d
             double *vec
         
+        if self._frm == NULL:
+            raise ValueError("No data in this frame.")
         pos3d = np.empty((self._frm.num_parts, 3))
         for pt in range(self._frm.num_parts):
             vec = <double *>np.PyArray_GETPTR2(pos3d, pt, 0)
@@ -347,6 +349,8 @@ cdef class Frame:
         if cam < 0 or cam >= self._num_cams:
             raise IndexError("No camera number {}".format(cam))
         
+        if self._frm == NULL:
+            raise ValueError("No data in this frame.")
         pos2d = np.empty((self._frm.num_parts, 2))
         for pt in range(self._frm.num_parts):
             tix = self._frm.correspond[pt].p[cam]
-- 
2.43.0


From cfe7aacf956b911c17bc87dc3accc06009615bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 62/73] fix: Python orientation functions check array shapes
 and free their arrays

---
 py_bind/optv/orientation.pyx | 45 ++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index b3ef927..2e2d1f0 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -10,6 +10,13 @@ from optv.parameters cimport ControlParams, VolumeParams
 from optv.epipolar cimport epi_mm_2D
 
 
+cdef check_ref_pts(np.ndarray[ndim=2, dtype=pos_t] ref_pts):
+    """
+    Raises ValueError if the reference points are not an (n,3) array.
+    """
+    if ref_pts.shape[1] != 3:
+        raise ValueError("Reference points must be an (n,3) array.")
+
 def match_detection_to_ref(Calibration cal,
                            np.ndarray[ndim=2, dtype=pos_t] ref_pts,
                            TargetArray img_pts,
@@ -47,6 +54,7 @@ def match_detection_to_ref(Calibration cal,
         target *sorted_targs
         TargetArray t = TargetArray()
 
+    check_ref_pts(ref_pts)
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *> ref_pts.data
 
@@ -71,6 +79,15 @@ cdef calibration** cal_list2arr(list cals):
 
     return calib
 
+cdef check_targets(np.ndarray[ndim=3, dtype=pos_t] targets, cals):
+    """
+    Raises ValueError if the targets array is not of the shape 
+    (num_targets, num_cams, 2), with a camera for each of the calibrations.
+    """
+    if targets.shape[1] != len(cals) or targets.shape[2] != 2:
+        raise ValueError("Targets array must have the shape "
+            "(num_targets, num_cams, 2)")
+
 def point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                     ControlParams cparam, cals, VolumeParams vparam):
     """
@@ -120,7 +137,7 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
     # So we can address targets.data directly instead of get_ptr stuff:
@@ -128,6 +145,8 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
     
     num_targets = targets.shape[0]
     num_cams = targets.shape[1]
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
     res = np.empty((num_targets, 3))
     rcm = np.zeros(num_targets)
 
@@ -137,6 +156,7 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                             calib[0], cparam._control_par.mm, vparam._volume_par, 
                             <vec3d> np.PyArray_GETPTR2(res, pt, 0));
 
+    free(calib)
     return res, rcm
           
 
@@ -162,7 +182,7 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
     # So we can address targets.data directly instead of get_ptr stuff:
@@ -170,6 +190,8 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
 
     num_targets = targets.shape[0]
     num_cams = targets.shape[1]
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
     res = np.empty((num_targets, 3))
     rcm = np.empty(num_targets)
 
@@ -179,6 +201,7 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                                  cparam._control_par.mm, calib,
                                  <vec3d> np.PyArray_GETPTR2(res, pt, 0))
 
+    free(calib)
     return res, rcm
 
 def external_calibration(Calibration cal, 
@@ -205,9 +228,14 @@ def external_calibration(Calibration cal,
         target *targs
         vec3d *ref_coord
     
+    check_ref_pts(ref_pts)
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
     
+    if len(img_pts) != len(ref_pts) or img_pts.shape[1] != 2:
+        raise ValueError("Image points must be an (n,2) array, one for each "
+            "reference point.")
+    
     # Convert pixel coords to metric coords:
     targs = <target *>calloc(len(img_pts), sizeof(target))
     
@@ -268,9 +296,13 @@ def full_calibration(Calibration cal,
         orient_par *orip
         double *residuals
     
+    check_ref_pts(ref_pts)
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
 
+    if len(img_pts) != len(ref_pts):
+        raise ValueError("A target is needed for each reference point.")
+    
     # Load up the orientation parameters. Silly, but saves on defining
     # a whole new class for what is no more than a list.
     orip = <orient_par *>calloc(1, sizeof(orient_par))
@@ -326,16 +358,21 @@ def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets,
     cdef:
         np.ndarray[ndim=2, dtype=pos_t] targ
         vec2d **ctargets
-        calibration **calib = cal_list2arr(cals)
+        calibration **calib
         int cam, num_cams
     
     num_cams = targets.shape[1]
     num_pts = targets.shape[0]
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
     ctargets = <vec2d **>calloc(num_pts, sizeof(vec2d*))
     
     for pt in range(num_pts):
         targ = targets[pt]
         ctargets[pt] = <vec2d *>(targ.data)
     
-    return weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
+    ret = weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
         cparam._control_par.mm, calib,  db_length, db_weight)
+    free(ctargets)
+    free(calib)
+    return ret
-- 
2.43.0


From b21aa222a1d3a32867b0857bf1f3ba4173a533a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 63/73] fix: target_recognition() checks its ranges and uses a
 contiguous image

---
 py_bind/optv/segmentation.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index d40dff9..f9e5910 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -51,7 +51,7 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     cdef:
         TargetArray t = TargetArray()
         target *ret
-        target *targs = <target *> calloc(1024*20, sizeof(target))
+        target *targs
         int num_targs
         int xmin, xmax, ymin, ymax
     
@@ -68,10 +68,17 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     else:
         ymin, ymax = subrange_y
     
-    if img.shape[0] != ymax or img.shape[1] != xmax:
+    if img.shape[0] != cparam._control_par[0].imy or \
+            img.shape[1] != cparam._control_par[0].imx:
         raise ValueError("dimensions are not correct")
+    if xmin < 0 or xmax > img.shape[1] or ymin < 0 or ymax > img.shape[0]:
+        raise ValueError("subrange exceeds the image")
+    if cam < 0 or cam >= 4:
+        raise ValueError("no grey-level threshold for this camera number")
 
     assert img.dtype == DTYPE
+    img = np.ascontiguousarray(img)
+    targs = <target *> calloc(1024*20, sizeof(target))
 
     # The core liboptv call:
     num_targs = targ_rec(<unsigned char *>img.data, tpar._targ_par, 
-- 
2.43.0


From 6dfe9dd9b740978393b58b29fd949a1ee0fe1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 64/73] fix: read_calblock refuses a malformed point line
 instead of silently cutting the list

---
 liboptv/src/sortgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index 39eca08..36799bb 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -163,7 +163,7 @@ handle_error:
 */
 vec3d* read_calblock(int *num_points, char* filename) {
     FILE* fpp = NULL;
-    int	dummy, k = 0;
+    int	dummy, scan_res, k = 0;
     vec3d fix;
     vec3d *ret = (vec3d *) malloc(1); /* reallocated every line */
        
@@ -174,15 +174,15 @@ vec3d* read_calblock(int *num_points, char* filename) {
     }
     
     /* Single-pass read-reallocate.*/
-    while (fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
-            &(fix[1]),&(fix[2])) == 4) 
+    while ((scan_res = fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
+            &(fix[1]),&(fix[2]))) == 4) 
     {
         ret = (vec3d *) realloc(ret, (k + 1) * sizeof(vec3d));
         vec_copy(ret[k], fix);
         k++;
     }
     
-    if (k == 0) {
+    if (k == 0 || scan_res != EOF) {
         printf("Empty of badly formatted file: %s\n", filename);
         goto handle_error;
     }
-- 
2.43.0


From f2671fe9a44edd3814606be777c6a38d829084f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 65/73] fix: distort_brown_affin uses the undistorted x in the
 y decentering term

---
 liboptv/src/trafo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index c75bbca..b9dfa9e 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -167,7 +167,7 @@ void metric_to_pixel(double * x_pixel
     double *x1, *y1 - output metric distorted parameters.
 */
 void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
-  double		r;
+  double		r, x0 = x;
   
   
   r = sqrt (x*x + y*y);
@@ -176,7 +176,7 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
       
       y += y * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
-	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x*y;
+	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x0*y;
       
       *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
-- 
2.43.0


From c276aeb89a0aa918e7171dfcf6bde7ce15b33e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 66/73] fix: fast_box_blur normalises the bottom lines by the
 number of lines in their window

---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 4020425..504fcd2 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -239,7 +239,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i+1);
+            *ptrz = n * (*ptr3) / nq / (2*i - 1);
         }
     }
     
-- 
2.43.0


From a2519c7b3da595fe583f700a572d909521d174c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 67/73] fix: restore the line endings of multimed.c that an
 earlier fix converted

---
 liboptv/src/multimed.c | 932 ++++++++++++++++++++---------------------
 1 file changed, 466 insertions(+), 466 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 3113aa3..73729fa 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -1,466 +1,466 @@
-/****************************************************************************
-
-Routine:            multimed.c
-
-Author/Copyright:       Hans-Gerd Maas
-
-Address:            Institute of Geodesy and Photogrammetry
-                    ETH - Hoenggerberg
-                    CH - 8093 Zurich
-
-Creation Date:          20.4.88
-    
-Description:            
-1 point, exterior orientation, multimedia parameters    ==> X,Y=shifts
-          (special case 3 media, medium 2 = plane parallel)
-                            
-Routines contained:     -
-
-****************************************************************************/
-
-#include "multimed.h"
-
-/*  multimed_nlay() creates the Xq,Yq points for each X,Y point in the image space
-    using radial shift from the multimedia model.
-    
-    Arguments:
-    Calibration *cal - calibration parameters.
-    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
-        layers)
-    vec3d pos - three doubles of the particle position in the 3D space.
-    double *Xq, *Yq - returned values; two dimensional position on the glass 
-        surface separating the water from air.
-*/
-void  multimed_nlay (Calibration *cal, mm_np *mm, vec3d pos, 
-    double *Xq, double *Yq)
-{
-    double  radial_shift;
-      
-    radial_shift = multimed_r_nlay (cal, mm, pos); 
-
-    /* if radial_shift == 1.0, this degenerates to Xq = X, Yq = Y  */
-    *Xq = cal->ext_par.x0 + (pos[0] - cal->ext_par.x0) * radial_shift;
-    *Yq = cal->ext_par.y0 + (pos[1] - cal->ext_par.y0) * radial_shift;
-}
-
-
-/*  multimedia_r_nlay() calculates and returns the radial shift
-    
-    Arguments:
-    Calibration *cal - calibration parameters.
-    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
-        layers)
-    vec3d pos - three doubles of the particle position in the 3D space.
-    
-    Returns:
-    double radial_shift: default is 1.0 if no solution is found
-*/
-double multimed_r_nlay (Calibration *cal, mm_np *mm, vec3d pos) {
-    int i, it = 0;
-    int n_iter = 40;
-    double beta1, beta2[32], beta3, r, rbeta, rdiff, rq, mmf=1.0;
-    double X,Y,Z;
-    double zout;
-    
-    /* 1-medium case */
-    if (mm->n1 == 1 && mm->nlay == 1 && mm->n2[0]== 1 && mm->n3 == 1)
-        return (1.0);
-    
-    /* interpolation using the existing mmlut */
-	if (cal->mmlut.data != NULL) {
-        mmf = get_mmf_from_mmlut(cal, pos);
-        if (mmf > 0) return (mmf);
-    }
-    
-    /* iterative procedure */
-    X = pos[0];
-    Y = pos[1];
-    Z = pos[2];
-    
-    /* Extra layers protrude into water side: */
-    zout = Z;
-    for (i = 1; i < mm->nlay; i++)
-        zout += mm->d[i];
-    
-    r = norm((X - cal->ext_par.x0), (Y - cal->ext_par.y0), 0);
-    rq = r;
-  
-    do
-    {
-        beta1 = atan (rq/(cal->ext_par.z0 - Z));
-        for (i = 0; i < mm->nlay; i++)
-            beta2[i] = asin (sin(beta1) * mm->n1/mm->n2[i]);
-        beta3 = asin (sin(beta1) * mm->n1/mm->n3);
-
-        rbeta = (cal->ext_par.z0 - mm->d[0]) * tan(beta1) - zout * tan(beta3);
-        for (i = 0; i < mm->nlay; i++)
-            rbeta += (mm->d[i] * tan(beta2[i]));
-        
-        rdiff = r - rbeta;
-        rq += rdiff;
-        it++;
-    }
-    while (((rdiff > 0.001) || (rdiff < -0.001))  &&  it < n_iter);
-
- 
-    if (it >= n_iter) {
-        printf ("multimed_r_nlay stopped after %d iterations\n", n_iter);  
-        return (1.0);
-    }
-
-    if (r != 0){ 
-        return (rq/r);
-    }  
-    else {
-        return (1.0);
-    }
-}
-
-/*  trans_Cam_Point() projects global-coordinate points of the camera and an
-    image points on the glass surface separating those points.
-    
-    Input arguments:
-    Exterior ex - holding global-coordinates camera position.
-    mm_np mm - holding glass thickness.
-    Glass gl - holding the glass position in global-coordinates as a 
-        glass-normal vector.
-    vec3d pos - the global coordinates of the observed point.
-    
-    Output arguments:
-    Exterior ex_t - only the primary point fields are used, and are set 
-        to the glass/Z axis intersection.
-    double cross_p[3] - the observed point projection coordinates in global
-        coordinates.
-    double cross_c[3] - same for the camera position. Since the camera point
-        is projected on the other side of the glass, it'll have a small 
-        difference in Z value from ``cross_p``.
-*/
-void trans_Cam_Point(Exterior ex, mm_np mm, Glass gl, vec3d pos, 
-    Exterior *ex_t, vec3d pos_t, double cross_p[3], double cross_c[3])
-{
-    double dist_cam_glas,dist_point_glas,dist_o_glas; //glas inside at water 
-    vec3d glass_dir, primary_pt, renorm_glass, temp;
-    
-    vec_set(glass_dir, gl.vec_x, gl.vec_y, gl.vec_z);
-    vec_set(primary_pt, ex.x0, ex.y0, ex.z0);
-
-    dist_o_glas = vec_norm(glass_dir);
-    dist_cam_glas = vec_dot(primary_pt, glass_dir) / dist_o_glas \
-        - dist_o_glas - mm.d[0];
-    dist_point_glas = vec_dot(pos, glass_dir) / dist_o_glas - dist_o_glas;
-
-    vec_scalar_mul(glass_dir, dist_cam_glas/dist_o_glas, renorm_glass);
-    vec_subt(primary_pt, renorm_glass, cross_c);
-
-    vec_scalar_mul(glass_dir, dist_point_glas/dist_o_glas, renorm_glass);
-    vec_subt(pos, renorm_glass, cross_p);
-
-    ex_t->x0 = 0.;
-    ex_t->y0 = 0.;
-    ex_t->z0 = dist_cam_glas + mm.d[0];
-
-    vec_scalar_mul(glass_dir, mm.d[0]/dist_o_glas, renorm_glass);
-    vec_subt(cross_c, renorm_glass, temp);
-    vec_subt(cross_p, temp, temp);
-    
-    vec_set(pos_t, vec_norm(temp), 0, dist_point_glas);
-}
-
-/* the opposite direction transfer from X_t,Y_t,Z_t to the X,Y,Z in 3D space */
-
-void back_trans_Point(vec3d pos_t, mm_np mm, Glass G, double cross_p[3], 
-    double cross_c[3], vec3d pos)
-{  
-    double nVe, nGl;
-    vec3d glass_dir, renorm_glass, after_glass, temp;
-    
-    vec_set(glass_dir, G.vec_x, G.vec_y, G.vec_z);
-    nGl = vec_norm(glass_dir);
-    
-    vec_scalar_mul(glass_dir, mm.d[0]/nGl, renorm_glass);
-    vec_subt(cross_c, renorm_glass, after_glass);
-    vec_subt(cross_p, after_glass, temp);
-    
-    nVe = vec_norm(temp);
-    
-    vec_scalar_mul(glass_dir, -pos_t[2]/nGl, renorm_glass);
-    vec_subt(after_glass, renorm_glass, pos);
-    
-    if (nVe > 0) {  
-        /* We need this for when the cam-point line is exactly perp. to glass.
-         The degenerate case will have nVe == 0 and produce NaNs on the
-         following calculations.
-        */
-        vec_scalar_mul(temp, -pos_t[0]/nVe, renorm_glass);
-        vec_subt(pos, renorm_glass, pos);
-    }
-}
-
-/*  move_along_ray() calculates the position of a point in a global Z value
-    along a ray whose vertex and direction are given.
-    
-    Arguments:
-    double glob_Z - the Z value of the result point in the global
-        coordinate system.
-    vec3d vertex - the ray vertex.
-    vec3d direct - the ray direction, a unit vector.
-    vec3d out - result buffer.
-*/
-void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out) {
-    out[0] = vertex[0] + (glob_Z - vertex[2]) * direct[0]/direct[2];   
-    out[1] = vertex[1] + (glob_Z - vertex[2]) * direct[1]/direct[2];
-    out[2] = glob_Z;
-}
-
-/*  init_mmlut() prepares the multimedia Look-Up Table for a single camera
-    Arguments: 
-    
-    volume_par *vpar - struct holding the observed volume size.
-    control_par *cpar - struct holding general control parameters such as 
-        image size.
-    Calibration *cal - current single-camera positioning and other camera-
-        specific data.
-    
-    Output:
-    initializes data in cal->mmlut->data
-*/ 
-void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
-  register int  i,j, nr, nz;
-  double R, Zmin, Rmax=0, Zmax;
-  vec3d pos, a, xyz, xyz_t; 
-  double x,y, *Ri,*Zi, *data;
-  double rw = 2.0; 
-
-  /* A frame representing a point outside tank, middle of glass*/
-  Calibration cal_t;
-
-  double Zmin_t, Zmax_t;
-  double cross_p[3],cross_c[3]; 
-  double xc[2], yc[2];  /* image corners */
-  
-  /* image corners */
-  xc[0] = 0.0;
-  xc[1] = (double) cpar->imx;
-  yc[0] = 0.0;
-  yc[1] = (double) cpar->imy;
-
-  /* find extrema of imaged object volume */      
-  Zmin = vpar->Zmin_lay[0];
-  Zmax = vpar->Zmax_lay[0];
-  
-  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
-  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
- 
-  Zmin -= fmod (Zmin, rw);
-  Zmax += (rw - fmod (Zmax, rw));
-  Zmin_t=Zmin;
-  Zmax_t=Zmax;
-
-  /* intersect with image vertices rays */
-  cal_t = *cal;
-
-  for (i = 0; i < 2; i ++) {
-      for (j = 0; j < 2; j++) {
-          pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
-
-          x = x - cal->int_par.xh;
-          y = y - cal->int_par.yh;
-  
-          correct_brown_affin (x, y, cal->added_par, &x,&y);  
-          ray_tracing(x, y, cal, *(cpar->mm), pos, a);
-          
-          move_along_ray(Zmin, pos, a, xyz);
-          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz, \
-            &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
-
-          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
-          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
-
-          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
-          if (R > Rmax)
-              Rmax = R;
-           
-          move_along_ray(Zmax, pos, a, xyz);
-          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz,\
-              &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
-  
-          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
-          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
-
-          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
-          if (R > Rmax)
-              Rmax = R;
-      }
-  }
-
-  /* round values (-> enlarge) */
-  Rmax += (rw - fmod (Rmax, rw));
-
-  /* get # of rasterlines in r,z */
-  nr = (int)(Rmax/rw + 1);
-  nz = (int)((Zmax_t-Zmin_t)/rw + 1);
-
-  /* create two dimensional mmlut structure */
-  if (cal->mmlut.data == NULL) {
-      vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
-      cal->mmlut.nr = nr;
-      cal->mmlut.nz = nz;
-      cal->mmlut.rw = rw;
-      
-      data = (double *) malloc (nr*nz * sizeof (double));
-  
-      /* fill mmlut structure */
-      Ri = (double *) malloc (nr * sizeof (double));
-      for (i = 0; i < nr; i++)
-        Ri[i] = i*rw;
-
-      Zi = (double *) malloc (nz * sizeof (double));
-      for (i = 0; i < nz; i++)
-        Zi[i] = Zmin_t + i*rw;
-
-      for (i = 0; i < nr; i++) {
-        for (j = 0; j < nz; j++) {
-            vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
-            data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
-        } /* nr */
-      } /* nz */
-    
-      free (Ri);
-      free (Zi);
-      cal->mmlut.data = data;
-    }
-}
-
-
-/*  get_mmf_from_mmlut() returns the value of mmf (double) for a 3D point
-    using the multimedia look up table.
-    
-    Arguments:
-    pos - vector of 3 doubles, position in 3D space 
-   Calibration parameters pointer, *cal
-*/
-double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
-    int i, ir,iz, nr,nz, rw, v4[4];
-    double R, sr, sz, mmf = 1.0;
-    vec3d temp;
-    
-    rw = cal->mmlut.rw;
-  
-    vec_subt(pos, cal->mmlut.origin, temp);
-    sz = temp[2]/rw;
-    iz = (int) sz;
-    sz -= iz;
-    
-    R = norm(temp[0], temp[1], 0);
-    
-    sr = R/rw;
-    ir = (int) sr;
-    sr -= ir;
-  
-    nz = cal->mmlut.nz;
-    nr = cal->mmlut.nr;
-    
-    /* check whether point is inside camera's object volume */
-    if (ir >= nr - 1)
-        return (0);
-    if (iz < 0  ||  iz >= nz - 1)
-        return (0);
-  
-    /* bilinear interpolation in r/z box */
-    /* ================================= */
-  
-    /* get vertices of box */
-    v4[0] = ir*nz + iz;
-    v4[1] = ir*nz + (iz+1);
-    v4[2] = (ir+1)*nz + iz;
-    v4[3] = (ir+1)*nz + (iz+1);
-  
-    /* 2. check wther point is inside camera's object volume */
-    /* important for epipolar line computation */
-    for (i = 0; i < 4; i++)
-        if (v4[i] < 0  ||  v4[i] >= nr*nz)
-            return (0);
-    
-    /* interpolate */
-    mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
-        + cal->mmlut.data[v4[1]] * (1-sr)*sz
-        + cal->mmlut.data[v4[2]] * sr*(1-sz)
-        + cal->mmlut.data[v4[3]] * sr*sz;
-  
-    return (mmf);
-}
-
-
-/*  volumedimension() finds the limits of the measurement volume in 3D space.
-    
-    Arguments:
-    double pointers to the limits of the volume in x (xmin,xmax), y (ymin, ymax) and
-    z (zmin, zmax) directions
-    volume_par *vpar - struct holding the observed volume size.
-    control_par *cpar - struct holding general control parameters such as 
-        image size.
-    Calibration *cal - scene parameters.
-*/  
-void volumedimension (double *xmax, double *xmin, 
-    double *ymax, double *ymin,
-    double *zmax, double *zmin,
-    volume_par *vpar, control_par *cpar, Calibration **cal)
-{
-  int i_cam, i, j;
-  double X, Y;
-  vec3d pos, a;
-  double x,y;  
-  double xc[2], yc[2];  /* image corners */
-  double Zmin, Zmax;
-  
-  xc[0] = 0.0;
-  xc[1] = (double) cpar->imx;
-  yc[0] = 0.0;
-  yc[1] = (double) cpar->imy;
-  
-  Zmin = vpar->Zmin_lay[0];
-  Zmax = vpar->Zmax_lay[0];
-  
-  /* there is a bug, see the original multimed.c  
-  https://github.com/3dptv/3dptv/src_c/multimed.c#L899
-  obviously we have left and right side that could be smaller or larger in Z
-  */
-  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
-  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
-
-  *zmin = Zmin;
-  *zmax = Zmax;
-    
-  /* find extrema of imaged object volume */
-  for (i_cam = 0; i_cam < cpar->num_cams; i_cam++) {
-      for (i = 0; i < 2; i ++) {
-          for (j = 0; j < 2; j++) {
-              pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
-              x = x - cal[i_cam]->int_par.xh;
-              y = y - cal[i_cam]->int_par.yh;
-              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
-          
-              ray_tracing(x, y, cal[i_cam], *(cpar->mm), pos, a);
-          
-              X = pos[0] + (Zmin - pos[2]) * a[0]/a[2];   
-              Y = pos[1] + (Zmin - pos[2]) * a[1]/a[2];
-              
-                     
-              if ( X > *xmax) *xmax = X;
-              if ( X < *xmin) *xmin = X;
-              if ( Y > *ymax) *ymax = Y;
-              if ( Y < *ymin) *ymin = Y;
-
-              X = pos[0] + (Zmax - pos[2]) * a[0]/a[2];   
-              Y = pos[1] + (Zmax - pos[2]) * a[1]/a[2];
-        
-              if ( X > *xmax) *xmax = X;
-              if ( X < *xmin) *xmin = X;
-              if ( Y > *ymax) *ymax = Y;
-              if ( Y < *ymin) *ymin = Y;
-        
-          }
-      }
-  }
-}
-
+/****************************************************************************
+
+Routine:            multimed.c
+
+Author/Copyright:       Hans-Gerd Maas
+
+Address:            Institute of Geodesy and Photogrammetry
+                    ETH - Hoenggerberg
+                    CH - 8093 Zurich
+
+Creation Date:          20.4.88
+    
+Description:            
+1 point, exterior orientation, multimedia parameters    ==> X,Y=shifts
+          (special case 3 media, medium 2 = plane parallel)
+                            
+Routines contained:     -
+
+****************************************************************************/
+
+#include "multimed.h"
+
+/*  multimed_nlay() creates the Xq,Yq points for each X,Y point in the image space
+    using radial shift from the multimedia model.
+    
+    Arguments:
+    Calibration *cal - calibration parameters.
+    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
+        layers)
+    vec3d pos - three doubles of the particle position in the 3D space.
+    double *Xq, *Yq - returned values; two dimensional position on the glass 
+        surface separating the water from air.
+*/
+void  multimed_nlay (Calibration *cal, mm_np *mm, vec3d pos, 
+    double *Xq, double *Yq)
+{
+    double  radial_shift;
+      
+    radial_shift = multimed_r_nlay (cal, mm, pos); 
+
+    /* if radial_shift == 1.0, this degenerates to Xq = X, Yq = Y  */
+    *Xq = cal->ext_par.x0 + (pos[0] - cal->ext_par.x0) * radial_shift;
+    *Yq = cal->ext_par.y0 + (pos[1] - cal->ext_par.y0) * radial_shift;
+}
+
+
+/*  multimedia_r_nlay() calculates and returns the radial shift
+    
+    Arguments:
+    Calibration *cal - calibration parameters.
+    mm_np *mm - multimedia info struct (e.g. number of layers, thickness of 
+        layers)
+    vec3d pos - three doubles of the particle position in the 3D space.
+    
+    Returns:
+    double radial_shift: default is 1.0 if no solution is found
+*/
+double multimed_r_nlay (Calibration *cal, mm_np *mm, vec3d pos) {
+    int i, it = 0;
+    int n_iter = 40;
+    double beta1, beta2[32], beta3, r, rbeta, rdiff, rq, mmf=1.0;
+    double X,Y,Z;
+    double zout;
+    
+    /* 1-medium case */
+    if (mm->n1 == 1 && mm->nlay == 1 && mm->n2[0]== 1 && mm->n3 == 1)
+        return (1.0);
+    
+    /* interpolation using the existing mmlut */
+	if (cal->mmlut.data != NULL) {
+        mmf = get_mmf_from_mmlut(cal, pos);
+        if (mmf > 0) return (mmf);
+    }
+    
+    /* iterative procedure */
+    X = pos[0];
+    Y = pos[1];
+    Z = pos[2];
+    
+    /* Extra layers protrude into water side: */
+    zout = Z;
+    for (i = 1; i < mm->nlay; i++)
+        zout += mm->d[i];
+    
+    r = norm((X - cal->ext_par.x0), (Y - cal->ext_par.y0), 0);
+    rq = r;
+  
+    do
+    {
+        beta1 = atan (rq/(cal->ext_par.z0 - Z));
+        for (i = 0; i < mm->nlay; i++)
+            beta2[i] = asin (sin(beta1) * mm->n1/mm->n2[i]);
+        beta3 = asin (sin(beta1) * mm->n1/mm->n3);
+
+        rbeta = (cal->ext_par.z0 - mm->d[0]) * tan(beta1) - zout * tan(beta3);
+        for (i = 0; i < mm->nlay; i++)
+            rbeta += (mm->d[i] * tan(beta2[i]));
+        
+        rdiff = r - rbeta;
+        rq += rdiff;
+        it++;
+    }
+    while (((rdiff > 0.001) || (rdiff < -0.001))  &&  it < n_iter);
+
+ 
+    if (it >= n_iter) {
+        printf ("multimed_r_nlay stopped after %d iterations\n", n_iter);  
+        return (1.0);
+    }
+
+    if (r != 0){ 
+        return (rq/r);
+    }  
+    else {
+        return (1.0);
+    }
+}
+
+/*  trans_Cam_Point() projects global-coordinate points of the camera and an
+    image points on the glass surface separating those points.
+    
+    Input arguments:
+    Exterior ex - holding global-coordinates camera position.
+    mm_np mm - holding glass thickness.
+    Glass gl - holding the glass position in global-coordinates as a 
+        glass-normal vector.
+    vec3d pos - the global coordinates of the observed point.
+    
+    Output arguments:
+    Exterior ex_t - only the primary point fields are used, and are set 
+        to the glass/Z axis intersection.
+    double cross_p[3] - the observed point projection coordinates in global
+        coordinates.
+    double cross_c[3] - same for the camera position. Since the camera point
+        is projected on the other side of the glass, it'll have a small 
+        difference in Z value from ``cross_p``.
+*/
+void trans_Cam_Point(Exterior ex, mm_np mm, Glass gl, vec3d pos, 
+    Exterior *ex_t, vec3d pos_t, double cross_p[3], double cross_c[3])
+{
+    double dist_cam_glas,dist_point_glas,dist_o_glas; //glas inside at water 
+    vec3d glass_dir, primary_pt, renorm_glass, temp;
+    
+    vec_set(glass_dir, gl.vec_x, gl.vec_y, gl.vec_z);
+    vec_set(primary_pt, ex.x0, ex.y0, ex.z0);
+
+    dist_o_glas = vec_norm(glass_dir);
+    dist_cam_glas = vec_dot(primary_pt, glass_dir) / dist_o_glas \
+        - dist_o_glas - mm.d[0];
+    dist_point_glas = vec_dot(pos, glass_dir) / dist_o_glas - dist_o_glas;
+
+    vec_scalar_mul(glass_dir, dist_cam_glas/dist_o_glas, renorm_glass);
+    vec_subt(primary_pt, renorm_glass, cross_c);
+
+    vec_scalar_mul(glass_dir, dist_point_glas/dist_o_glas, renorm_glass);
+    vec_subt(pos, renorm_glass, cross_p);
+
+    ex_t->x0 = 0.;
+    ex_t->y0 = 0.;
+    ex_t->z0 = dist_cam_glas + mm.d[0];
+
+    vec_scalar_mul(glass_dir, mm.d[0]/dist_o_glas, renorm_glass);
+    vec_subt(cross_c, renorm_glass, temp);
+    vec_subt(cross_p, temp, temp);
+    
+    vec_set(pos_t, vec_norm(temp), 0, dist_point_glas);
+}
+
+/* the opposite direction transfer from X_t,Y_t,Z_t to the X,Y,Z in 3D space */
+
+void back_trans_Point(vec3d pos_t, mm_np mm, Glass G, double cross_p[3], 
+    double cross_c[3], vec3d pos)
+{  
+    double nVe, nGl;
+    vec3d glass_dir, renorm_glass, after_glass, temp;
+    
+    vec_set(glass_dir, G.vec_x, G.vec_y, G.vec_z);
+    nGl = vec_norm(glass_dir);
+    
+    vec_scalar_mul(glass_dir, mm.d[0]/nGl, renorm_glass);
+    vec_subt(cross_c, renorm_glass, after_glass);
+    vec_subt(cross_p, after_glass, temp);
+    
+    nVe = vec_norm(temp);
+    
+    vec_scalar_mul(glass_dir, -pos_t[2]/nGl, renorm_glass);
+    vec_subt(after_glass, renorm_glass, pos);
+    
+    if (nVe > 0) {  
+        /* We need this for when the cam-point line is exactly perp. to glass.
+         The degenerate case will have nVe == 0 and produce NaNs on the
+         following calculations.
+        */
+        vec_scalar_mul(temp, -pos_t[0]/nVe, renorm_glass);
+        vec_subt(pos, renorm_glass, pos);
+    }
+}
+
+/*  move_along_ray() calculates the position of a point in a global Z value
+    along a ray whose vertex and direction are given.
+    
+    Arguments:
+    double glob_Z - the Z value of the result point in the global
+        coordinate system.
+    vec3d vertex - the ray vertex.
+    vec3d direct - the ray direction, a unit vector.
+    vec3d out - result buffer.
+*/
+void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out) {
+    out[0] = vertex[0] + (glob_Z - vertex[2]) * direct[0]/direct[2];   
+    out[1] = vertex[1] + (glob_Z - vertex[2]) * direct[1]/direct[2];
+    out[2] = glob_Z;
+}
+
+/*  init_mmlut() prepares the multimedia Look-Up Table for a single camera
+    Arguments: 
+    
+    volume_par *vpar - struct holding the observed volume size.
+    control_par *cpar - struct holding general control parameters such as 
+        image size.
+    Calibration *cal - current single-camera positioning and other camera-
+        specific data.
+    
+    Output:
+    initializes data in cal->mmlut->data
+*/ 
+void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
+  register int  i,j, nr, nz;
+  double R, Zmin, Rmax=0, Zmax;
+  vec3d pos, a, xyz, xyz_t; 
+  double x,y, *Ri,*Zi, *data;
+  double rw = 2.0; 
+
+  /* A frame representing a point outside tank, middle of glass*/
+  Calibration cal_t;
+
+  double Zmin_t, Zmax_t;
+  double cross_p[3],cross_c[3]; 
+  double xc[2], yc[2];  /* image corners */
+  
+  /* image corners */
+  xc[0] = 0.0;
+  xc[1] = (double) cpar->imx;
+  yc[0] = 0.0;
+  yc[1] = (double) cpar->imy;
+
+  /* find extrema of imaged object volume */      
+  Zmin = vpar->Zmin_lay[0];
+  Zmax = vpar->Zmax_lay[0];
+  
+  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
+  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
+ 
+  Zmin -= fmod (Zmin, rw);
+  Zmax += (rw - fmod (Zmax, rw));
+  Zmin_t=Zmin;
+  Zmax_t=Zmax;
+
+  /* intersect with image vertices rays */
+  cal_t = *cal;
+
+  for (i = 0; i < 2; i ++) {
+      for (j = 0; j < 2; j++) {
+          pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
+
+          x = x - cal->int_par.xh;
+          y = y - cal->int_par.yh;
+  
+          correct_brown_affin (x, y, cal->added_par, &x,&y);  
+          ray_tracing(x, y, cal, *(cpar->mm), pos, a);
+          
+          move_along_ray(Zmin, pos, a, xyz);
+          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz, \
+            &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
+
+          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
+          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
+
+          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
+          if (R > Rmax)
+              Rmax = R;
+           
+          move_along_ray(Zmax, pos, a, xyz);
+          trans_Cam_Point(cal->ext_par, *(cpar->mm), cal->glass_par, xyz,\
+              &(cal_t.ext_par), xyz_t, (double *)cross_p, (double *)cross_c);
+  
+          if( xyz_t[2] < Zmin_t ) Zmin_t = xyz_t[2];
+          if( xyz_t[2] > Zmax_t ) Zmax_t = xyz_t[2];
+
+          R = norm((xyz_t[0] - cal_t.ext_par.x0), (xyz_t[1] - cal_t.ext_par.y0), 0);
+          if (R > Rmax)
+              Rmax = R;
+      }
+  }
+
+  /* round values (-> enlarge) */
+  Rmax += (rw - fmod (Rmax, rw));
+
+  /* get # of rasterlines in r,z */
+  nr = (int)(Rmax/rw + 1);
+  nz = (int)((Zmax_t-Zmin_t)/rw + 1);
+
+  /* create two dimensional mmlut structure */
+  if (cal->mmlut.data == NULL) {
+      vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
+      cal->mmlut.nr = nr;
+      cal->mmlut.nz = nz;
+      cal->mmlut.rw = rw;
+      
+      data = (double *) malloc (nr*nz * sizeof (double));
+  
+      /* fill mmlut structure */
+      Ri = (double *) malloc (nr * sizeof (double));
+      for (i = 0; i < nr; i++)
+        Ri[i] = i*rw;
+
+      Zi = (double *) malloc (nz * sizeof (double));
+      for (i = 0; i < nz; i++)
+        Zi[i] = Zmin_t + i*rw;
+
+      for (i = 0; i < nr; i++) {
+        for (j = 0; j < nz; j++) {
+            vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
+            data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
+        } /* nr */
+      } /* nz */
+    
+      free (Ri);
+      free (Zi);
+      cal->mmlut.data = data;
+    }
+}
+
+
+/*  get_mmf_from_mmlut() returns the value of mmf (double) for a 3D point
+    using the multimedia look up table.
+    
+    Arguments:
+    pos - vector of 3 doubles, position in 3D space 
+   Calibration parameters pointer, *cal
+*/
+double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
+    int i, ir,iz, nr,nz, rw, v4[4];
+    double R, sr, sz, mmf = 1.0;
+    vec3d temp;
+    
+    rw = cal->mmlut.rw;
+  
+    vec_subt(pos, cal->mmlut.origin, temp);
+    sz = temp[2]/rw;
+    iz = (int) sz;
+    sz -= iz;
+    
+    R = norm(temp[0], temp[1], 0);
+    
+    sr = R/rw;
+    ir = (int) sr;
+    sr -= ir;
+  
+    nz = cal->mmlut.nz;
+    nr = cal->mmlut.nr;
+    
+    /* check whether point is inside camera's object volume */
+    if (ir >= nr - 1)
+        return (0);
+    if (iz < 0  ||  iz >= nz - 1)
+        return (0);
+  
+    /* bilinear interpolation in r/z box */
+    /* ================================= */
+  
+    /* get vertices of box */
+    v4[0] = ir*nz + iz;
+    v4[1] = ir*nz + (iz+1);
+    v4[2] = (ir+1)*nz + iz;
+    v4[3] = (ir+1)*nz + (iz+1);
+  
+    /* 2. check wther point is inside camera's object volume */
+    /* important for epipolar line computation */
+    for (i = 0; i < 4; i++)
+        if (v4[i] < 0  ||  v4[i] >= nr*nz)
+            return (0);
+    
+    /* interpolate */
+    mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
+        + cal->mmlut.data[v4[1]] * (1-sr)*sz
+        + cal->mmlut.data[v4[2]] * sr*(1-sz)
+        + cal->mmlut.data[v4[3]] * sr*sz;
+  
+    return (mmf);
+}
+
+
+/*  volumedimension() finds the limits of the measurement volume in 3D space.
+    
+    Arguments:
+    double pointers to the limits of the volume in x (xmin,xmax), y (ymin, ymax) and
+    z (zmin, zmax) directions
+    volume_par *vpar - struct holding the observed volume size.
+    control_par *cpar - struct holding general control parameters such as 
+        image size.
+    Calibration *cal - scene parameters.
+*/  
+void volumedimension (double *xmax, double *xmin, 
+    double *ymax, double *ymin,
+    double *zmax, double *zmin,
+    volume_par *vpar, control_par *cpar, Calibration **cal)
+{
+  int i_cam, i, j;
+  double X, Y;
+  vec3d pos, a;
+  double x,y;  
+  double xc[2], yc[2];  /* image corners */
+  double Zmin, Zmax;
+  
+  xc[0] = 0.0;
+  xc[1] = (double) cpar->imx;
+  yc[0] = 0.0;
+  yc[1] = (double) cpar->imy;
+  
+  Zmin = vpar->Zmin_lay[0];
+  Zmax = vpar->Zmax_lay[0];
+  
+  /* there is a bug, see the original multimed.c  
+  https://github.com/3dptv/3dptv/src_c/multimed.c#L899
+  obviously we have left and right side that could be smaller or larger in Z
+  */
+  if (vpar->Zmin_lay[1] < Zmin) Zmin = vpar->Zmin_lay[1];
+  if (vpar->Zmax_lay[1] > Zmax) Zmax = vpar->Zmax_lay[1];
+
+  *zmin = Zmin;
+  *zmax = Zmax;
+    
+  /* find extrema of imaged object volume */
+  for (i_cam = 0; i_cam < cpar->num_cams; i_cam++) {
+      for (i = 0; i < 2; i ++) {
+          for (j = 0; j < 2; j++) {
+              pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
+              x = x - cal[i_cam]->int_par.xh;
+              y = y - cal[i_cam]->int_par.yh;
+              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
+          
+              ray_tracing(x, y, cal[i_cam], *(cpar->mm), pos, a);
+          
+              X = pos[0] + (Zmin - pos[2]) * a[0]/a[2];   
+              Y = pos[1] + (Zmin - pos[2]) * a[1]/a[2];
+              
+                     
+              if ( X > *xmax) *xmax = X;
+              if ( X < *xmin) *xmin = X;
+              if ( Y > *ymax) *ymax = Y;
+              if ( Y < *ymin) *ymin = Y;
+
+              X = pos[0] + (Zmax - pos[2]) * a[0]/a[2];   
+              Y = pos[1] + (Zmax - pos[2]) * a[1]/a[2];
+        
+              if ( X > *xmax) *xmax = X;
+              if ( X < *xmin) *xmin = X;
+              if ( Y > *ymax) *ymax = Y;
+              if ( Y < *ymin) *ymin = Y;
+        
+          }
+      }
+  }
+}
+
-- 
2.43.0


From 9b5422c52a28112a1d1ae27d534ad87f30e70092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 68/73] fix: get_mmf_from_mmlut: points just below the table
 are not covered by it

---
 liboptv/src/multimed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 73729fa..0bf5183 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -363,7 +363,7 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     /* check whether point is inside camera's object volume */
     if (ir >= nr - 1)
         return (0);
-    if (iz < 0  ||  iz >= nz - 1)
+    if (sz < 0  ||  iz < 0  ||  iz >= nz - 1)
         return (0);
   
     /* bilinear interpolation in r/z box */
-- 
2.43.0


From 8879ec2cd4e9fa6e51163e1e3b48dd50c6fcca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 69/73] fix: orient(): the interface directions are tangent to
 the glass (cross products mistyped)

---
 liboptv/src/orientation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 94d96b6..605d7f8 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -306,13 +306,13 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
         cal->glass_par.vec_x, cal->glass_par.vec_y, cal->glass_par.vec_z);
     nGl = vec_norm(glass_dir);
 
-    e1_x = 2*cal->glass_par.vec_z - 3*cal->glass_par.vec_x;
+    e1_x = 2*cal->glass_par.vec_z - 3*cal->glass_par.vec_y;
     e1_y = 3*cal->glass_par.vec_x - 1*cal->glass_par.vec_z;
-    e1_z = 1*cal->glass_par.vec_y - 2*cal->glass_par.vec_y;
+    e1_z = 1*cal->glass_par.vec_y - 2*cal->glass_par.vec_x;
     vec_set(tmp_vec, e1_x, e1_y, e1_z);
     unit_vector(tmp_vec, e1);
 
-    e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_x;
+    e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_y;
     e2_y = e1_z*cal->glass_par.vec_x - e1_x*cal->glass_par.vec_z;
     e2_z = e1_x*cal->glass_par.vec_y - e1_y*cal->glass_par.vec_y;
     vec_set(tmp_vec, e2_x, e2_y, e2_z);
-- 
2.43.0


From 627790c6a2206309c4c1a258d180b080ede6c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 70/73] fix: orient(): second interface direction perpendicular
 to the first (z component)

---
 liboptv/src/orientation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 605d7f8..ae8b8c3 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -314,7 +314,7 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
     e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_y;
     e2_y = e1_z*cal->glass_par.vec_x - e1_x*cal->glass_par.vec_z;
-    e2_z = e1_x*cal->glass_par.vec_y - e1_y*cal->glass_par.vec_y;
+    e2_z = e1_x*cal->glass_par.vec_y - e1_y*cal->glass_par.vec_x;
     vec_set(tmp_vec, e2_x, e2_y, e2_z);
     unit_vector(tmp_vec, e2);
 
-- 
2.43.0


From 1a16f8e6f2c4d9ed9e4d11fabfddcf8f27e6aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 71/73] fix: prepare_image() filters a copy, the 3x3 filters
 can't work in place

---
 liboptv/src/image_processing.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 504fcd2..175e0a8 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -402,7 +402,11 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
   /* filter highpass image, if wanted */
   switch (filter_hp) {
     case 0: break;
-    case 1: lowpass_3 (img_hp, img_hp, cpar);   break;
+    /* the filters can't work in place, they use each pixel several times */
+    case 1:
+        copy_images (img_hp, img_lp, cpar);
+        lowpass_3 (img_lp, img_hp, cpar);
+        break;
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
@@ -419,7 +423,8 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
         }
         fclose (fp);
 
-        filter_3 (img_hp, img_hp, filt, cpar);
+        copy_images (img_hp, img_lp, cpar);
+        filter_3 (img_lp, img_hp, filt, cpar);
         break;
   }
   
-- 
2.43.0


From 2cf4fbc761884726cec067fb898f53617cb041a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:52 +0000
Subject: [PATCH 72/73] fix: candidate searches could start behind the first
 target of the window in long lists

---
 liboptv/src/epi.c   | 2 ++
 liboptv/src/track.c | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/liboptv/src/epi.c b/liboptv/src/epi.c
index f14ceef..789b272 100644
--- a/liboptv/src/epi.c
+++ b/liboptv/src/epi.c
@@ -180,6 +180,8 @@ int find_candidate (coord_2d *crd, target *pix, int num,
   /* due to truncation error we might shift to smaller x */
   j0 -= 12;  
   if (j0 < 0)  j0 = 0; 
+  /* in long lists it can add up to more than that */
+  while (j0 > 0 && crd[j0 - 1].x > xa - tol_band_width)  j0--;
 
   for (j = j0; j < num; j++) {  /* candidate search */
       	
diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index bd8413f..343f1b7 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -264,6 +264,8 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
             }
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */
+            /* in long lists truncation can add up to more than that */
+            while (j0 > 0 && next[j0 - 1].y > ymin) j0--;
             for (j = j0; j<num_targets; j++) {           /* candidate search */
                 if (next[j].tnr != TR_UNUSED ) {
                     if (next[j].y > ymax ) break;                     /* finish search */
@@ -353,6 +355,8 @@ int candsearch_in_pix_rest (target next[], int num_targets, double cent_x, doubl
             }	
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */	
+            /* in long lists truncation can add up to more than that */
+            while (j0 > 0 && next[j0 - 1].y > ymin) j0--;
             for (j = j0; j<num_targets; j++) {           /* candidate search */	
                 if (next[j].tnr == TR_UNUSED ) {	
                     if (next[j].y > ymax ) break;                     /* finish search */	
-- 
2.43.0


From d72f276cc909ad974b544caef40a0794e3e7669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:38 +0000
Subject: [PATCH 73/73] fix: peak_fit wrapped the grey values of bright
 profiles around

---
 liboptv/src/segmentation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 6f5c040..a735613 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -262,6 +262,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     register int  i, j, k, l, m, n;     /* loop variables */
     unsigned char gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
+    int           gvprof;             /* same, may exceed the range of a pixel */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
     short         *label_img;           /* target number labeling */
     /* the following were not assigned, probably from globals */
@@ -445,8 +446,8 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           else for (unify=1, l=1; l<s12; l++) {
               intx1 = (int) (x1 + l * (x2 - x1) / s12);
               inty1 = (int) (y1 + l * (y2 - y1) / s12);
-              gv = *(img + inty1*imx + intx1) + disco;
-              if (gv < (gv1+l*(gv2-gv1)/s12) || gv<gv1 || gv<gv2)   unify = 0;
+              gvprof = *(img + inty1*imx + intx1) + disco;
+              if (gvprof < (gv1+l*(gv2-gv1)/s12) || gvprof<gv1 || gvprof<gv2)   unify = 0;
               if (unify == 0)   break;
           }
           if (unify == 0) {
-- 
2.43.0

