From ec4b03189c63ea31360756d911ab7087a2ddf6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 01/17] fix: compute linear regression sums in double (int
 overflow for long periods)

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 | 12 ++++++------
 5 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 82a880c..df782e7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -357,8 +357,8 @@
 
    if (FIRST_LAUNCH)
         { // init const values
-            STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-            STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+            STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+            STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2.0 * STATE.optInTimePeriod - 1 ) / 6;
             STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
           // init sums
             STATE.SumXY = 0;
@@ -701,8 +701,8 @@
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index f0e189b..578eaf3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -233,8 +233,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -358,8 +358,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2.0 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -701,8 +701,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 7e88184..25ecdbb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -356,8 +356,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2.0 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -700,8 +700,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 3b3e44e..703e78b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -230,8 +230,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -354,8 +354,8 @@ double tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2.0 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -695,8 +695,8 @@ double tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index f6e7847..00af634 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -357,8 +357,8 @@ double m, b, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2.0 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -701,8 +701,8 @@ double m, b, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2.0 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
-- 
2.43.0


From 2048b4e877df29cd312566b4541a47ca6e80567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 02/17] fix: compute WMA divider in double (int overflow for
 periods above 46340)

---
 ta-lib-rt/c/src/ta_func/ta_WMA.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 108ca8b..e31e101 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -158,7 +158,8 @@
 /**** END GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
 {
    /* Insert local variables here. */
-   int inIdx, outIdx, i, trailingIdx, divider;
+   int inIdx, outIdx, i, trailingIdx;
+   double divider;
    double periodSum, periodSub, tempReal, trailingValue;
    int lookbackTotal;
 
@@ -232,9 +233,8 @@
 
    /* Calculate the divider (always an integer value).
     * By induction: 1+2+3+4+'n' = n(n+1)/2
-    * '>>1' is usually faster than '/2' for unsigned.
     */
-   divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+   divider = ((double)optInTimePeriod*(optInTimePeriod+1))/2;
 
    /* The algo used here use a very basic property of
     * multiplication/addition: (x*2) = x+x
@@ -414,7 +414,7 @@
     {
             STATE.periodSum = 0.;
             STATE.periodSub = 0.;
-            STATE.divider =  (STATE.optInTimePeriod*(STATE.optInTimePeriod+1))>>1; //const
+            STATE.divider =  ((double)STATE.optInTimePeriod*(STATE.optInTimePeriod+1))/2; //const
     }
 
  if (NEED_MORE_DATA)
@@ -711,7 +711,8 @@
 /* Generated */                      double        outReal[] )
 /* Generated */ #endif
 /* Generated */ {
-/* Generated */    int inIdx, outIdx, i, trailingIdx, divider;
+/* Generated */    int inIdx, outIdx, i, trailingIdx;
+/* Generated */    double divider;
 /* Generated */    double periodSum, periodSub, tempReal, trailingValue;
 /* Generated */    int lookbackTotal;
 /* Generated */    #if defined( USE_SINGLE_PRECISION_INPUT )
@@ -754,7 +755,7 @@
 /* Generated */       #endif
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    }
-/* Generated */    divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+/* Generated */    divider = ((double)optInTimePeriod*(optInTimePeriod+1))/2;
 /* Generated */    outIdx      = 0;
 /* Generated */    trailingIdx = startIdx - lookbackTotal;
 /* Generated */    periodSum = periodSub = (double)0.0;
-- 
2.43.0


From 93c5f0e64cd604cd60d62ae507e4f62c2a876658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 03/17] fix: compute TRIMA factor in double (int overflow for
 long periods)

---
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index b08c9d5..fe66112 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -339,7 +339,7 @@
        *       on assignement to the factor variable.
        */
       i = (optInTimePeriod>>1);
-      factor = (i+1)*(i+1); 
+      factor = (double)(i+1)*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -412,7 +412,7 @@
        *  - Adjustment of numeratorAdd is different. See Step (2).
        */
       i = (optInTimePeriod>>1);
-      factor = i*(i+1); 
+      factor = (double)i*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -592,12 +592,12 @@ double tempReal;
             if( (STATE.optInTimePeriod % 2) == 1 )
             {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = (i+1)*(i+1);
+                STATE.factor = (double)(i+1)*(i+1);
                 STATE.factor = 1.0/STATE.factor;
                 STATE.middleIdx   = i;
             } else {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = i*(i+1);
+                STATE.factor = (double)i*(i+1);
                 STATE.factor = 1.0/STATE.factor;
 
                 STATE.middleIdx   = i - 1;
@@ -978,7 +978,7 @@ double tempReal;
 /* Generated */    if( (optInTimePeriod % 2) == 1 )
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = (i+1)*(i+1); 
+/* Generated */       factor = (double)(i+1)*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i;
@@ -1021,7 +1021,7 @@ double tempReal;
 /* Generated */    else
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = i*(i+1); 
+/* Generated */       factor = (double)i*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i - 1;
-- 
2.43.0


From e5fdd378a085bdde10886a7b4786b935b7ae6bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 04/17] fix: NATR must normalise by the close of the output bar
 and write every output

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index db40d8e..e236027 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -314,7 +314,7 @@
     * provided outReal.
     */
    outIdx = 1;
-   tempValue = inClose[today];
+   tempValue = inClose[startIdx];
    if( !TA_IS_ZERO(tempValue) )
       outReal[0] = (prevATR/tempValue)*100.0;
    else
@@ -328,11 +328,11 @@
       prevATR *= optInTimePeriod - 1;
       prevATR += tempBuffer[today++];
       prevATR /= optInTimePeriod;
-      tempValue = inClose[today];
+      tempValue = inClose[startIdx+outIdx];
       if( !TA_IS_ZERO(tempValue) )
          outReal[outIdx] = (prevATR/tempValue)*100.0;
       else
-         outReal[0] = 0.0;
+         outReal[outIdx] = 0.0;
       outIdx++;
    }
 
@@ -876,7 +876,7 @@ TA_RetCode retCode;
 /* Generated */       outIdx--;
 /* Generated */    }
 /* Generated */    outIdx = 1;
-/* Generated */    tempValue = inClose[today];
+/* Generated */    tempValue = inClose[startIdx];
 /* Generated */    if( !TA_IS_ZERO(tempValue) )
 /* Generated */       outReal[0] = (prevATR/tempValue)*100.0;
 /* Generated */    else
@@ -887,11 +887,11 @@ TA_RetCode retCode;
 /* Generated */       prevATR *= optInTimePeriod - 1;
 /* Generated */       prevATR += tempBuffer[today++];
 /* Generated */       prevATR /= optInTimePeriod;
-/* Generated */       tempValue = inClose[today];
+/* Generated */       tempValue = inClose[startIdx+outIdx];
 /* Generated */       if( !TA_IS_ZERO(tempValue) )
 /* Generated */          outReal[outIdx] = (prevATR/tempValue)*100.0;
 /* Generated */       else
-/* Generated */          outReal[0] = 0.0;
+/* Generated */          outReal[outIdx] = 0.0;
 /* Generated */       outIdx++;
 /* Generated */    }
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx)    = startIdx;
-- 
2.43.0


From 406c3d42957118fda160f32024ab88cba0415174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 05/17] fix: reject negative ids in
 TA_SetUnstablePeriod/TA_GetUnstablePeriod

---
 ta-lib-rt/c/src/ta_func/ta_utility.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.c b/ta-lib-rt/c/src/ta_func/ta_utility.c
index 2fb4b10..ccea2cd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.c
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.c
@@ -68,7 +68,7 @@ TA_RetCode TA_SetUnstablePeriod( TA_FuncUnstId id,
 {
    int i;
 
-   if( id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( (int)id < 0 || id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
    if( id == ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
@@ -100,7 +100,7 @@ unsigned int Core::GetUnstablePeriod( enum class FuncUnstId id )
 unsigned int TA_GetUnstablePeriod( TA_FuncUnstId id )
 #endif
 {
-   if( id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( (int)id < 0 || id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
 	   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
    #if defined( _MANAGED )
-- 
2.43.0


From 718be83a843da0d77e7961627dd476531d0f90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 06/17] fix: TRIX first smoothing must start one EMA lookback
 later (output was shifted for startIdx above the lookback)

---
 ta-lib-rt/c/src/ta_func/ta_TRIX.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 4e48687..081b65d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -234,7 +234,7 @@
 
    /* Calculate the first EMA */   
    k = PER_TO_K(optInTimePeriod);  
-   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback)+emaLookback, endIdx, inReal,
                                      optInTimePeriod, k,
                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 								     tempBuffer );
@@ -770,7 +770,7 @@ TA_RetCode retCode;
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    k = PER_TO_K(optInTimePeriod);  
-/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback)+emaLookback, endIdx, inReal,
 /* Generated */                                      optInTimePeriod, k,
 /* Generated */                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 /* Generated */ 								     tempBuffer );
-- 
2.43.0


From 6229e2ef228b7db886148000fa88799e28134d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 07/17] fix: STOCH, STOCHF, ATR, NATR, MAVP must check their
 work buffers; STOCH/STOCHF must not use the D output as K buffer

---
 ta-lib-rt/c/src/ta_func/ta_ATR.c    | 16 ++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c   | 34 +++++++++++++++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_NATR.c   | 16 ++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c  | 28 ++++++++++++++----------
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c | 28 ++++++++++++++----------
 5 files changed, 98 insertions(+), 24 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index d94e087..652b376 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -249,6 +249,14 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -821,6 +829,14 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 34b2bca..04a49de 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -270,7 +270,24 @@
 
    /* Allocate intermediate local buffer. */
    ARRAY_ALLOC(localOutputArray,outputSize);
+   #if !defined( _JAVA )
+      if( !localOutputArray )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+   #if !defined( _JAVA )
+      if( !localPeriodArray )
+      {
+         ARRAY_FREE(localOutputArray);
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Copy caller array of period into local buffer.
     * At the same time, truncate to min/max.
@@ -807,7 +824,24 @@ TA_RetCode retCode;
 /* Generated */    }   
 /* Generated */    outputSize = endIdx - tempInt + 1;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !localOutputArray )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !localPeriodArray )
+/* Generated */       {
+/* Generated */          ARRAY_FREE(localOutputArray);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
 /* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index e236027..e78f9bb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -264,6 +264,14 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -846,6 +854,14 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 2613887..db54147 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -411,12 +411,6 @@
       {
          tempBuffer = outSlowK;
       }
-      else if( (outSlowD == inHigh) ||
-               (outSlowD == inLow)  ||
-               (outSlowD == inClose) )
-      {
-         tempBuffer = outSlowD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined(_JAVA)
@@ -425,6 +419,14 @@
          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
       }
    #endif
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Do the K calculation */
    while( today <= endIdx )
@@ -1211,12 +1213,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outSlowK;
 /* Generated */       }
-/* Generated */       else if( (outSlowD == inHigh) ||
-/* Generated */                (outSlowD == inLow)  ||
-/* Generated */                (outSlowD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outSlowD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined(_JAVA)
@@ -1225,6 +1221,14 @@ TA_RetCode retCode;
 /* Generated */          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
 /* Generated */       }
 /* Generated */    #endif
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
 /* Generated */       tmp = inLow[today];
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 9754424..01a2a9f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -367,12 +367,6 @@
       {
          tempBuffer = outFastK;
       }
-      else if( (outFastD == inHigh) ||
-               (outFastD == inLow)  ||
-               (outFastD == inClose) )
-      {
-         tempBuffer = outFastD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined( _JAVA )
@@ -381,6 +375,14 @@
          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
       }
    #endif
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Do the K calculation */
    while( today <= endIdx )
@@ -1120,12 +1122,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outFastK;
 /* Generated */       }
-/* Generated */       else if( (outFastD == inHigh) ||
-/* Generated */                (outFastD == inLow)  ||
-/* Generated */                (outFastD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outFastD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined( _JAVA )
@@ -1134,6 +1130,14 @@ TA_RetCode retCode;
 /* Generated */          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
 /* Generated */       }
 /* Generated */    #endif
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
 /* Generated */       tmp = inLow[today];
-- 
2.43.0


From 36303f3a3ae47c2a3b1a7c0d11d6bb471824f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 08/17] fix: MAVP must not use a period above optInMaxPeriod
 when optInMinPeriod is the larger one (uninitialised values were output)

---
 ta-lib-rt/c/src/ta_func/ta_MAVP.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 04a49de..50e5ddd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -297,7 +297,7 @@
       tempInt = (int)(inPeriods[startIdx+i]);
 	  if( tempInt < optInMinPeriod )
 		  tempInt = optInMinPeriod;
-	  else if( tempInt > optInMaxPeriod )
+	  if( tempInt > optInMaxPeriod )
           tempInt = optInMaxPeriod;
       localPeriodArray[i] = tempInt;
    }
@@ -847,7 +847,7 @@ TA_RetCode retCode;
 /* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
 /* Generated */ 	  if( tempInt < optInMinPeriod )
 /* Generated */ 		  tempInt = optInMinPeriod;
-/* Generated */ 	  else if( tempInt > optInMaxPeriod )
+/* Generated */ 	  if( tempInt > optInMaxPeriod )
 /* Generated */           tempInt = optInMaxPeriod;
 /* Generated */       localPeriodArray[i] = tempInt;
 /* Generated */    }
-- 
2.43.0


From 4f0623cc695ff521735cadcefdf2a186623ebe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 09/17] fix: BBANDS must align the MA and the standard
 deviation when the MA needs fewer bars (MAMA)

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 5f30d63..8818111 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -99,6 +99,7 @@
 /**** END GENCODE SECTION 1 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   int lookbackMA, lookbackSTDDEV;
 
 /**** START GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -132,8 +133,12 @@
    UNUSED_VARIABLE(optInNbDevUp);
    UNUSED_VARIABLE(optInNbDevDn);
 
-   /* The lookback is driven by the middle band moving average. */
-   return LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );                          
+   /* The lookback is driven by the middle band moving average, unless
+    * the standard deviation needs more bars (a MAMA has a fixed lookback).
+    */
+   lookbackMA = LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );
+   lookbackSTDDEV = LOOKBACK_CALL(STDDEV)( optInTimePeriod, 1.0 );
+   return max( lookbackMA, lookbackSTDDEV );
 }
 
 /**** START GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
@@ -315,6 +320,15 @@
     * The other two bands will simply add/substract the
     * standard deviation from this middle band.
     */
+   i = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+   if( startIdx < i )
+      startIdx = i;
+   if( startIdx > endIdx )
+   {
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
    retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
                                 optInTimePeriod, optInMAType,
                                 outBegIdx, outNBElement, tempBuffer1 );
@@ -1001,6 +1015,15 @@ TA_RetCode retCode;
 /* Generated */       if( (tempBuffer1 == inReal) || (tempBuffer2 == inReal) )
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    #endif
+/* Generated */    i = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+/* Generated */    if( startIdx < i )
+/* Generated */       startIdx = i;
+/* Generated */    if( startIdx > endIdx )
+/* Generated */    {
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */    }
 /* Generated */    retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
 /* Generated */                                 optInTimePeriod, optInMAType,
 /* Generated */                                 outBegIdx, outNBElement, tempBuffer1 );
-- 
2.43.0


From be2e016ddde0d79148f0bc99b3dfdd907e7248a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 10/17] fix: STOCH must not copy K after a failed D, STOCHRSI
 must check its work buffer

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c    | 10 ++++++++--
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c | 16 ++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index db54147..f7291e4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -528,7 +528,10 @@
     *  caller buffer because more input data then the
     *  requested range was needed for doing %D).
     */
-   ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+   if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+   {
+      ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+   }
 
    /* Don't need K anymore, free it if it was allocated here. */
    #if defined(USE_SINGLE_PRECISION_INPUT)
@@ -1303,7 +1306,10 @@ TA_RetCode retCode;
 /* Generated */                                        tempBuffer, optInSlowD_Period,
 /* Generated */                                        optInSlowD_MAType,
 /* Generated */                                        outBegIdx, outNBElement, outSlowD );
-/* Generated */    ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+/* Generated */    if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+/* Generated */    {
+/* Generated */       ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+/* Generated */    }
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       ARRAY_FREE( tempBuffer ); 
 /* Generated */    #else
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 15f6384..43e6829 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -322,6 +322,14 @@
    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 
    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+   #if !defined( _JAVA )
+      if( !tempRSIBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
                                 endIdx, 
@@ -874,6 +882,14 @@ TA_RetCode retCode;
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 /* Generated */    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempRSIBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
 /* Generated */                                 endIdx, 
 /* Generated */                                 inReal, 
-- 
2.43.0


From b203dec2b18640a0551104b64c0fa59c59e56195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 11/17] fix: detect short reads and writes of circular buffers

---
 ta-lib-rt/c/src/ta_common/ta_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_common/ta_memory.h b/ta-lib-rt/c/src/ta_common/ta_memory.h
index ef55221..160bdf4 100644
--- a/ta-lib-rt/c/src/ta_common/ta_memory.h
+++ b/ta-lib-rt/c/src/ta_common/ta_memory.h
@@ -410,9 +410,9 @@
     int io_circbuf_res; \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE.var; \
     io_circbuf_res = fwrite(&str_circbuf->idx,sizeof(str_circbuf->idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fwrite(&str_circbuf->size,sizeof(str_circbuf->size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     if (str_circbuf->size > 0) { \
     io_circbuf_res = fwrite(str_circbuf->circbuf,sizeof(type),str_circbuf->size,_file); \
     if (io_circbuf_res < str_circbuf->size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); }\
@@ -422,9 +422,9 @@
     int io_circbuf_res; int circbuf_idx; int circbuf_size;\
     if (STATE_P.var != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam); \
     io_circbuf_res = fread(&circbuf_idx,sizeof(circbuf_idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fread(&circbuf_size,sizeof(circbuf_size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     CREATE_CIRCBUF_STRUCT(taFunc, var, type, circbuf_size) \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE_P.var;  \
     str_circbuf->idx = circbuf_idx; \
-- 
2.43.0


From 2c4ba5396d9eb6980ab8d688d0463abe77a27d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 12/17] fix: check allocations in StateInit and StateLoad

---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ACOS.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_AD.c                  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ADD.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ADOSC.c               |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ADX.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ADXR.c                | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_APO.c                 | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_AROON.c               |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_AROONOSC.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ASIN.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ATAN.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ATR.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c              |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c              |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_BETA.c                | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_BOP.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CCI.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c           |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c      |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c          |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c      |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c         | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c    |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c   |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c    |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c     |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c         |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c        |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c    |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c   |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c             |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c         |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c    |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c        |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c      |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c   |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c           |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c       |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c           |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c      |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c         |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c          |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c       |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c     |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c           |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c   |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c          |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c     |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c   |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c         |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c         |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c      |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c          |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c      |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c           |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c         |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c      |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c     |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c        |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c      |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c   |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c    |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c           |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c        |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c        |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c          |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c     |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CEIL.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CMO.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_CORREL.c              |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_COS.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_COSH.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_DEMA.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_DIV.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_DX.c                  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_EMA.c                 | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_EXP.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_FLOOR.c               |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c         |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c          |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c           |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c             |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c        |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c        |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_IMI.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_KAMA.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_LN.c                  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_LOG10.c               |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MA.c                  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MACD.c                | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c             |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c             |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MAMA.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MAVP.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MAX.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MFI.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MIN.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MINMAX.c              |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c         |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MOM.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_MULT.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_NATR.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_NVI.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_OBV.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c             |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c             |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_PPO.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_PVI.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_PVT.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ROC.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ROCP.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ROCR.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ROCR100.c             |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_RSI.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_SAR.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c              |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_SIN.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_SINH.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_SMA.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_SQRT.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c              |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_STOCH.c               | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c              | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_SUB.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_SUM.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_T3.c                  |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_TAN.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_TANH.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_TEMA.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_TRANGE.c              |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c               |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_TRIX.c                |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c              |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_VAR.c                 |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c            |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_WILLR.c               |  8 ++++----
 ta-lib-rt/c/src/ta_func/ta_WLMA.c                | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_WMA.c                 |  8 ++++----
 ta-lib-rt/c/src/tools/gen_code/gen_code.c        |  8 ++++----
 166 files changed, 673 insertions(+), 673 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 001be92..5473bb4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -368,13 +368,13 @@ TA_RetCode retCode;
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ACCBANDS_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ACCBANDS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACCBANDS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACCBANDS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -713,7 +713,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -721,7 +721,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACCBANDS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACCBANDS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACCBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ACOS.c b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
index c2529f9..5de867b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACOS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
@@ -204,12 +204,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ACOS_Lookback();
 /* Generated */    #ifndef TA_ACOS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACOS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACOS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -462,7 +462,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -470,7 +470,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACOS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACOS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACOS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_AD.c b/ta-lib-rt/c/src/ta_func/ta_AD.c
index 262d2ae..e51d4eb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AD.c
@@ -251,12 +251,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AD_Lookback();
 /* Generated */    #ifndef TA_AD_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AD_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AD_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -550,7 +550,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -558,7 +558,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AD_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AD_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ad,sizeof(STATE_P.ad),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADD.c b/ta-lib-rt/c/src/ta_func/ta_ADD.c
index 620e17c..db37cdf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADD.c
@@ -216,12 +216,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ADD_Lookback();
 /* Generated */    #ifndef TA_ADD_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADD_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADD_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -484,7 +484,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -492,7 +492,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADD_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADD_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
index a8c2fe4..a8adb6f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
@@ -389,14 +389,14 @@
 /* Generated */    else if( ((int)optInSlowPeriod < 2) || ((int)optInSlowPeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    MEM_SIZE_P = TA_ADOSC_Lookback(optInFastPeriod, optInSlowPeriod );
 /* Generated */    #ifndef TA_ADOSC_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADOSC_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADOSC_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -724,7 +724,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -732,7 +732,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADOSC_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADOSC_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADX.c b/ta-lib-rt/c/src/ta_func/ta_ADX.c
index 34efe34..8943c80 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADX.c
@@ -584,13 +584,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADX_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADX_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADX_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -966,7 +966,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -974,7 +974,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADX_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADX_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index fbeae8d..a82e116 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -301,13 +301,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADXR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADXR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -322,7 +322,7 @@
       MEM_SIZE_P = 3;
 
    // TODO only one double is needed for memory
-   MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+   { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 
    return FUNCTION_CALL_STATE_INIT(ADX)((struct TA_ADX_State**)&STATE_P.ADXState, STATE_P.optInTimePeriod);
 }
@@ -611,7 +611,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -619,7 +619,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADXR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADXR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADXR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 4ffec00..2604b32 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -444,7 +444,7 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -452,7 +452,7 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 /* Generated */    MEM_SIZE_P = TA_APO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_APO_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_APO_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_APO_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -523,7 +523,7 @@ if( optInSlowPeriod < optInFastPeriod )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+    STATE = TA_Calloc(1, sizeof(struct TA_APO_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -818,7 +818,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -826,7 +826,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_APO_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_APO_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_APO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROON.c b/ta-lib-rt/c/src/ta_func/ta_AROON.c
index 5023801..ed39ec1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROON.c
@@ -340,13 +340,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROON_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROON_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROON_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROON_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -702,7 +702,7 @@ double temp;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -710,7 +710,7 @@ double temp;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROON_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROON_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
index da47e01..e9f5ec7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
@@ -351,13 +351,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROONOSC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROONOSC_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROONOSC_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROONOSC_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -697,7 +697,7 @@ double temp;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -705,7 +705,7 @@ double temp;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROONOSC_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROONOSC_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROONOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ASIN.c b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
index 8ff0efe..2fcbde4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ASIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
@@ -204,12 +204,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ASIN_Lookback();
 /* Generated */    #ifndef TA_ASIN_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ASIN_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ASIN_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -462,7 +462,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -470,7 +470,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ASIN_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ASIN_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ASIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATAN.c b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
index 5c866c4..da9457f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
@@ -201,12 +201,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ATAN_Lookback();
 /* Generated */    #ifndef TA_ATAN_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATAN_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATAN_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -459,7 +459,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -467,7 +467,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATAN_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATAN_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 652b376..331ba55 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -362,13 +362,13 @@ TA_RetCode retCode;
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ATR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -705,7 +705,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -713,7 +713,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index 47682c2..36942a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -261,13 +261,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AVGDEV_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AVGDEV_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGDEV_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGDEV_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -549,7 +549,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -557,7 +557,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGDEV_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGDEV_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
index 6400773..012af34 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
@@ -225,12 +225,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AVGPRICE_Lookback();
 /* Generated */    #ifndef TA_AVGPRICE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGPRICE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGPRICE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -507,7 +507,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -515,7 +515,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGPRICE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGPRICE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 8818111..447b275 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -498,7 +498,7 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDevUp = optInNbDevUp;
@@ -507,7 +507,7 @@
 /* Generated */    MEM_SIZE_P = TA_BBANDS_Lookback(optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
 /* Generated */    #ifndef TA_BBANDS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BBANDS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BBANDS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -854,7 +854,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -862,7 +862,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BBANDS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BBANDS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index 3f0df77..88d04c8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -360,13 +360,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_BETA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_BETA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -378,7 +378,7 @@
    STATE_P.initialized = 0;
    MEM_SIZE_P--;
    if (MEM_SIZE_P > 0)
-     MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+     { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
@@ -723,7 +723,7 @@ double x,y,temp;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -731,7 +731,7 @@ double x,y,temp;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BETA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BETA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BETA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BOP.c b/ta-lib-rt/c/src/ta_func/ta_BOP.c
index ea3d263..ba6d6db 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BOP.c
@@ -224,12 +224,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_BOP_Lookback();
 /* Generated */    #ifndef TA_BOP_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BOP_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BOP_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -512,7 +512,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -520,7 +520,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BOP_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BOP_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index d42dc6a..4392f1b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -336,13 +336,13 @@ DEFINE_CIRCBUF_STRUCT(CCI, double)
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CCI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CCI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CCI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CCI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -655,7 +655,7 @@ double lastValue, sum, theAverage;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -663,7 +663,7 @@ double lastValue, sum, theAverage;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CCI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CCI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CCI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 1e51a1d..994a7a3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -279,12 +279,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDL2CROWS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL2CROWS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL2CROWS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -597,7 +597,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -605,7 +605,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL2CROWS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL2CROWS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index ec59f27..c651234 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -293,12 +293,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3BLACKCROWS_Lookback();
 /* Generated */    #ifndef TA_CDL3BLACKCROWS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3BLACKCROWS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3BLACKCROWS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -640,7 +640,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -648,7 +648,7 @@ unsigned int i1,i2,i3;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3BLACKCROWS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3BLACKCROWS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3BLACKCROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 24383d6..42233cf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -288,12 +288,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3INSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3INSIDE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3INSIDE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3INSIDE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -631,7 +631,7 @@ unsigned int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -639,7 +639,7 @@ unsigned int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3INSIDE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3INSIDE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3INSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
index 2901e2d..3571e23 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
@@ -299,12 +299,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3LINESTRIKE_Lookback();
 /* Generated */    #ifndef TA_CDL3LINESTRIKE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3LINESTRIKE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3LINESTRIKE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -651,7 +651,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -659,7 +659,7 @@ unsigned int i1,i2,i3;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3LINESTRIKE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3LINESTRIKE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3LINESTRIKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal3,sizeof(STATE_P.NearPeriodTotal3),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
index f8cebb6..e3e4be7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
@@ -267,12 +267,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3OUTSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3OUTSIDE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -283,7 +283,7 @@
    /* insert state init code here. */
 
 //   MEM_SIZE_P--;
-   MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+   { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
@@ -573,7 +573,7 @@ int i1, i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -581,7 +581,7 @@ int i1, i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3OUTSIDE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3OUTSIDE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3OUTSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
index 0336b61..3213163 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
@@ -328,12 +328,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3STARSINSOUTH_Lookback();
 /* Generated */    #ifndef TA_CDL3STARSINSOUTH_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3STARSINSOUTH_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3STARSINSOUTH_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -721,7 +721,7 @@ unsigned int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -729,7 +729,7 @@ unsigned int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3STARSINSOUTH_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3STARSINSOUTH_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3STARSINSOUTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
index c59ba43..6ddbc51 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
@@ -341,12 +341,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3WHITESOLDIERS_Lookback();
 /* Generated */    #ifndef TA_CDL3WHITESOLDIERS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3WHITESOLDIERS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -754,7 +754,7 @@ unsigned int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -762,7 +762,7 @@ unsigned int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3WHITESOLDIERS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3WHITESOLDIERS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index c419bf3..bba7ce3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -349,13 +349,13 @@
 /* Generated */    else if( (optInPenetration < 0.000000e+0) ||/* Generated */  (optInPenetration > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLABANDONEDBABY_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLABANDONEDBABY_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLABANDONEDBABY_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLABANDONEDBABY_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -731,7 +731,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -739,7 +739,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLABANDONEDBABY_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLABANDONEDBABY_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLABANDONEDBABY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
index e6a2857..2f469b3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
@@ -377,12 +377,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLADVANCEBLOCK_Lookback();
 /* Generated */    #ifndef TA_CDLADVANCEBLOCK_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLADVANCEBLOCK_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLADVANCEBLOCK_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -829,7 +829,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -837,7 +837,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLADVANCEBLOCK_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLADVANCEBLOCK_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLADVANCEBLOCK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowShortPeriodTotal0,sizeof(STATE_P.ShadowShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
index c380a8e..33e664b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
@@ -283,12 +283,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBELTHOLD_Lookback();
 /* Generated */    #ifndef TA_CDLBELTHOLD_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBELTHOLD_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBELTHOLD_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -636,7 +636,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,7 +644,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBELTHOLD_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBELTHOLD_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBELTHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index fd4f6a1..3a5d7f6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -293,12 +293,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBREAKAWAY_Lookback();
 /* Generated */    #ifndef TA_CDLBREAKAWAY_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBREAKAWAY_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBREAKAWAY_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -636,7 +636,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,7 +644,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBREAKAWAY_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBREAKAWAY_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBREAKAWAY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
index b458467..27dbbe6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
@@ -297,12 +297,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCLOSINGMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLCLOSINGMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -650,7 +650,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -658,7 +658,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCLOSINGMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
index 25f7f7f..111d050 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
@@ -302,12 +302,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCONCEALBABYSWALL_Lookback();
 /* Generated */    #ifndef TA_CDLCONCEALBABYSWALL_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCONCEALBABYSWALL_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -651,7 +651,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -659,7 +659,7 @@ unsigned int i1,i2,i3;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCONCEALBABYSWALL_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCONCEALBABYSWALL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal1,sizeof(STATE_P.ShadowVeryShortPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 2c8a049..c6be4af 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -293,12 +293,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCOUNTERATTACK_Lookback();
 /* Generated */    #ifndef TA_CDLCOUNTERATTACK_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCOUNTERATTACK_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCOUNTERATTACK_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -641,7 +641,7 @@ unsigned int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -649,7 +649,7 @@ unsigned int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCOUNTERATTACK_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCOUNTERATTACK_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCOUNTERATTACK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
index 53f8275..b0807f8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
@@ -309,13 +309,13 @@
 /* Generated */    else if( (optInPenetration < 0.000000e+0) ||/* Generated */  (optInPenetration > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLDARKCLOUDCOVER_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLDARKCLOUDCOVER_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDARKCLOUDCOVER_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -638,7 +638,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -646,7 +646,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDARKCLOUDCOVER_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDARKCLOUDCOVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
index 3523601..fb64769 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
@@ -275,12 +275,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDOJI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -592,7 +592,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,7 +600,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
index 3eb838b..07a112e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
@@ -289,12 +289,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJISTAR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJISTAR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -631,7 +631,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -639,7 +639,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJISTAR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJISTAR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.DojiPeriodTotal,sizeof(STATE_P.DojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
index f362ba7..6233439 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
@@ -292,12 +292,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDRAGONFLYDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDRAGONFLYDOJI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDRAGONFLYDOJI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -634,7 +634,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -642,7 +642,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDRAGONFLYDOJI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDRAGONFLYDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
index 3a07d6a..46e27b4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
@@ -273,12 +273,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLENGULFING_Lookback();
 /* Generated */    #ifndef TA_CDLENGULFING_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLENGULFING_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLENGULFING_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -578,7 +578,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -586,7 +586,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLENGULFING_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLENGULFING_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLENGULFING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
index ecd51e1..5eaabb6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
@@ -337,13 +337,13 @@
 /* Generated */    else if( (optInPenetration < 0.000000e+0) ||/* Generated */  (optInPenetration > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGDOJISTAR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -706,7 +706,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -714,7 +714,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGDOJISTAR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 51ec7e2..925efcd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -329,13 +329,13 @@
 /* Generated */    else if( (optInPenetration < 0.000000e+0) ||/* Generated */  (optInPenetration > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGSTAR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGSTAR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGSTAR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -688,7 +688,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -696,7 +696,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGSTAR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGSTAR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
index 6377984..1a5d69f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
@@ -289,12 +289,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGAPSIDESIDEWHITE_Lookback();
 /* Generated */    #ifndef TA_CDLGAPSIDESIDEWHITE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -638,7 +638,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -646,7 +646,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
index 5918d5f..7596560 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
@@ -279,12 +279,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGRAVESTONEDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLGRAVESTONEDOJI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGRAVESTONEDOJI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -622,7 +622,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -630,7 +630,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGRAVESTONEDOJI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGRAVESTONEDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
index 937e225..79451be 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
@@ -305,12 +305,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLHAMMER_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHAMMER_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHAMMER_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -682,7 +682,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -690,7 +690,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHAMMER_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHAMMER_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
index 085136f..908f578 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
@@ -305,12 +305,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHANGINGMAN_Lookback();
 /* Generated */    #ifndef TA_CDLHANGINGMAN_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHANGINGMAN_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHANGINGMAN_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -682,7 +682,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -690,7 +690,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHANGINGMAN_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHANGINGMAN_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHANGINGMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
index 17adadf..8c87f67 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
@@ -300,12 +300,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMI_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -655,7 +655,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -663,7 +663,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyShortPeriodTotal,sizeof(STATE_P.BodyShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
index 4a091e9..3de22cb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
@@ -296,12 +296,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMICROSS_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMICROSS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMICROSS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMICROSS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -652,7 +652,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,7 +660,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMICROSS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMICROSS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMICROSS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 97e8c4a..29b2ea2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -275,12 +275,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIGHWAVE_Lookback();
 /* Generated */    #ifndef TA_CDLHIGHWAVE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIGHWAVE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIGHWAVE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -604,7 +604,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -612,7 +612,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIGHWAVE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIGHWAVE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIGHWAVE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
index 3198dcb..ab9faf1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
@@ -297,12 +297,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKE_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -636,7 +636,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,7 +644,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 0a2d90a..be843ee 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -329,12 +329,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKEMOD_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKEMOD_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKEMOD_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKEMOD_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -692,7 +692,7 @@ int i1,i2,i3;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -700,7 +700,7 @@ int i1,i2,i3;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKEMOD_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKEMOD_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKEMOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
index 199497d..2c42ef4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
@@ -290,12 +290,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHOMINGPIGEON_Lookback();
 /* Generated */    #ifndef TA_CDLHOMINGPIGEON_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHOMINGPIGEON_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHOMINGPIGEON_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -636,7 +636,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,7 +644,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHOMINGPIGEON_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHOMINGPIGEON_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHOMINGPIGEON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
index 37166c6..16fe90a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
@@ -315,12 +315,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLIDENTICAL3CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLIDENTICAL3CROWS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLIDENTICAL3CROWS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -694,7 +694,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -702,7 +702,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLIDENTICAL3CROWS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLIDENTICAL3CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
index 9d0b5ff..0bc1f87 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
@@ -291,12 +291,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINNECK_Lookback();
 /* Generated */    #ifndef TA_CDLINNECK_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINNECK_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINNECK_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -635,7 +635,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -643,7 +643,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINNECK_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINNECK_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
index 5101675..a083e60 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
@@ -300,12 +300,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINVERTEDHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLINVERTEDHAMMER_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINVERTEDHAMMER_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -662,7 +662,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -670,7 +670,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINVERTEDHAMMER_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINVERTEDHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index a097ddb..476e8f7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -303,12 +303,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKING_Lookback();
 /* Generated */    #ifndef TA_CDLKICKING_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKING_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKING_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -671,7 +671,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -679,7 +679,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKING_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKING_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index caa3097..91c7693 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -305,12 +305,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKINGBYLENGTH_Lookback();
 /* Generated */    #ifndef TA_CDLKICKINGBYLENGTH_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKINGBYLENGTH_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -678,7 +678,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -686,7 +686,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKINGBYLENGTH_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKINGBYLENGTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
index ac07488..996b1a8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
@@ -281,12 +281,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLADDERBOTTOM_Lookback();
 /* Generated */    #ifndef TA_CDLLADDERBOTTOM_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLADDERBOTTOM_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLADDERBOTTOM_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -617,7 +617,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -625,7 +625,7 @@ int i1, i2, i3, i4;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLADDERBOTTOM_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLADDERBOTTOM_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLADDERBOTTOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
index 0efb80e..ecd11ac 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
@@ -278,12 +278,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLEGGEDDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLEGGEDDOJI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -619,7 +619,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -627,7 +627,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLEGGEDDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index 899df25..450af97 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -279,12 +279,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLINE_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLINE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLINE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLINE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -620,7 +620,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -628,7 +628,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLINE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLINE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
index b6307bd..92c5750 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
@@ -275,12 +275,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMARUBOZU_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMARUBOZU_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -620,7 +620,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -628,7 +628,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMARUBOZU_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMARUBOZU_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
index 81708ca..2bd23f5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
@@ -272,12 +272,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMATCHINGLOW_Lookback();
 /* Generated */    #ifndef TA_CDLMATCHINGLOW_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATCHINGLOW_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATCHINGLOW_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -601,7 +601,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -609,7 +609,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATCHINGLOW_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATCHINGLOW_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATCHINGLOW_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 42dcada..cbec279 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -346,13 +346,13 @@
 /* Generated */    else if( (optInPenetration < 0.000000e+0) ||/* Generated */  (optInPenetration > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMATHOLD_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMATHOLD_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATHOLD_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATHOLD_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -728,7 +728,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -736,7 +736,7 @@ int i1, i2, i3, i4;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATHOLD_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATHOLD_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
index 1e542fd..bc6d2f4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
@@ -331,13 +331,13 @@
 /* Generated */    else if( (optInPenetration < 0.000000e+0) ||/* Generated */  (optInPenetration > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGDOJISTAR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -700,7 +700,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -708,7 +708,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGDOJISTAR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 36c9278..22a49c8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -319,13 +319,13 @@
 /* Generated */    else if( (optInPenetration < 0.000000e+0) ||/* Generated */  (optInPenetration > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGSTAR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGSTAR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGSTAR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -678,7 +678,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -686,7 +686,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGSTAR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGSTAR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
index ccab91e..155c67f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
@@ -283,12 +283,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLONNECK_Lookback();
 /* Generated */    #ifndef TA_CDLONNECK_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLONNECK_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLONNECK_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -630,7 +630,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -638,7 +638,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLONNECK_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLONNECK_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLONNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
index 1d898ca..279fc8c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
@@ -283,12 +283,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLPIERCING_Lookback();
 /* Generated */    #ifndef TA_CDLPIERCING_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLPIERCING_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLPIERCING_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -621,7 +621,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -629,7 +629,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLPIERCING_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLPIERCING_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLPIERCING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index cc020fb..69258de 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -305,12 +305,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRICKSHAWMAN_Lookback();
 /* Generated */    #ifndef TA_CDLRICKSHAWMAN_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRICKSHAWMAN_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRICKSHAWMAN_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -668,7 +668,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -676,7 +676,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRICKSHAWMAN_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRICKSHAWMAN_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRICKSHAWMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index ca64ff9..d09ed45 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -313,12 +313,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRISEFALL3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLRISEFALL3METHODS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRISEFALL3METHODS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -695,7 +695,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -703,7 +703,7 @@ int i1, i2, i3, i4;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRISEFALL3METHODS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRISEFALL3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
index 91600a0..f371094 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
@@ -300,12 +300,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSEPARATINGLINES_Lookback();
 /* Generated */    #ifndef TA_CDLSEPARATINGLINES_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSEPARATINGLINES_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSEPARATINGLINES_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -672,7 +672,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,7 +680,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSEPARATINGLINES_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSEPARATINGLINES_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSEPARATINGLINES_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index c1974d0..8bcd38e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -296,12 +296,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHOOTINGSTAR_Lookback();
 /* Generated */    #ifndef TA_CDLSHOOTINGSTAR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHOOTINGSTAR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -656,7 +656,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -664,7 +664,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHOOTINGSTAR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHOOTINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index 54385c3..c9a548b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -275,12 +275,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHORTLINE_Lookback();
 /* Generated */    #ifndef TA_CDLSHORTLINE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHORTLINE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHORTLINE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -616,7 +616,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -624,7 +624,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHORTLINE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHORTLINE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHORTLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index 8829cac..2dac03a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -267,12 +267,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSPINNINGTOP_Lookback();
 /* Generated */    #ifndef TA_CDLSPINNINGTOP_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSPINNINGTOP_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSPINNINGTOP_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -591,7 +591,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -599,7 +599,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSPINNINGTOP_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSPINNINGTOP_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSPINNINGTOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 3b5a4ce..15b5eb8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -331,12 +331,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTALLEDPATTERN_Lookback();
 /* Generated */    #ifndef TA_CDLSTALLEDPATTERN_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTALLEDPATTERN_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -730,7 +730,7 @@ int i1, i2, i3;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -738,7 +738,7 @@ int i1, i2, i3;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTALLEDPATTERN_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTALLEDPATTERN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal1,sizeof(STATE_P.BodyLongPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
index c6b80bf..4b84ebb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
@@ -273,12 +273,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTICKSANDWICH_Lookback();
 /* Generated */    #ifndef TA_CDLSTICKSANDWICH_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTICKSANDWICH_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTICKSANDWICH_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -604,7 +604,7 @@ int i1, i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -612,7 +612,7 @@ int i1, i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTICKSANDWICH_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTICKSANDWICH_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTICKSANDWICH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
index 34f5410..b26f378 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
@@ -296,12 +296,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTAKURI_Lookback();
 /* Generated */    #ifndef TA_CDLTAKURI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTAKURI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTAKURI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -653,7 +653,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -661,7 +661,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTAKURI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTAKURI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTAKURI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
index 3253df0..18e0b37 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
@@ -290,12 +290,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTASUKIGAP_Lookback();
 /* Generated */    #ifndef TA_CDLTASUKIGAP_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTASUKIGAP_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTASUKIGAP_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -636,7 +636,7 @@ int i1, i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,7 +644,7 @@ int i1, i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTASUKIGAP_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTASUKIGAP_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTASUKIGAP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
index c545320..5660b7f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
@@ -289,12 +289,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTHRUSTING_Lookback();
 /* Generated */    #ifndef TA_CDLTHRUSTING_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTHRUSTING_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTHRUSTING_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -636,7 +636,7 @@ int i1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,7 +644,7 @@ int i1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTHRUSTING_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTHRUSTING_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTHRUSTING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 1ecf297..33eccb8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -287,12 +287,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTRISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLTRISTAR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTRISTAR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTRISTAR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -627,7 +627,7 @@ int i1, i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -635,7 +635,7 @@ int i1, i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTRISTAR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTRISTAR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTRISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index d45dfb5..f0cd102 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -287,12 +287,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUNIQUE3RIVER_Lookback();
 /* Generated */    #ifndef TA_CDLUNIQUE3RIVER_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUNIQUE3RIVER_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,7 +637,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,7 +645,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUNIQUE3RIVER_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUNIQUE3RIVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index fa80293..dd2403a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -290,12 +290,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUPSIDEGAP2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLUPSIDEGAP2CROWS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -640,7 +640,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -648,7 +648,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
index 4ef4bf8..694a6af 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
@@ -271,12 +271,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLXSIDEGAP3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLXSIDEGAP3METHODS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -580,7 +580,7 @@ int i1,i2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -588,7 +588,7 @@ int i1,i2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLXSIDEGAP3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CEIL.c b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
index 26b69a8..165f316 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CEIL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CEIL_Lookback();
 /* Generated */    #ifndef TA_CEIL_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CEIL_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CEIL_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CEIL_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CEIL_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CEIL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CMO.c b/ta-lib-rt/c/src/ta_func/ta_CMO.c
index 426b769..05835af 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CMO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CMO.c
@@ -447,13 +447,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CMO_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CMO_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CMO_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CMO_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -768,7 +768,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -776,7 +776,7 @@ double tempValue1, tempValue2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CMO_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CMO_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CMO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index daef286..658a5f6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -314,13 +314,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CORREL_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CORREL_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CORREL_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CORREL_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -636,7 +636,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,7 +644,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CORREL_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CORREL_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CORREL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_COS.c b/ta-lib-rt/c/src/ta_func/ta_COS.c
index 0449fc0..ac03235 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COS.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COS_Lookback();
 /* Generated */    #ifndef TA_COS_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COS_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COS_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COS_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COS_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_COSH.c b/ta-lib-rt/c/src/ta_func/ta_COSH.c
index a55af67..faefbdb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COSH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COSH.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COSH_Lookback();
 /* Generated */    #ifndef TA_COSH_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COSH_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COSH_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -464,7 +464,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -472,7 +472,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COSH_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COSH_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COSH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 7e01523..75dd635 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -374,13 +374,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DEMA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DEMA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DEMA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -667,7 +667,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -675,7 +675,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DEMA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DEMA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_DIV.c b/ta-lib-rt/c/src/ta_func/ta_DIV.c
index cc3a702..6b64541 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DIV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DIV.c
@@ -212,12 +212,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_DIV_Lookback();
 /* Generated */    #ifndef TA_DIV_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DIV_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DIV_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -478,7 +478,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -486,7 +486,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DIV_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DIV_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DIV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DX.c b/ta-lib-rt/c/src/ta_func/ta_DX.c
index f63be0a..95aaa70 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DX.c
@@ -521,13 +521,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DX_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DX_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DX_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -884,7 +884,7 @@ double minusDI, plusDI;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -892,7 +892,7 @@ double minusDI, plusDI;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DX_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DX_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 1e9b0da..a276309 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -390,13 +390,13 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_EMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_EMA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EMA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EMA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -436,7 +436,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
     else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
-    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -742,7 +742,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -750,7 +750,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EMA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EMA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EXP.c b/ta-lib-rt/c/src/ta_func/ta_EXP.c
index bf74448..1b6cc5c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EXP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EXP.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_EXP_Lookback();
 /* Generated */    #ifndef TA_EXP_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EXP_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EXP_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EXP_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EXP_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EXP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
index 8c2137f..707d5c2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_FLOOR_Lookback();
 /* Generated */    #ifndef TA_FLOOR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_FLOOR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_FLOOR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_FLOOR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_FLOOR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_FLOOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index a3788a5..2ac40d4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -405,12 +405,12 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPERIOD_Lookback();
 /* Generated */    #ifndef TA_HT_DCPERIOD_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPERIOD_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPERIOD_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -836,7 +836,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -844,7 +844,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPERIOD_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPERIOD_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPERIOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 4da4838..216b22f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -489,12 +489,12 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPHASE_Lookback();
 /* Generated */    #ifndef TA_HT_DCPHASE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPHASE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPHASE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -983,7 +983,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -991,7 +991,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPHASE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPHASE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPHASE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index f382ef1..63a9ef4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -422,12 +422,12 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_PHASOR_Lookback();
 /* Generated */    #ifndef TA_HT_PHASOR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_PHASOR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_PHASOR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -875,7 +875,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -883,7 +883,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_PHASOR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_PHASOR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_PHASOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index cf611cf..4d77f4a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -497,12 +497,12 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_SINE)
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_SINE_Lookback();
 /* Generated */    #ifndef TA_HT_SINE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_SINE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_SINE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1012,7 +1012,7 @@ else {
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1020,7 +1020,7 @@ else {
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_SINE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_SINE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_SINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index db9fc2c..5e41f99 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -470,12 +470,12 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDLINE)
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDLINE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDLINE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDLINE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDLINE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -945,7 +945,7 @@ else {
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -953,7 +953,7 @@ else {
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDLINE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDLINE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 2e8959c..1afe630 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -558,12 +558,12 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDMODE)
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDMODE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDMODE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDMODE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDMODE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1128,7 +1128,7 @@ double sine, leadSine;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1136,7 +1136,7 @@ double sine, leadSine;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDMODE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDMODE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDMODE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 469d2a2..d4b1e95 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -267,13 +267,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_IMI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_IMI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_IMI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_IMI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -579,7 +579,7 @@ double tempClose, tempOpen;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -587,7 +587,7 @@ double tempClose, tempOpen;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_IMI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_IMI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_IMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 315b8ab..b71b031 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -390,13 +390,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_KAMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_KAMA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_KAMA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_KAMA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -720,7 +720,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -728,7 +728,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_KAMA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_KAMA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_KAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index df782e7..e1cb0ee 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -288,13 +288,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -591,7 +591,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -599,7 +599,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index 578eaf3..321a88b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -289,13 +289,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_ANGLE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_ANGLE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_ANGLE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_ANGLE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -591,7 +591,7 @@ double m, tempReal;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -599,7 +599,7 @@ double m, tempReal;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_ANGLE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_ANGLE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_ANGLE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 25ecdbb..b137d5c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -287,13 +287,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_INTERCEPT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_INTERCEPT_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_INTERCEPT_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -590,7 +590,7 @@ double m, tempReal;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -598,7 +598,7 @@ double m, tempReal;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_INTERCEPT_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_INTERCEPT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 703e78b..1def781 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -285,13 +285,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_SLOPE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SLOPE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_SLOPE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_SLOPE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -586,7 +586,7 @@ double tempReal;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -594,7 +594,7 @@ double tempReal;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_SLOPE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_SLOPE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_SLOPE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LN.c b/ta-lib-rt/c/src/ta_func/ta_LN.c
index c21090f..1ec9dc8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LN.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LN_Lookback();
 /* Generated */    #ifndef TA_LN_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LN_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LN_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LN_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LN_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_LOG10.c b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
index 1ce5358..a36a6c2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LOG10.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LOG10_Lookback();
 /* Generated */    #ifndef TA_LOG10_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LOG10_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LOG10_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LOG10_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LOG10_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LOG10_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 7e04646..1ebe398 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -387,14 +387,14 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MA_Lookback(optInTimePeriod, optInMAType );
 /* Generated */    #ifndef TA_MA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -866,7 +866,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -874,7 +874,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index c386b82..87735d0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -585,7 +585,7 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */    else if( ((int)optInSignalPeriod < 1) || ((int)optInSignalPeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -593,7 +593,7 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */    MEM_SIZE_P = TA_MACD_Lookback(optInFastPeriod, optInSlowPeriod, optInSignalPeriod );
 /* Generated */    #ifndef TA_MACD_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACD_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACD_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -694,7 +694,7 @@ k2 = (double)0.15; /* Fix 12 */
     else if( ((int)optInSignalPeriod < 1) || ((int)optInSignalPeriod > 100000) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
-    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -1061,7 +1061,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1069,7 +1069,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACD_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACD_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 5fcb6dc..b8122fb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -544,7 +544,7 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInFastMAType = optInFastMAType;
@@ -555,7 +555,7 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */    MEM_SIZE_P = TA_MACDEXT_Lookback(optInFastPeriod, optInFastMAType, optInSlowPeriod, optInSlowMAType, optInSignalPeriod, optInSignalMAType );
 /* Generated */    #ifndef TA_MACDEXT_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDEXT_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDEXT_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -934,7 +934,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -942,7 +942,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDEXT_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDEXT_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDEXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 9f6ac53..211f2d5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -259,13 +259,13 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    else if( ((int)optInSignalPeriod < 1) || ((int)optInSignalPeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACDFIX_Lookback(optInSignalPeriod );
 /* Generated */    #ifndef TA_MACDFIX_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDFIX_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDFIX_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -555,7 +555,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -563,7 +563,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDFIX_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDFIX_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDFIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInSignalPeriod,sizeof(STATE_P.optInSignalPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 21652e4..aa99991 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -534,14 +534,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    else if( (optInSlowLimit < 1.000000e-2) ||/* Generated */  (optInSlowLimit > 9.900000e-1) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastLimit = optInFastLimit;
 /* Generated */    STATE_P.optInSlowLimit = optInSlowLimit;
 /* Generated */    MEM_SIZE_P = TA_MAMA_Lookback(optInFastLimit, optInSlowLimit );
 /* Generated */    #ifndef TA_MAMA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAMA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAMA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1033,7 +1033,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1041,7 +1041,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAMA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAMA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastLimit,sizeof(STATE_P.optInFastLimit),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 50e5ddd..5ed5084 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -403,7 +403,7 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInMinPeriod = optInMinPeriod;
 /* Generated */    STATE_P.optInMaxPeriod = optInMaxPeriod;
@@ -411,7 +411,7 @@
 /* Generated */    MEM_SIZE_P = TA_MAVP_Lookback(optInMinPeriod, optInMaxPeriod, optInMAType );
 /* Generated */    #ifndef TA_MAVP_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAVP_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAVP_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -689,7 +689,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,7 +697,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAVP_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAVP_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAVP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInMinPeriod,sizeof(STATE_P.optInMinPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAX.c b/ta-lib-rt/c/src/ta_func/ta_MAX.c
index dfab3ff..4db5560 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAX.c
@@ -297,13 +297,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAX_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAX_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAX_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -597,7 +597,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -605,7 +605,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAX_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAX_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index 8224f8d..5328479 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -291,13 +291,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAXINDEX_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAXINDEX_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAXINDEX_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -602,7 +602,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -610,7 +610,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAXINDEX_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAXINDEX_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
index bdd4ed2..2aa0085 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
@@ -220,12 +220,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MEDPRICE_Lookback();
 /* Generated */    #ifndef TA_MEDPRICE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MEDPRICE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MEDPRICE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -487,7 +487,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -495,7 +495,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MEDPRICE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MEDPRICE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MEDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index d23d1c1..fa28f13 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -418,13 +418,13 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MFI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MFI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MFI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MFI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -762,7 +762,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -770,7 +770,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MFI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MFI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MFI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
index 7d548f1..d998f64 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
@@ -285,13 +285,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPOINT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPOINT_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPOINT_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPOINT_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -559,7 +559,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -567,7 +567,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPOINT_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPOINT_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPOINT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
index 37855d4..52715c6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
@@ -291,13 +291,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPRICE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPRICE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPRICE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPRICE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -577,7 +577,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -585,7 +585,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPRICE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPRICE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIN.c b/ta-lib-rt/c/src/ta_func/ta_MIN.c
index 98df43f..c9a8ece 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIN.c
@@ -298,13 +298,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIN_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIN_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIN_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIN_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -598,7 +598,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -606,7 +606,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIN_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIN_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 171ed0a..4901385 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -291,13 +291,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MININDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MININDEX_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MININDEX_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MININDEX_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -604,7 +604,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -612,7 +612,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MININDEX_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MININDEX_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MININDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
index 8c9e157..6f35c48 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
@@ -323,13 +323,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAX_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAX_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAX_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -662,7 +662,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -670,7 +670,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAX_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAX_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 8a19912..25a73b9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -323,13 +323,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAXINDEX_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAXINDEX_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAXINDEX_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -686,7 +686,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -694,7 +694,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAXINDEX_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAXINDEX_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
index 38a5da0..ae04f6e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
@@ -528,13 +528,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -892,7 +892,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -900,7 +900,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
index de16fc5..263f928 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
@@ -441,13 +441,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DM_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DM_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DM_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -774,7 +774,7 @@ double diffP, diffM;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -782,7 +782,7 @@ double diffP, diffM;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DM_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DM_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MOM.c b/ta-lib-rt/c/src/ta_func/ta_MOM.c
index 98e47f1..6e12c98 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MOM.c
@@ -289,13 +289,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MOM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MOM_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MOM_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MOM_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -552,7 +552,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -560,7 +560,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MOM_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MOM_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MULT.c b/ta-lib-rt/c/src/ta_func/ta_MULT.c
index 03f7be4..2569cda 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MULT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MULT.c
@@ -212,12 +212,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MULT_Lookback();
 /* Generated */    #ifndef TA_MULT_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MULT_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MULT_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -478,7 +478,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -486,7 +486,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MULT_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MULT_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MULT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index e78f9bb..77bcdc0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -384,13 +384,13 @@ TA_RetCode retCode;
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_NATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_NATR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NATR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NATR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -730,7 +730,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -738,7 +738,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NATR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NATR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_NVI.c b/ta-lib-rt/c/src/ta_func/ta_NVI.c
index d38e01b..32b99e4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NVI.c
@@ -226,12 +226,12 @@ int outIdx;
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_NVI_Lookback();
 /* Generated */    #ifndef TA_NVI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NVI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NVI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -504,7 +504,7 @@ int outIdx;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -512,7 +512,7 @@ int outIdx;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NVI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NVI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevNVI,sizeof(STATE_P.prevNVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_OBV.c b/ta-lib-rt/c/src/ta_func/ta_OBV.c
index 8ee6a25..86fa668 100644
--- a/ta-lib-rt/c/src/ta_func/ta_OBV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_OBV.c
@@ -224,12 +224,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_OBV_Lookback();
 /* Generated */    #ifndef TA_OBV_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_OBV_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_OBV_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -510,7 +510,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -518,7 +518,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_OBV_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_OBV_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_OBV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevOBV,sizeof(STATE_P.prevOBV),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
index 5323dca..819eba9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
@@ -528,13 +528,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -893,7 +893,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -901,7 +901,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
index 44c5747..b4b8645 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
@@ -442,13 +442,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DM_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DM_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DM_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -774,7 +774,7 @@ double diffP, diffM;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -782,7 +782,7 @@ double diffP, diffM;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DM_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DM_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PPO.c b/ta-lib-rt/c/src/ta_func/ta_PPO.c
index d335e08..e045cd6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PPO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PPO.c
@@ -305,7 +305,7 @@ return FUNCTION_CALL_STATE_INIT(INT_PO)((struct TA_APO_State**)_state, optInFast
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -313,7 +313,7 @@ return FUNCTION_CALL_STATE_INIT(INT_PO)((struct TA_APO_State**)_state, optInFast
 /* Generated */    MEM_SIZE_P = TA_PPO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_PPO_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PPO_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PPO_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -576,7 +576,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -584,7 +584,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PPO_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PPO_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PPO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVI.c b/ta-lib-rt/c/src/ta_func/ta_PVI.c
index d16edb7..48b775c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVI.c
@@ -228,12 +228,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVI_Lookback();
 /* Generated */    #ifndef TA_PVI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -505,7 +505,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -513,7 +513,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVI,sizeof(STATE_P.prevPVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVT.c b/ta-lib-rt/c/src/ta_func/ta_PVT.c
index c727701..1f2a364 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVT.c
@@ -223,12 +223,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVT_Lookback();
 /* Generated */    #ifndef TA_PVT_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVT_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVT_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -497,7 +497,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -505,7 +505,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVT_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVT_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVT,sizeof(STATE_P.prevPVT),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROC.c b/ta-lib-rt/c/src/ta_func/ta_ROC.c
index 20177b1..4718a46 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROC.c
@@ -292,13 +292,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROC_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROC_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROC_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -556,7 +556,7 @@ double tempReal;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -564,7 +564,7 @@ double tempReal;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROC_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROC_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCP.c b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
index 2b0600a..2bb8ca3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
@@ -293,13 +293,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCP_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCP_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCP_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCP_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -556,7 +556,7 @@ double tempReal;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -564,7 +564,7 @@ double tempReal;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCP_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCP_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR.c b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
index a409468..00b38a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
@@ -294,13 +294,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -557,7 +557,7 @@ double tempReal;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,7 +565,7 @@ double tempReal;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
index f82d58c..a770860 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
@@ -293,13 +293,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR100_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR100_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR100_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR100_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -556,7 +556,7 @@ double tempReal;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -564,7 +564,7 @@ double tempReal;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR100_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR100_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR100_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_RSI.c b/ta-lib-rt/c/src/ta_func/ta_RSI.c
index 09fcaf5..76de0e8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_RSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_RSI.c
@@ -452,13 +452,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_RSI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_RSI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_RSI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_RSI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -771,7 +771,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -779,7 +779,7 @@ double tempValue1, tempValue2;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_RSI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_RSI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_RSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index 21cd96a..8dd676b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -540,14 +540,14 @@ TA_RetCode retCode;
 /* Generated */    else if( (optInMaximum < 0.000000e+0) ||/* Generated */  (optInMaximum > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInAcceleration = optInAcceleration;
 /* Generated */    STATE_P.optInMaximum = optInMaximum;
 /* Generated */    MEM_SIZE_P = TA_SAR_Lookback(optInAcceleration, optInMaximum );
 /* Generated */    #ifndef TA_SAR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1010,7 +1010,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1018,7 +1018,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInAcceleration,sizeof(STATE_P.optInAcceleration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index a5856a2..305ac61 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -785,7 +785,7 @@
 /* Generated */    else if( (optInAccelerationMaxShort < 0.000000e+0) ||/* Generated */  (optInAccelerationMaxShort > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInStartValue = optInStartValue;
 /* Generated */    STATE_P.optInOffsetOnReverse = optInOffsetOnReverse;
@@ -798,7 +798,7 @@
 /* Generated */    MEM_SIZE_P = TA_SAREXT_Lookback(optInStartValue, optInOffsetOnReverse, optInAccelerationInitLong, optInAccelerationLong, optInAccelerationMaxLong, optInAccelerationInitShort, optInAccelerationShort, optInAccelerationMaxShort );
 /* Generated */    #ifndef TA_SAREXT_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAREXT_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAREXT_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1316,7 +1316,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1324,7 +1324,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAREXT_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAREXT_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAREXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInStartValue,sizeof(STATE_P.optInStartValue),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SIN.c b/ta-lib-rt/c/src/ta_func/ta_SIN.c
index f58ef85..32ddde3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SIN.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SIN_Lookback();
 /* Generated */    #ifndef TA_SIN_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SIN_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SIN_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SIN_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SIN_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SINH.c b/ta-lib-rt/c/src/ta_func/ta_SINH.c
index eb1dafb..e656f8c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SINH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SINH.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SINH_Lookback();
 /* Generated */    #ifndef TA_SINH_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SINH_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SINH_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SINH_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SINH_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SINH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index 768a6b0..bea01d0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -319,13 +319,13 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SMA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SMA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SMA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -600,7 +600,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -608,7 +608,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SMA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SMA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SQRT.c b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
index 7059f9d..3a62da1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SQRT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SQRT_Lookback();
 /* Generated */    #ifndef TA_SQRT_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SQRT_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SQRT_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SQRT_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SQRT_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SQRT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 8345d65..023551e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -386,14 +386,14 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /* Generated */    else if( (optInNbDev < -3.000000e+37) ||/* Generated */  (optInNbDev > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_STDDEV_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_STDDEV_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STDDEV_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STDDEV_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -684,7 +684,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -692,7 +692,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STDDEV_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STDDEV_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STDDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index f7291e4..3cfc922 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -622,7 +622,7 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInSlowK_Period = optInSlowK_Period;
@@ -632,7 +632,7 @@
 /* Generated */    MEM_SIZE_P = TA_STOCH_Lookback(optInFastK_Period, optInSlowK_Period, optInSlowK_MAType, optInSlowD_Period, optInSlowD_MAType );
 /* Generated */    #ifndef TA_STOCH_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -643,7 +643,7 @@
    /* insert state init code here. */
    MEM_SIZE_P = (optInFastK_Period - 1);
  if (MEM_SIZE_P > 0)
-     MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
+     { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
  else MEM_P = NULL;
 
    retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInSlowK_Period, optInSlowK_MAType );
@@ -1028,7 +1028,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1036,7 +1036,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCH_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCH_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 01a2a9f..1d93a3e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -548,7 +548,7 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInFastD_Period = optInFastD_Period;
@@ -556,7 +556,7 @@ TA_RetCode retCode;
 /* Generated */    MEM_SIZE_P = TA_STOCHF_Lookback(optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHF_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -567,7 +567,7 @@ TA_RetCode retCode;
    /* insert state init code here. */
         MEM_SIZE_P = (optInFastK_Period - 1);
       if (MEM_SIZE_P > 0)
-          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
+          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
       else MEM_P = NULL;
 
         retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInFastD_Period, optInFastD_MAType );
@@ -957,7 +957,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -965,7 +965,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHF_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHF_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 43e6829..453bf6d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -430,7 +430,7 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
@@ -439,7 +439,7 @@ TA_RetCode retCode;
 /* Generated */    MEM_SIZE_P = TA_STOCHRSI_Lookback(optInTimePeriod, optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHRSI_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHRSI_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHRSI_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -736,7 +736,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -744,7 +744,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHRSI_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHRSI_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHRSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUB.c b/ta-lib-rt/c/src/ta_func/ta_SUB.c
index c2a437b..62c474d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUB.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUB.c
@@ -213,12 +213,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SUB_Lookback();
 /* Generated */    #ifndef TA_SUB_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUB_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUB_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -479,7 +479,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,7 +487,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUB_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUB_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUB_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index f8c4179..6fa9f3a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -277,13 +277,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SUM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SUM_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUM_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUM_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -560,7 +560,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -568,7 +568,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUM_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUM_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index 7a200c9..49dadeb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -400,14 +400,14 @@
 /* Generated */    else if( (optInVFactor < 0.000000e+0) ||/* Generated */  (optInVFactor > 1.000000e+0) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInVFactor = optInVFactor;
 /* Generated */    MEM_SIZE_P = TA_T3_Lookback(optInTimePeriod, optInVFactor );
 /* Generated */    #ifndef TA_T3_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_T3_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_T3_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -808,7 +808,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -816,7 +816,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_T3_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_T3_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_T3_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TAN.c b/ta-lib-rt/c/src/ta_func/ta_TAN.c
index e00631f..1a9e47e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TAN.c
@@ -206,12 +206,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TAN_Lookback();
 /* Generated */    #ifndef TA_TAN_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TAN_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TAN_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -464,7 +464,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -472,7 +472,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TAN_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TAN_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TANH.c b/ta-lib-rt/c/src/ta_func/ta_TANH.c
index a79a452..ecce9ff 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TANH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TANH.c
@@ -207,12 +207,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TANH_Lookback();
 /* Generated */    #ifndef TA_TANH_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TANH_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TANH_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,7 +465,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,7 +473,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TANH_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TANH_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TANH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 4aaf978..1f2510f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -376,13 +376,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TEMA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TEMA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TEMA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -683,7 +683,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,7 +691,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TEMA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TEMA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
index 4f54221..62714eb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
@@ -259,12 +259,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TRANGE_Lookback();
 /* Generated */    #ifndef TA_TRANGE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRANGE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRANGE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -550,7 +550,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -558,7 +558,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRANGE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRANGE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRANGE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index fe66112..4518f7b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -515,13 +515,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIMA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIMA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIMA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -866,7 +866,7 @@ double tempReal;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -874,7 +874,7 @@ double tempReal;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIMA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIMA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 081b65d..a82febb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -343,13 +343,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIX_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIX_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIX_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -644,7 +644,7 @@ TA_RetCode retCode;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -652,7 +652,7 @@ TA_RetCode retCode;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIX_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIX_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index 00af634..1cb8cea 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -288,13 +288,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TSF_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TSF_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TSF_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TSF_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -591,7 +591,7 @@ double m, b, tempReal;
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -599,7 +599,7 @@ double m, b, tempReal;
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TSF_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TSF_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TSF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
index 9f89a75..b0f3331 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
@@ -222,12 +222,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TYPPRICE_Lookback();
 /* Generated */    #ifndef TA_TYPPRICE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TYPPRICE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TYPPRICE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -497,7 +497,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -505,7 +505,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TYPPRICE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TYPPRICE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TYPPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index e7a3bbf..5e46b31 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -462,7 +462,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    else if( ((int)optInTimePeriod3 < 1) || ((int)optInTimePeriod3 > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod1 = optInTimePeriod1;
 /* Generated */    STATE_P.optInTimePeriod2 = optInTimePeriod2;
@@ -470,7 +470,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    MEM_SIZE_P = TA_ULTOSC_Lookback(optInTimePeriod1, optInTimePeriod2, optInTimePeriod3 );
 /* Generated */    #ifndef TA_ULTOSC_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ULTOSC_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ULTOSC_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -845,7 +845,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -853,7 +853,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ULTOSC_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ULTOSC_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ULTOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod1,sizeof(STATE_P.optInTimePeriod1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index ccfe33b..f85ce58 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -374,14 +374,14 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    else if( (optInNbDev < -3.000000e+37) ||/* Generated */  (optInNbDev > 3.000000e+37) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_VAR_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_VAR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_VAR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_VAR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -671,7 +671,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -679,7 +679,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_VAR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_VAR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_VAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
index 49726a7..b728975 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
@@ -221,12 +221,12 @@
 /* Generated */ 
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_WCLPRICE_Lookback();
 /* Generated */    #ifndef TA_WCLPRICE_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WCLPRICE_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WCLPRICE_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -496,7 +496,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -504,7 +504,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WCLPRICE_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WCLPRICE_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WCLPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_WILLR.c b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
index 1f9d893..0d8f9d6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WILLR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
@@ -340,13 +340,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 2) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WILLR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WILLR_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WILLR_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WILLR_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -695,7 +695,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -703,7 +703,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WILLR_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WILLR_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WILLR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 3eed354..0b1d7f3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -387,13 +387,13 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WLMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WLMA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WLMA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WLMA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -433,7 +433,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
     else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
-    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -739,7 +739,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -747,7 +747,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WLMA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WLMA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WLMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index e31e101..0032152 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -343,13 +343,13 @@
 /* Generated */    else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WMA_SUPPRESS_MEMORY_ALLOCATION
 /* Generated */    if (MEM_SIZE_P > 0)
-/* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WMA_Data));
+/* Generated */          { MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WMA_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -639,7 +639,7 @@
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
-/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,7 +647,7 @@
 /* Generated */    int memory_allocated;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
-/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WMA_Data));
+/* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WMA_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 9def3fd..baa6794 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -1837,7 +1837,7 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);\n");
                    printIndent( out, indent );
-                   fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
+                   fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n", funcName);
                    printIndent( out, indent );
                    fprintf( out, "io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);\n");
                    printIndent( out, indent );
@@ -1853,7 +1853,7 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);\n");
                    printIndent( out, indent );
-                   fprintf( out, "if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_%s_Data));\n", funcName);
+                   fprintf( out, "if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_%s_Data)); if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n", funcName);
                    printIndent( out, indent );
                    fprintf( out, "io_res = fread(STATE_P.memory,sizeof(struct TA_%s_Data),STATE_P.mem_size,_file);\n", funcName);
                    printIndent( out, indent );
@@ -2541,7 +2541,7 @@ void printFunc( FILE *out,
 
    if (validationCode && stateInitSignature) {
        printIndent( out, indent);
-       fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
+       fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n", funcName);
        printIndent( out, indent);
        fprintf( out, "STATE_P.mem_index = 0;\n");
 
@@ -2574,7 +2574,7 @@ void printFunc( FILE *out,
        printIndent( out, indent);
        fprintf( out, "if (MEM_SIZE_P > 0)\n");
        printIndent( out, indent+6 );
-       fprintf( out, "MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_%s_Data));\n", funcName);
+       fprintf( out, "{ MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_%s_Data)); if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }\n", funcName);
        printIndent( out, indent );
        fprintf( out, "else\n");
        printIndent( out, indent );
-- 
2.43.0


From 724ba061b2243bdb4561f65f71179b0992497f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 13/17] fix: MACDFIX StateSave/StateLoad must handle the MACD
 state StateInit creates

---
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 211f2d5..2b9758a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -497,6 +497,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
 {
    /* insert local variable here */
+return FUNCTION_CALL_STATE_SAVE(MACD)((struct TA_MACD_State*)_state, _file);
 
 /**** START GENCODE SECTION 12 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -545,6 +546,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /**** END GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+return FUNCTION_CALL_STATE_LOAD(MACD)((struct TA_MACD_State**)_state, _file);
 
 /**** START GENCODE SECTION 14 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
-- 
2.43.0


From ac97a60ac4274ba3edc9c54874e569eb962b2a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 14/17] fix: StateFree accepts a NULL state and a partly built
 one, NATR frees its state for period 1

---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c     | 2 ++
 ta-lib-rt/c/src/ta_func/ta_ADXR.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_APO.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_ATR.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c       | 2 ++
 ta-lib-rt/c/src/ta_func/ta_CCI.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_DEMA.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c  | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c   | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c    | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c      | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MA.c           | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MACD.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c      | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MAMA.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MFI.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_NATR.c         | 8 ++------
 ta-lib-rt/c/src/ta_func/ta_SAR.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c       | 2 ++
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c       | 2 ++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c        | 2 ++
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c       | 2 ++
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c     | 2 ++
 ta-lib-rt/c/src/ta_func/ta_TEMA.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_TRIX.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c       | 2 ++
 29 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 5473bb4..71f87fe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -603,6 +603,8 @@ double tempReal,tempReal1,tempReal2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    TA_RetCode retCode;
    retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.stateSMA1 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index a82e116..eaa53b4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -509,6 +509,8 @@ double tempReal;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 ENUM_DECLARATION(RetCode) retCode;
 retCode = FUNCTION_CALL_STATE_FREE(ADX)((struct TA_ADX_State**)&STATE_P.ADXState);
 if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 2604b32..72b160a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -705,6 +705,8 @@ int res1, res2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
      int res = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.fastMAState);
      if (res != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return res;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 331ba55..d89744e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -589,6 +589,8 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
         TA_RetCode retCode;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 447b275..57f83a8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -741,6 +741,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index 4392f1b..2fe61eb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -554,6 +554,8 @@ double lastValue, sum, theAverage;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
   FREE_CIRCBUF_STRUCT(CCI, circBuf);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 75dd635..9c60a0c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -558,6 +558,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index 2ac40d4..6bd5424 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -695,6 +695,8 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
         FREE_HILBERT_VARIABLES_STRUCT(detrender);
         FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 216b22f..86b27f9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -835,6 +835,8 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index 63a9ef4..eb8f8e0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -736,6 +736,8 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index 4d77f4a..6ac0245 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -862,6 +862,8 @@ else {
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index 5e41f99..b848149 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -796,6 +796,8 @@ else {
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 1afe630..365713d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -965,6 +965,8 @@ double sine, leadSine;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 1ebe398..f2e1f50 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -660,6 +660,8 @@ return retValue;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 ENUM_DECLARATION(RetCode) retValue;
 
 if( STATE_P.optInTimePeriod != 1 )
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index 87735d0..2fc7ccc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -943,6 +943,8 @@ k2 = (double)0.15; /* Fix 12 */
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     ENUM_DECLARATION(RetCode) retCode;
     retCode = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.slowEMAState);
     if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index b8122fb..d2017a7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -810,6 +810,8 @@ int tempInteger, tempInteger2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         ENUM_DECLARATION(RetCode) retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.slowMAState);
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index aa99991..2ae71a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -885,6 +885,8 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 5ed5084..d4fef74 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -585,6 +585,8 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    FUNCTION_CALL_STATE_FREE(MA) ((struct TA_MA_State**)&STATE_P.MAState);
 
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index fa28f13..ebf1e4c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -658,6 +658,8 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    FREE_CIRCBUF_STRUCT(MFI, mflow);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 77bcdc0..9e7f086 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -612,12 +612,8 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-        if( STATE_P.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE);
-        }
-
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
 
         retCode = FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index 8dd676b..50ceb8a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -890,6 +890,8 @@ double ep_temp;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 TA_RetCode retCode;
 retCode = FUNCTION_CALL_STATE_FREE(MINUS_DM)( (struct TA_MINUS_DM_State**) &STATE_P.stateMINUS_DM );
 if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index 305ac61..06f9615 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -1179,6 +1179,8 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
  if (STATE_P.optInStartValue == 0)
   {
     TA_RetCode retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 023551e..405343f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -583,6 +583,8 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    FUNCTION_CALL_STATE_FREE(VAR)((struct TA_VAR_State**)&STATE_P.var_state);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 3cfc922..8ff23bf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -906,6 +906,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 1d93a3e..eff0c50 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -843,6 +843,8 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 453bf6d..a917e6c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -623,6 +623,8 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(RSI)( (struct TA_RSI_State**) &STATE_P.stateRSI );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 1f2510f..eaa22b3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -568,6 +568,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
         if (res == ENUM_VALUE(RetCode,TA_SUCCESS,Success))
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index a82febb..0669c4d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -528,6 +528,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(EMA)( (struct TA_EMA_State**) &STATE_P.stateEMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 5e46b31..f663319 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -722,6 +722,8 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    FREE_CIRCBUF_STRUCT(ULTOSC, periodA);
    FREE_CIRCBUF_STRUCT(ULTOSC, periodB);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From d9faa746edd973969561a445b262e0afadf7f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 15/17] fix: APO, PPO, EMA, ULTOSC StateInit order and derive
 options after substituting defaults

---
 ta-lib-rt/c/src/ta_func/ta_APO.c    | 19 +++++++++----------
 ta-lib-rt/c/src/ta_func/ta_EMA.c    |  6 ++++++
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 21 ++++++++++++---------
 3 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 72b160a..4e4b167 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -491,15 +491,6 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 
 int tempInteger;
 TA_RetCode retCode;
-if( optInSlowPeriod < optInFastPeriod )
-{
-    /* swap */
-    tempInteger     = optInSlowPeriod;
-    optInSlowPeriod = optInFastPeriod;
-    optInFastPeriod = tempInteger;
-}
-
-
  #ifndef TA_FUNC_NO_RANGE_CHECK
 
     if (_state == NULL)
@@ -519,10 +510,18 @@ if( optInSlowPeriod < optInFastPeriod )
     #if !defined(_MANAGED) && !defined(_JAVA)
     if( (int)optInMAType == TA_INTEGER_DEFAULT )
        optInMAType = (TA_MAType)0;
-    else if( ((int)optInMAType < 0) || ((int)optInMAType > 8) )
+    else if( ((int)optInMAType < 0) || ((int)optInMAType > 9) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
+    if( optInSlowPeriod < optInFastPeriod )
+    {
+        /* swap */
+        tempInteger     = optInSlowPeriod;
+        optInSlowPeriod = optInFastPeriod;
+        optInFastPeriod = tempInteger;
+    }
+
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State)); if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index a276309..bdc9fc2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -375,6 +375,12 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   /* the default and the range come first: PER_TO_K needs the effective period. */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
+   else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+
    return TA_INT_EMA_StateInit(_state, optInTimePeriod, PER_TO_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index f663319..8eb0472 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -429,15 +429,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
        x = x ^ y; \
     }
 
-   //sort optIns
-    if (optInTimePeriod1 < optInTimePeriod2) {
-        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
-    } else {
-        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
-        else swap(optInTimePeriod1, optInTimePeriod3);
-    }
-    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
-
 /**** START GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -479,6 +470,18 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /**** END GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 
    /* insert state init code here. */
+   //sort the effective optIns (after defaults were substituted)
+    if (optInTimePeriod1 < optInTimePeriod2) {
+        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
+    } else {
+        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
+        else swap(optInTimePeriod1, optInTimePeriod3);
+    }
+    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
+    STATE_P.optInTimePeriod1 = optInTimePeriod1;
+    STATE_P.optInTimePeriod2 = optInTimePeriod2;
+    STATE_P.optInTimePeriod3 = optInTimePeriod3;
+
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodA, double, optInTimePeriod3+1);
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodB, double, optInTimePeriod3+1);
 #undef swap
-- 
2.43.0


From 66ac2a4a50edd0f33a418875c9f7e429edd23830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 16/17] fix: streaming states with a one bar window must not
 access their (empty) memory

---
 ta-lib-rt/c/src/ta_func/ta_BETA.c   | 12 ++++++++----
 ta-lib-rt/c/src/ta_func/ta_CORREL.c | 12 ++++++++----
 ta-lib-rt/c/src/ta_func/ta_SMA.c    |  5 +++--
 ta-lib-rt/c/src/ta_func/ta_STOCH.c  |  7 +++++--
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c |  7 +++++--
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c  |  6 ++++++
 ta-lib-rt/c/src/ta_func/ta_VAR.c    |  5 +++--
 ta-lib-rt/c/src/ta_func/ta_WMA.c    |  5 +++--
 8 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index 88d04c8..7ba32e1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -473,7 +473,8 @@ double x,y,temp;
     return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
   }
 
-  temp = POP_FROM_MEM(inReal0);
+  /* a one bar window keeps no memory: the bar leaving it is the current one */
+  temp = MEM_SIZE > 0 ? POP_FROM_MEM(inReal0) : inReal0;
 
   if( !TA_IS_ZERO(STATE.last_price_x) )
      x = (temp-STATE.last_price_x)/STATE.last_price_x;
@@ -481,7 +482,7 @@ double x,y,temp;
      x = 0.0;
   STATE.last_price_x = temp;
 
-  temp = POP_FROM_MEM(inReal1);
+  temp = MEM_SIZE > 0 ? POP_FROM_MEM(inReal1) : inReal1;
 
   if( !TA_IS_ZERO(STATE.last_price_y) )
      y = (temp-STATE.last_price_y)/STATE.last_price_y;
@@ -503,8 +504,11 @@ double x,y,temp;
   STATE.S_x -= x;
   STATE.S_y -= y;
 
-  PUSH_TO_MEM(inReal0,inReal0);
-  PUSH_TO_MEM(inReal1,inReal1);
+  if (MEM_SIZE > 0)
+  {
+    PUSH_TO_MEM(inReal0,inReal0);
+    PUSH_TO_MEM(inReal1,inReal1);
+  }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index 658a5f6..266c28d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -421,11 +421,15 @@
    else
       VALUE_HANDLE_DEREF(outReal) = 0.0;
 
-   x=POP_FROM_MEM(inReal0);
-   y=POP_FROM_MEM(inReal1);
+   /* a one bar window keeps no memory: the bar leaving it is the current one */
+   x=MEM_SIZE > 0 ? POP_FROM_MEM(inReal0) : inReal0;
+   y=MEM_SIZE > 0 ? POP_FROM_MEM(inReal1) : inReal1;
    ADDDATA(x, y, -1)
-   PUSH_TO_MEM(inReal0, inReal0);
-   PUSH_TO_MEM(inReal1, inReal1);
+   if (MEM_SIZE > 0)
+   {
+      PUSH_TO_MEM(inReal0, inReal0);
+      PUSH_TO_MEM(inReal1, inReal1);
+   }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index bea01d0..994b11b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -400,8 +400,9 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 
   VALUE_HANDLE_DEREF(outReal) = STATE.periodTotal / STATE.optInTimePeriod;
 
-  STATE.periodTotal -= POP_FROM_MEM(inReal);
-  PUSH_TO_MEM(inReal,inReal);
+  /* a one bar window keeps no memory: the bar leaving it is the current one */
+  STATE.periodTotal -= MEM_SIZE > 0 ? POP_FROM_MEM(inReal) : inReal;
+  if (MEM_SIZE > 0) PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 8ff23bf..db7253f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -771,8 +771,11 @@
                             STATE.highest_exp = MEM_SIZE;
                         }
 
-   PUSH_TO_MEM(inHigh,inHigh);
-   PUSH_TO_MEM(inLow,inLow);
+   if (MEM_SIZE > 0)
+   {
+      PUSH_TO_MEM(inHigh,inHigh);
+      PUSH_TO_MEM(inLow,inLow);
+   }
 
    if (NEED_MORE_DATA)
        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index eff0c50..02b182b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -710,8 +710,11 @@ TA_RetCode retCode;
                             STATE.highest_exp = MEM_SIZE;
                         }
 
-   PUSH_TO_MEM(inHigh,inHigh);
-   PUSH_TO_MEM(inLow,inLow);
+   if (MEM_SIZE > 0)
+   {
+      PUSH_TO_MEM(inHigh,inHigh);
+      PUSH_TO_MEM(inLow,inLow);
+   }
 
    if (NEED_MORE_DATA)
        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index 4518f7b..1c69921 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -605,6 +605,12 @@ double tempReal;
     }
 
 
+   if (MEM_SIZE == 0)
+   { // a one bar window keeps no memory: the bar is its own average
+       VALUE_HANDLE_DEREF(outReal) = inReal;
+       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    if (NEED_MORE_DATA)
    { // _cur_idx always < STATE.optInTimePeriod
        if ((int)_cur_idx <= STATE.middleIdx)
diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index f85ce58..d0370c4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -464,11 +464,12 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 
     VALUE_HANDLE_DEREF(outReal) = meanValue2 - meanValue1 * meanValue1;
 
-    tempReal = POP_FROM_MEM(inReal);
+    /* a one bar window keeps no memory: the bar leaving it is the current one */
+    tempReal = MEM_SIZE > 0 ? POP_FROM_MEM(inReal) : inReal;
     STATE.periodTotal1 -= tempReal;
     STATE.periodTotal2 -= tempReal*tempReal;
 
-    PUSH_TO_MEM(inReal,inReal);
+    if (MEM_SIZE > 0) PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 0032152..33d2963 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -435,8 +435,9 @@
     VALUE_HANDLE_DEREF(outReal) = STATE.periodSum / STATE.divider;
 
     STATE.periodSum -= STATE.periodSub;
-    STATE.periodSub -= POP_FROM_MEM(inReal);
-    PUSH_TO_MEM(inReal,inReal);
+    /* a one bar window keeps no memory: the bar leaving it is the current one */
+    STATE.periodSub -= MEM_SIZE > 0 ? POP_FROM_MEM(inReal) : inReal;
+    if (MEM_SIZE > 0) PUSH_TO_MEM(inReal,inReal);
 
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From fd17a1de306782d16503e1dd54ee6781beaa1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 17/17] fix: WLMA StateInit must substitute the default before
 deriving the smoothing factor

---
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 0b1d7f3..82e4ff7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -372,6 +372,12 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   /* the default and the range come first: PER_TO_WILDERS_K needs the effective period. */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
+   else if( ((int)optInTimePeriod < 1) || ((int)optInTimePeriod > 100000) )
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+
    return TA_INT_WLMA_StateInit(_state, optInTimePeriod, PER_TO_WILDERS_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
-- 
2.43.0

