From 87ce5bc7e21e81fd08d5ca0e283ec0d4aaa16f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:18 +0000
Subject: [PATCH 01/40] fix: pass g on in the De Ridder et al. (2024) Eq. 24
 crest freeboard

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index 27560fe..d8a3fdc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -147,6 +147,7 @@ def calculate_crest_freeboard_discharge_q_eq24(
         smm10_HF=smm10_HF,
         gamma_f=gamma_f,
         q=q,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From 9245da3000e1379f262655a438f4f42dc108e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:24 +0000
Subject: [PATCH 02/40] fix: roughness factor for long waves runs in
 gamma_b*ksi up to 1.0 at 10 (TAW 2002, 2.7)

---
 .../functions/hydraulic/wave_runup/taw2002.py                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 952a73b..9ca9042 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -825,8 +825,9 @@ def calculate_adjusted_influence_roughness_gamma_f(
     """
 
     gamma_f_adj = np.where(
-        (gamma_b * ksi_mm10 >= 1.8) & (gamma_b * ksi_mm10 <= 10.0),
-        ((ksi_mm10 - 1.8) * (1 - gamma_f) / (10.0 - 1.8)) + gamma_f,
+        gamma_b * ksi_mm10 >= 1.8,
+        (np.minimum(gamma_b * ksi_mm10, 10.0) - 1.8) * (1 - gamma_f) / (10.0 - 1.8)
+        + gamma_f,
         gamma_f,
     )
 
-- 
2.43.0


From 80a90d8bfa6e81a3e50b88de670c04dcbdf9e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:46 +0000
Subject: [PATCH 03/40] fix: TAW (2002) run-up on a single slope without
 gamma_b no longer raises

---
 .../functions/hydraulic/wave_runup/taw2002.py                    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 9ca9042..cb911f9 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -300,6 +300,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
     if np.isnan(gamma_b):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
+            cot_alpha=cot_alpha,
             cot_alpha_down=cot_alpha_down,
             cot_alpha_up=cot_alpha_up,
             B_berm=B_berm,
-- 
2.43.0


From d715cef958bd024058e68fc321c7e264b6abd934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:51 +0000
Subject: [PATCH 04/40] fix: EurOtop (2018) run-up uses a supplied gamma_beta

---
 .../functions/hydraulic/wave_runup/eurotop2018.py     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index b2caa1e..b4f1899 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -179,10 +179,13 @@ def calculate_dimensionless_wave_runup_height_z2p(
         c1=c1, c2=c2, c3=c3, c4=c4, use_best_fit=use_best_fit
     )
 
-    gamma_beta = calculate_influence_oblique_waves_gamma_beta(
-        beta=beta,
-        gamma_f=gamma_f,
-    )
+    if wave_runup_taw2002.check_calculate_gamma_beta(
+        beta=beta, gamma_beta=gamma_beta
+    ):
+        gamma_beta = calculate_influence_oblique_waves_gamma_beta(
+            beta=beta,
+            gamma_f=gamma_f,
+        )
 
     z2p_diml, max_reached = (
         wave_runup_taw2002.calculate_dimensionless_wave_runup_height_z2p(
-- 
2.43.0


From 92e31ca55d519672c2cceb39deecd6348329a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:10 +0000
Subject: [PATCH 05/40] fix: TAW (2002) overtopping with sigma and design
 coefficients warns and ignores sigma

---
 .../functions/hydraulic/wave_overtopping/taw2002.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 11bf436..ba9daf8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -302,6 +302,8 @@ def calculate_dimensionless_overtopping_discharge_q(
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
         else:
+            cor1 = 0
+            cor3 = 0
             warnings.warn(
                 (
                     "Sigma is only applicable to the best fit coefficients! The design values of the coefficients "
@@ -674,6 +676,8 @@ def calculate_dimensionless_crest_freeboard(
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
         else:
+            cor1 = 0
+            cor3 = 0
             warnings.warn(
                 (
                     "Sigma is only applicable to the best fit coefficients! The design values of the coefficients "
-- 
2.43.0


From 26fdcd3c08fb381e3d8196e296b0a4afbb477c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:16 +0000
Subject: [PATCH 06/40] fix: pass g on to the maximum of the TAW (2002) crest
 freeboard

---
 .../functions/hydraulic/wave_overtopping/taw2002.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index ba9daf8..7133e6a 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -757,7 +757,13 @@ def calculate_dimensionless_crest_freeboard(
     )
 
     Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0, q=q, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
+        Hm0=Hm0,
+        q=q,
+        c3=c3,
+        cor3=cor3,
+        gamma_beta=gamma_beta,
+        gamma_f=gamma_f_adj,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-- 
2.43.0


From 135392c37eeafe4f9686dbcab09b5c2e0491a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:35 +0000
Subject: [PATCH 07/40] fix: EurOtop (2007) rubble mound crest freeboard takes
 g like its discharge does

---
 .../hydraulic/wave_overtopping/eurotop2007.py     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2007.py
index f341d2b..9ebcdf1 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2007.py
@@ -191,6 +191,7 @@ def calculate_crest_freeboard_Rc_rubble_mound(
     c2: float = 0.2,
     c3: float = 2.3,
     use_best_fit: bool = False,
+    g: float = 9.81,
 ) -> float | npt.NDArray[np.float64]:
     """Calculate the crest freeboard Rc for simple rubble mound slopes with the EurOtop (2007) formula.
 
@@ -223,6 +224,8 @@ def calculate_crest_freeboard_Rc_rubble_mound(
         Coefficient in wave overtopping formula (-), by default 2.3
     use_best_fit : bool, optional
         Switch to either use best fit values for the coefficients (true) or the design values (false), by default False
+    g : float, optional
+        Gravitational constant (m/s^2), by default 9.81
 
     Returns
     -------
@@ -241,6 +244,7 @@ def calculate_crest_freeboard_Rc_rubble_mound(
         c2=c2,
         c3=c3,
         use_best_fit=use_best_fit,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
@@ -259,6 +263,7 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
     c2: float = 0.2,
     c3: float = 2.3,
     use_best_fit: bool = False,
+    g: float = 9.81,
 ) -> float | npt.NDArray[np.float64]:
     """Calculate the dimensionless crest freeboard Rc/Hm0 for simple rubble mound slopes with the
     EurOtop (2007) formula.
@@ -292,6 +297,8 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
         Coefficient in wave overtopping formula (-), by default 2.3
     use_best_fit : bool, optional
         Switch to either use best fit values for the coefficients (true) or the design values (false), by default False
+    g : float, optional
+        Gravitational constant (m/s^2), by default 9.81
 
     Returns
     -------
@@ -319,7 +326,13 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
     )
 
     Rc_diml = wave_overtopping_taw2002.Rc_diml_max_equation(
-        Hm0=Hm0, q=q, c2=c2, c3=c3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
+        Hm0=Hm0,
+        q=q,
+        c2=c2,
+        c3=c3,
+        gamma_beta=gamma_beta,
+        gamma_f=gamma_f_adj,
+        g=g,
     )
 
     return Rc_diml
-- 
2.43.0


From df69b0f3101f5dee659452fadbf546e038e5ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:45 +0000
Subject: [PATCH 08/40] fix: EurOtop (2018) crest freeboard passes use_best_fit
 to the average slope like the discharge

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 1a0efa3..a3f5245 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -663,6 +663,7 @@ def calculate_dimensionless_crest_freeboard(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
@@ -1179,6 +1180,7 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
-- 
2.43.0


From b16c80b2d4cd4ffc7bb25efec9c0e5201f5c093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:09 +0000
Subject: [PATCH 09/40] fix: EurOtop (2018) maximum discharge uses the adjusted
 gamma_f like the crest freeboard

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index a3f5245..91de11e 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -306,7 +306,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0,
         Rc=Rc,
         gamma_beta=gamma_beta,
-        gamma_f=gamma_f,
+        gamma_f=gamma_f_adj,
         gamma_star=gamma_star,
         c2=c2,
         c3=c3,
-- 
2.43.0


From 6ddf396672f9f46dc007a62bcc0c82359b316767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:16 +0000
Subject: [PATCH 10/40] fix: EurOtop (2018) overtopping uses a supplied gamma_b

---
 .../hydraulic/wave_overtopping/eurotop2018.py | 70 ++++++++++---------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 91de11e..984c75d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,24 +265,25 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
@@ -679,24 +680,25 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
-- 
2.43.0


From bb1e0592fdae9c66fbe4c9ed4184528d63aca2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:25 +0000
Subject: [PATCH 11/40] fix: Van Gent (2021) without crossing seas needs no
 swell wave height

---
 .../functions/hydraulic/wave_overtopping/vangent2021_caisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index a7315c2..48e6ebc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -201,6 +201,7 @@ def calculate_dimensionless_overtopping_discharge_q(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
@@ -400,6 +401,7 @@ def calculate_dimensionless_crest_freeboard(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
-- 
2.43.0


From 312a048cc4cb6b2c8e65d7aa0ea2198f430fad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:15 +0000
Subject: [PATCH 12/40] fix: Van Gent et al. (2025) validity check monitors Gc,
 B_berm and db themselves

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 307cbb6..b34026b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -135,12 +135,12 @@ def check_validity_range(
         core_utility.check_variable_validity_range(
             "Non-dimensional armour width in front of crest wall Gc / Hm0",
             "Van Gent et al. (2025)",
-            Rc / Hm0,
+            Gc / Hm0,
             0.6,
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B_berm)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm width B / Hm0",
             "Van Gent et al. (2025)",
@@ -149,7 +149,7 @@ def check_validity_range(
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(db)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm height db / Hm0",
             "Van Gent et al. (2025)",
-- 
2.43.0


From 443cc2258935240f897c6b0278f317773b6e980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:21 +0000
Subject: [PATCH 13/40] fix: Van Gent et al. (2025) maximum crest freeboard
 accounts for the design exponent and g

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index b34026b..4a2d539 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -919,13 +919,14 @@ def calculate_dimensionless_crest_freeboard(
     Rc_diml_max = Rc_diml_max_equation(
         Hm0=Hm0,
         Hm0_swell=Hm0_swell,
-        q=q,
+        q=q_diml * np.sqrt(g * Hm0**3),
         cot_alpha=cot_alpha,
         ksi_mm10=ksi_mm10,
         gamma_f=gamma_f,
         gamma_b=gamma_b,
         gamma_v=gamma_v,
         gamma_beta=gamma_beta,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
-- 
2.43.0


From 8cc9f5612b6241130638f1a1ef9bb41fff639eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:28 +0000
Subject: [PATCH 14/40] fix: Van Gent et al. (2025) crest freeboard takes g
 like the discharge

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 4a2d539..505c0fc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -693,6 +693,7 @@ def calculate_crest_freeboard_Rc(
     gamma_beta: float | npt.NDArray[np.float64] = np.nan,
     design_calculation: bool = True,
     include_influence_wind: bool = False,
+    g: float = 9.81,
 ) -> tuple[float | npt.NDArray[np.float64], bool | npt.NDArray[np.bool]]:
     """Calculate the crest freeboard Rc with the Van Gent et al. (2025) formula.
 
@@ -735,6 +736,8 @@ def calculate_crest_freeboard_Rc(
         Use the 95% confidence level for design calculations, by default True
     include_influence_wind : bool, optional
         Include influence of wind on wave overtopping, by default False
+    g : float, optional
+        Gravitational constant (m/s^2), by default 9.81
 
     Returns
     -------
@@ -760,6 +763,7 @@ def calculate_crest_freeboard_Rc(
         gamma_beta=gamma_beta,
         design_calculation=design_calculation,
         include_influence_wind=include_influence_wind,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From 932ed9f5593731653185c7d29b39d6454ebadf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:35 +0000
Subject: [PATCH 15/40] fix: Van Gent et al. (2025) discharge derives gamma_v
 when it is not supplied

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 505c0fc..a9b3738 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -354,6 +354,11 @@ def calculate_dimensionless_overtopping_discharge_q(
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
 
+    if np.isnan(gamma_v):
+        gamma_v = calculate_influence_crest_wall_gamma_v(
+            cot_alpha=cot_alpha, Rc=Rc, Ac=Ac
+        )
+
     q_diml_eqB1 = (
         6.8
         * np.power(cot_alpha, -1.0)
-- 
2.43.0


From f9ed6dffd6893adce96be684bdad56161fd51649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:41 +0000
Subject: [PATCH 16/40] fix: De Ridder et al. (2024, 2026) discharges check the
 short wave steepness

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py      | 4 ++++
 .../functions/hydraulic/wave_overtopping/deridder2026.py      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index d8a3fdc..0232024 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -198,6 +198,7 @@ def calculate_crest_freeboard_discharge_q_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
@@ -246,6 +247,7 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc_diml * Hm0,
     )
@@ -369,6 +371,7 @@ def calculate_dimensionless_overtopping_discharge_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
     )
@@ -414,6 +417,7 @@ def calculate_dimensionless_overtopping_discharge_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index b1086c8..806b2c3 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -351,6 +351,7 @@ def calculate_dimensionless_overtopping_discharge_eq28(
     )
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         theta=theta,
@@ -420,6 +421,7 @@ def calculate_dimensionless_overtopping_discharge_eq32(
 
     check_validity_range(
         Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
-- 
2.43.0


From f7edc59a70bc7e85684e2a6c1e11446b198d3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:47 +0000
Subject: [PATCH 17/40] fix: De Ridder et al. (2026) crest freeboards check the
 validity range

---
 .../hydraulic/wave_overtopping/deridder2026.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index 806b2c3..391cf8e 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -133,6 +133,7 @@ def calculate_crest_freeboard_discharge_q_eq28(
         g=g,
         gamma_beta=gamma_beta,
     )
+    check_validity_range(theta=theta)
 
     Rc = Rc_diml * Hm0
 
@@ -183,6 +184,15 @@ def calculate_crest_freeboard_discharge_q_eq32(
         * Hm0_HF
     ) + 0.97 * Hm0_LF
 
+    check_validity_range(
+        Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
+        Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
+        Rc=Rc,
+        Hm0_LF=Hm0_LF,
+        theta=theta,
+    )
+
     return Rc
 
 
@@ -226,6 +236,14 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq28(
         * gamma_f
         * gamma_beta
     )
+
+    check_validity_range(
+        Hm0=Hm0,
+        Hm0_HF=Hm0,
+        Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
+        Rc=Rc_diml * Hm0,
+    )
+
     return Rc_diml
 
 
-- 
2.43.0


From 344133a1e05f628e3a6648c9eccd5db2f20afea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:53 +0000
Subject: [PATCH 18/40] fix: Van Gent et al. (2023) transmission checks the
 validity range

---
 .../functions/hydraulic/wave_transmission/vangent2023.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
index c8b61b1..2b56513 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
@@ -161,4 +161,8 @@ def calculate_wave_transmission_Kt(
 
     Kt = c1 * np.tanh(-((Rc / Hm0) + c2 * np.power(B / Lmm10, c3) + c4)) + c5
 
+    check_validity_range(
+        Hm0=Hm0, Tmm10=Tmm10, Rc=Rc, B=B, structure_type=structure_type
+    )
+
     return Kt
-- 
2.43.0


From 7713cfb995eb6f22f529139be569a3c4dfe4fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:00 +0000
Subject: [PATCH 19/40] fix: Van Gent (2024) set-up validity check of B/Hm0
 depends on B

---
 .../functions/hydraulic/wave_transmission/vangent2024_setup.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
index 05958f8..3ed4f18 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
@@ -85,7 +85,7 @@ def check_validity_range(
                     3.0,
                 )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(hc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B)):
         match structure_type:
             case "permeable":
                 core_utility.check_variable_validity_range(
-- 
2.43.0


From 4caceb502d300d32459ea839072c2c727ea036da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:07 +0000
Subject: [PATCH 20/40] fix: Goda (1967) transmission of arrays is no longer
 truncated to integers

---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index a645d08..952eb1d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -51,7 +51,7 @@ def calculate_wave_transmission_Kt(
         Rc_over_Hsi = Rc / Hsi
 
         if Rc_over_Hsi <= -1 * alpha_1 - beta_1:
-            Kt = 1
+            Kt = 1.0
         elif Rc_over_Hsi <= alpha_1 - beta_1:
             Kt = 0.5 * (1 - np.sin((np.pi / 2) * ((Rc_over_Hsi + beta_1) / (alpha_1))))
         else:
-- 
2.43.0


From 61875c67fd2f710a8e52fba62aa67dd383eeb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:33 +0000
Subject: [PATCH 21/40] fix: local wave length for an array of periods at a
 single depth, and for an integer period

---
 .../functions/core_physics.py                               | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_physics.py b/deltares_coastal_structures_toolbox/functions/core_physics.py
index d6e7737..c4950ec 100644
--- a/deltares_coastal_structures_toolbox/functions/core_physics.py
+++ b/deltares_coastal_structures_toolbox/functions/core_physics.py
@@ -395,8 +395,10 @@ def calculate_local_wavelength(
 
     # implementation of disper handles arrays for T, but not for h, hence this implementation
     if isinstance(h, (float, int)):
-        k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)[0]
-    elif len(h) > 1 and isinstance(T, float):
+        k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)
+        if np.ndim(T) == 0:
+            k = k[0]
+    elif len(h) > 1 and np.ndim(T) == 0:
         k = np.array([])
         for hsub in h:
             k = np.append(k, dispersion.disper(w=((2 * np.pi) / T), h=hsub, g=g))
-- 
2.43.0


From 44e1ff5d775457c2c5a67c1e6f8903d5872ff903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:43 +0000
Subject: [PATCH 22/40] fix: validity check accepts numpy integer and single
 precision scalars

---
 deltares_coastal_structures_toolbox/functions/core_utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_utility.py b/deltares_coastal_structures_toolbox/functions/core_utility.py
index 3d02426..174acfd 100644
--- a/deltares_coastal_structures_toolbox/functions/core_utility.py
+++ b/deltares_coastal_structures_toolbox/functions/core_utility.py
@@ -35,7 +35,7 @@ def check_variable_validity_range(
     if isinstance(values, np.ndarray):
         values = values.tolist()
 
-    if isinstance(values, (int, float)):
+    if isinstance(values, (int, float, np.number)):
         values = [values]
 
     is_valid = []
-- 
2.43.0


From 846c747c03a95eca126061aa8190d81afad4ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:24 +0000
Subject: [PATCH 23/40] fix: Etemad-Shahidi et al. (2021) toe checks the
 validity range of all its arguments

---
 .../stability_toe_berm/etemadshahidi2021.py   | 36 ++++++++++++++++---
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index fd13f24..9fe2268 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -62,7 +62,7 @@ def check_validity(
         )
 
     if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Tmm10)):
-        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, Tmm10=Tmm10)
+        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10)
         core_utility.check_variable_validity_range(
             "Wave steepness sm-1,0",
             "Etemad-Shahidi et al. (2021)",
@@ -98,7 +98,7 @@ def check_validity(
             23.40,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(ht)):
+    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Bt)):
         core_utility.check_variable_validity_range(
             "Relative toe width Bt/Hs",
             "Etemad-Shahidi et al. (2021)",
@@ -116,7 +116,11 @@ def check_validity(
             3.0,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Dn50)):
+    if (
+        not np.any(np.isnan(Hs))
+        and not np.any(np.isnan(Dn50))
+        and not np.any(np.isnan(rho_armour))
+    ):
         Ns = core_physics.calculate_stability_number_Ns(
             H=Hs, D=Dn50, rho_rock=rho_armour, rho_water=rho_water
         )
@@ -248,7 +252,18 @@ def calculate_damage_Nod(
         1.0 / c5,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Nod
 
@@ -338,7 +353,18 @@ def calculate_nominal_diameter_Dn50(
         -1.0,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Dn50
 
-- 
2.43.0


From cf479ce7429bfc74b31b75cec11b404da682d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:46 +0000
Subject: [PATCH 24/40] fix: Etemad-Shahidi et al. (2021) toe wave height
 iteration respects max_iter

---
 .../functions/structural/stability_toe_berm/etemadshahidi2021.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 9fe2268..180f14d 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -476,5 +476,6 @@ def calculate_significant_wave_height_Hs(
         Hs_prev = Hs
 
         smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10, g=g)
+        n_iter += 1
 
     return Hs
-- 
2.43.0


From 7eccd239728d8d2447945b6586dbf8bd1d8ba423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:53 +0000
Subject: [PATCH 25/40] fix: Etemad-Shahidi et al. (2021) toe wave height
 checks the validity range

---
 .../stability_toe_berm/etemadshahidi2021.py         | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 180f14d..960819b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -478,4 +478,17 @@ def calculate_significant_wave_height_Hs(
         smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10, g=g)
         n_iter += 1
 
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
+
     return Hs
-- 
2.43.0


From 232608bffab8bf3100a5f48e4f7295db27a64100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:00 +0000
Subject: [PATCH 26/40] fix: Van der Meer (1998) toe checks the stability
 number Hs/(Delta*Dn50)

---
 .../functions/structural/stability_toe_berm/vandermeer1998.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index 57e7cf1..a520992 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -76,7 +76,7 @@ def check_validity(
         core_utility.check_variable_validity_range(
             "Nod vs Ns",
             "van der Meer (1998)",
-            (Nod**-0.15) * (Hs / Delta * Dn50),
+            (Nod**-0.15) * (Hs / (Delta * Dn50)),
             2,
             np.inf,
         )
-- 
2.43.0


From 8eb3f04ee45de5b23f5f3b9bf0510f0c99c064e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:07 +0000
Subject: [PATCH 27/40] fix: Hudson (1959) damage factor of a damage of 100
 percent

---
 .../functions/structural/stability_rock_armour/hudson1959.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
index d8deb79..a17e7a6 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
@@ -138,6 +138,7 @@ def lookup_table_damage_factors(
     mult_factors_smooth = np.array([1.0, 1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56, 1.56])
 
     ind = np.searchsorted(percentages, damage_percentage, "right")
+    ind = np.minimum(ind, percentages.size - 1)
     if rock_type.lower().strip() == "rough":
         factor = mult_factors_rough[ind]
     elif rock_type.lower().strip() == "smooth":
-- 
2.43.0


From b6348278e92193775515a51d483508a65828cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:28 +0000
Subject: [PATCH 28/40] fix: Core-Loc unit mass and wave height check the
 validity range of the slope

---
 .../stability_concrete_armour/core_loc_hudson1959.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
index 607e0e5..cd1d601 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
@@ -118,6 +118,8 @@ def calculate_unit_mass_M(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return M
 
 
@@ -178,6 +180,8 @@ def calculate_significant_wave_height_Hs(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return Hs
 
 
-- 
2.43.0


From 1ec5f5aa96ebb6fafc23f2c929b0e12de5c3a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:35 +0000
Subject: [PATCH 29/40] fix: Goda caisson forces check the validity range of
 the toe berm width

---
 .../functions/structural/forces_caisson/goda1985.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index 610a210..e8116c2 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -348,7 +348,13 @@ def calculate_forces_and_reactions(
 
     # check validity range
     is_valid = check_validity_range(
-        beta=beta, cota_seabed=cota_seabed, Tmax=Tmax, tup=tup, Bup=Bup, h_s=h_s
+        beta=beta,
+        cota_seabed=cota_seabed,
+        Tmax=Tmax,
+        tup=tup,
+        Bup=Bup,
+        h_s=h_s,
+        B1=B1,
     )
 
     if not return_dict:
-- 
2.43.0


From 3b671f4dfb2d70b33b827dfc6ec3d8e62ed1ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:57 +0000
Subject: [PATCH 30/40] fix: Van Gent (2007) rear-side stability checks the
 wave steepness

---
 .../functions/structural/stability_rock_rear/vangent2007.py    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 2fd7e39..24ee175 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -215,6 +215,7 @@ def calculate_damage_number_S(
     check_validity_range(
         Dn50=Dn50,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -293,6 +294,7 @@ def calculate_nominal_rock_diameter_Dn50(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -399,6 +401,7 @@ def calculate_maximum_significant_wave_height_Hs(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
-- 
2.43.0


From e85d299077c423fa045eae15fb8f59fbd7bbb6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:07 +0000
Subject: [PATCH 31/40] fix: modified Van der Meer validity check of the
 stability number uses the water density

---
 .../stability_rock_armour/vandermeer1988_modified.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
index cd3b905..f6c1cef 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
@@ -218,6 +218,7 @@ def calculate_damage_number_S(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -320,6 +321,7 @@ def calculate_nominal_rock_diameter_Dn50(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -443,5 +445,6 @@ def calculate_significant_wave_height_Hs(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hs
-- 
2.43.0


From 9df04d2c28b296af262dd99a1ba6c659b534db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:13 +0000
Subject: [PATCH 32/40] fix: Scaravaglione et al. (2025) validity check of the
 stability number uses the water density

---
 .../structural/stability_rock_armour/scaravaglione2025.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
index c21e5a2..dbe10f9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
@@ -204,6 +204,7 @@ def calculate_damage_number_S(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -280,6 +281,7 @@ def calculate_nominal_rock_diameter_Dn50(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -368,5 +370,6 @@ def calculate_significant_wave_height_Hm0(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hm0
-- 
2.43.0


From 5add361bac092d4508ef6ac847b7a6a2cecd3aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:37 +0000
Subject: [PATCH 33/40] fix: double layer cubes below the start of damage have
 no damage instead of a complex number

---
 .../cubes_double_layer_vandermeer1988.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py
index 52f7572..1e898a8 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py
@@ -275,7 +275,7 @@ def calculate_damage_Nod_vanDerMeer1988(
 
     Ns = core_physics.check_usage_stabilitynumber(Dn=Dn, Hs=Hs, Delta=Delta)[0]
 
-    Nod = ((((Ns / s0m**-0.1) - 1) / 6.7) * N_waves**0.3) ** (1 / 0.4)
+    Nod = (np.maximum(((Ns / s0m**-0.1) - 1) / 6.7, 0.0) * N_waves**0.3) ** (1 / 0.4)
 
     Tm = ((Hs / s0m) / (9.81 / (2 * np.pi))) ** 0.5
 
-- 
2.43.0


From f6b937d572b5351e9052b1c45bcc52588ea14d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:12 +0000
Subject: [PATCH 34/40] fix: Van der Meer (1998) toe berm depth above toe
 accepts arrays

---
 .../structural/stability_toe_berm/vandermeer1998.py          | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index a520992..cabeb68 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -272,10 +272,7 @@ def calculate_depth_above_toe_ht(
     )
 
     ht = (((Hs * Nod**-0.15) / (Delta * Dn50)) - 2) / 6.2
-    if ht > 0:
-        ht = ht ** (1 / 2.7) * h
-    else:
-        ht = np.nan
+    ht = np.power(np.where(ht > 0, ht, np.nan), 1 / 2.7) * h
 
     check_validity(Hs=Hs, ht=ht, h=h, Dn50=Dn50, Nod=Nod, Delta=Delta)
 
-- 
2.43.0


From 7e70e2a02260bcd39b7b62e0a5be8281eb0a27ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 35/40] fix: Van Gent (2007) rear side wave height for a zero
 front crest level difference

---
 .../functions/structural/stability_rock_rear/vangent2007.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 24ee175..bfaf63f 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -367,7 +367,7 @@ def calculate_maximum_significant_wave_height_Hs(
 
     Dn50 = core_physics.check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
 
-    Hs_i1 = Rc2_front
+    Hs_i1 = np.where(Rc2_front > 0.0, Rc2_front, Rc)
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-- 
2.43.0


From db855ded8a06df8ee68b501987ef3ab0eb5457a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:24 +0000
Subject: [PATCH 36/40] fix: z2% iteration of TAW 2002 makes at most max_iter
 iterations

---
 .../functions/hydraulic/wave_runup/taw2002.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index cb911f9..811957f 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -453,7 +453,7 @@ def iteration_procedure_z2p(
     z2p_estimate_i0 = z2p_estimate_i1 + 2 * tolerance
 
     while (
-        n_iter <= max_iter
+        n_iter < max_iter
         and np.max(abs(z2p_estimate_i1 - z2p_estimate_i0)) > tolerance
     ):
         z2p_estimate_i0 = z2p_estimate_i1
-- 
2.43.0


From 031619fa3cc99faf81bbb74586dc7fc55536bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:48 +0000
Subject: [PATCH 37/40] fix: Van Gent et al. (2025) crest freeboard without
 gamma_v is refused instead of NaN

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index a9b3738..61732bd 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -855,8 +855,12 @@ def calculate_dimensionless_crest_freeboard(
     ------
     ValueError
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
+        Raise an error if gamma_v is not provided, since it depends on the crest freeboard to be calculated.
     """
 
+    if np.any(np.isnan(gamma_v)):
+        raise ValueError("gamma_v should be provided")
+
     if np.isnan(gamma_beta):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
-- 
2.43.0


From 888dba25e067a4df387ab6638d67762e9dd3215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:32 +0000
Subject: [PATCH 38/40] fix: Van Gent et al. (2025) crest freeboard with wind
 inverts the discharge with wind

---
 .../hydraulic/wave_overtopping/vangent2025.py | 45 ++++++++++++-------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 61732bd..67a6237 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -900,17 +900,32 @@ def calculate_dimensionless_crest_freeboard(
         + 0.4 * Hm0_swell / Hm0
     )
 
+    Rc_diml_max = Rc_diml_max_equation(
+        Hm0=Hm0,
+        Hm0_swell=Hm0_swell,
+        q=q_diml * np.sqrt(g * Hm0**3),
+        cot_alpha=cot_alpha,
+        ksi_mm10=ksi_mm10,
+        gamma_f=gamma_f,
+        gamma_b=gamma_b,
+        gamma_v=gamma_v,
+        gamma_beta=gamma_beta,
+        g=g,
+    )
+
     if include_influence_wind:
+        # the formula gives the discharge without wind, on which the influence of wind depends
+        q_diml_iter = q_diml
         Rc_diff = np.inf
         n_iter = 0
         while np.max(Rc_diff) > tolerance and n_iter < max_iter:
             n_iter += 1
 
             gamma_w = calculate_influence_wind_gamma_w(
-                Rc=Rc_diml * Hm0,
+                Rc=np.min([Rc_diml, Rc_diml_max], axis=0) * Hm0,
                 Ac=Ac,
                 Hm0=Hm0,
-                q_diml=q_diml,
+                q_diml=q_diml_iter,
             )
             q_diml_iter = q_diml / gamma_w
 
@@ -927,20 +942,20 @@ def calculate_dimensionless_crest_freeboard(
                 + 0.4 * Hm0_swell / Hm0
             )
 
-            Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
+            Rc_diml_max = Rc_diml_max_equation(
+                Hm0=Hm0,
+                Hm0_swell=Hm0_swell,
+                q=q_diml_iter * np.sqrt(g * Hm0**3),
+                cot_alpha=cot_alpha,
+                ksi_mm10=ksi_mm10,
+                gamma_f=gamma_f,
+                gamma_b=gamma_b,
+                gamma_v=gamma_v,
+                gamma_beta=gamma_beta,
+                g=g,
+            )
 
-    Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0,
-        Hm0_swell=Hm0_swell,
-        q=q_diml * np.sqrt(g * Hm0**3),
-        cot_alpha=cot_alpha,
-        ksi_mm10=ksi_mm10,
-        gamma_f=gamma_f,
-        gamma_b=gamma_b,
-        gamma_v=gamma_v,
-        gamma_beta=gamma_beta,
-        g=g,
-    )
+            Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
 
     Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
     max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
-- 
2.43.0


From 9fc33ded50e74c14c678bb55a1543ef665c9aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:48 +0000
Subject: [PATCH 39/40] fix: input file writers accept a single combination
 with a whole-number wave angle

---
 .../functions/hydraulic/wave_overtopping/denbieman2021.py       | 2 +-
 .../functions/hydraulic/wave_overtopping/vangent2007.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
index 76d2ef1..68edbfa 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
@@ -80,7 +80,7 @@ def write_input_file_XGB_Overtopping(
         Name of the input file, by default "input_XGB_Overtopping"
     """
 
-    if isinstance(beta, float):
+    if np.ndim(beta) == 0:
         index = [0]
     else:
         index = None
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
index 8409d70..fdd7444 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
@@ -123,7 +123,7 @@ def write_input_file_NN_Overtopping(
             + "------------------------------------------------\n"
         )
 
-    if isinstance(beta, float):
+    if np.ndim(beta) == 0:
         index = [0]
     else:
         index = None
-- 
2.43.0


From ffafcc900484b499e637387a415ef1fc9595f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:37 +0000
Subject: [PATCH 40/40] fix: local wavelength of array inputs of any length,
 array gravity and numpy integers

---
 .../functions/core_physics.py                       | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_physics.py b/deltares_coastal_structures_toolbox/functions/core_physics.py
index c4950ec..59faad0 100644
--- a/deltares_coastal_structures_toolbox/functions/core_physics.py
+++ b/deltares_coastal_structures_toolbox/functions/core_physics.py
@@ -394,18 +394,15 @@ def calculate_local_wavelength(
     """
 
     # implementation of disper handles arrays for T, but not for h, hence this implementation
-    if isinstance(h, (float, int)):
+    if np.ndim(h) == 0 and np.ndim(g) == 0:
         k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)
         if np.ndim(T) == 0:
             k = k[0]
-    elif len(h) > 1 and np.ndim(T) == 0:
+    else:
+        T, h, g = np.broadcast_arrays(T, h, g)
         k = np.array([])
-        for hsub in h:
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / T), h=hsub, g=g))
-    elif len(h) > 1 and len(h) == len(T):
-        k = np.array([])
-        for hsub, Tsub in zip(h, T):
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=g))
+        for hsub, Tsub, gsub in zip(h, T, g):
+            k = np.append(k, dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=gsub))
 
     L = (2 * np.pi) / k
 
-- 
2.43.0

