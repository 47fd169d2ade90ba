From 7559640d55a03e0886857c072a45fa617c4c3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 01/32] fix: JMS to EOS translation returned a 1-element array
 for b->s::c5

A trailing comma turned the expression into a tuple, so WC.dict2values raised
a TypeError for every JMS point with a nonzero EOS translation.
---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 6acf24c..696f3ba 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1026,7 +1026,7 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbdd['Fsbdd4'] / 180 + Fsbss['Fsbss1'] / 54
         - Fsbss['Fsbss3'] / 60 - Fsbss['Fsbss4'] / 180
         + 5 * Fsbuu['Fsbuu1'] / 216 - Fsbuu['Fsbuu2'] / 216
-        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180,
+        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180
     )
     c6 = (
         + Fsbbb['Fsbbb1'] / 36 - Fsbbb['Fsbbb4'] / 30
-- 
2.43.0


From e5482956aa4e0a7b305227f73887564af8730898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 02/32] fix: m_c ignored the number of flavours at scale ==
 m_c(m_c)

---
 wilson/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/util/qcd.py b/wilson/util/qcd.py
index e540bd2..a1ff878 100644
--- a/wilson/util/qcd.py
+++ b/wilson/util/qcd.py
@@ -95,7 +95,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185, loop=3):
 def m_c(mcmc, scale, f, alphasMZ=0.1185, loop=3):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     crd = rundec.CRunDec()
-- 
2.43.0


From abfeb3ff5873a56f034857b1c18ac5641ee1f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 03/32] fix: basis validation without LaTeX left a temporary
 directory behind

---
 wilson/wcxf/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index db63400..bc31d1d 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -75,6 +75,8 @@ def _testtex(s, delete=True):
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
         logging.warn('latex executable not found. Cannot check tex code')
+        if delete:
+            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
-- 
2.43.0


From fb15426bce83d98cdc9d4a2ebfb745649e8e36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 04/32] fix: basis validation raised NameError if latex failed
 without writing a log

---
 wilson/wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index bc31d1d..666e830 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -88,7 +88,7 @@ def _testtex(s, delete=True):
         with open(logf) as f:
             logl = f.readlines()
     except FileNotFoundError:
-        pass
+        logl = []
     fail = False
     for i, l in enumerate(logl):
         if 'Undefined control sequence' in l or 'Emergency stop' in l:
-- 
2.43.0


From ff68eb890d764cb0325041dc637180b2a2038a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 05/32] fix: get_gpbar raised AttributeError instead of
 ValueError with current SciPy

---
 wilson/run/smeft/smpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/smeft/smpar.py b/wilson/run/smeft/smpar.py
index fe387f1..f8b7ceb 100644
--- a/wilson/run/smeft/smpar.py
+++ b/wilson/run/smeft/smpar.py
@@ -92,7 +92,7 @@ def get_gpbar(ebar, gbar, v, C):
             return (ebar_calc - ebar).real
         try:
             gpbar = scipy.optimize.brentq(f0, 0, 3)
-        except (scipy.optimize.nonlin.NoConvergence, ValueError) as e:
+        except (RuntimeError, ValueError) as e:
             raise ValueError("No solution for gp found. This problem can be caused by very large values for one or several Wilson coefficients.")
     return gpbar * (1 - C['phiB'].real * (v**2))
 
-- 
2.43.0


From 4ea998a883f731f8e8bf56a1d9d049c3cc6473de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 06/32] fix: WET running lost all precision for QED mixing
 where QCD eigenvalues differ by one

In getUe the case a[i]-a[j] = 1 was recognised by exact float comparison
only; rounding in the eigenvalues made (x - y)/d with d ~ 1e-16 return
noise of order one (seen in WET-3, where the mixing is present).
---
 wilson/run/wet/rge.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 0a32b8e..c37700d 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -74,8 +74,11 @@ def getUe(classname, eta_s, f, alpha_s, alpha_e, m_u, m_d, m_s, m_c, m_b, m_e, m
     K = np.linalg.inv(v) @ A.T @ v
     for i in range(K.shape[0]):
         for j in range(K.shape[1]):
-            if a[i] - a[j] != 1:
-                K[i, j] *= (eta_s**(a[j] + 1) - eta_s**a[i]) / (a[i] - a[j] - 1)
+            d = a[i] - a[j] - 1
+            if d != 0:
+                # (eta_s**(a[j] + 1) - eta_s**a[i]) / d, avoiding the
+                # cancellation for (numerically almost) vanishing d
+                K[i, j] *= -eta_s**(a[j] + 1) * np.expm1(d * log(eta_s)) / d
             else:
                 K[i, j] *= eta_s**a[i] * log(1 / eta_s)
     return -alpha_e / (2 * b0s * alpha_s) * v @ K @ np.linalg.inv(v)
-- 
2.43.0


From 3fcd4ad326248e0cc22f6bd6f474803147c9c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 07/32] fix: translate lepton-flavour-violating s->d operators
 from flavio to Bern

---
 wilson/translate/wet.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 696f3ba..658e77c 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1954,11 +1954,10 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
                                         'db'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
                                         'db'+'l_'+l+'nu_'+lp))
-            if l == lp:  # l+l- only for l=l'
-                d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
-                                            'ds'+'l_'+l+'nu_'+lp, p,
-                                            norm_gf=True),
-                                            'ds'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        norm_gf=True),
+                                        'ds'+'l_'+l+'nu_'+lp))
             d.update(Fierz_to_Bern_nunu(Flavio_to_Fierz_nunu(C,
                                         'sb'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
-- 
2.43.0


From 8c1904b455c99119dddf0b2a005b4f5a2c68ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 08/32] fix: sign of the Fierz-transformed scalar operator in
 FormFlavor Delta F=2 coefficients

---
 wilson/translate/wet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 658e77c..2115776 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -155,11 +155,11 @@ def _BernI_to_FormFlavor_I(C, qq):
     if qq in ['sb', 'db', 'ds']:
         return {
             'CVLL_' + 2*qqf: C["1" + 2*qq],
-            'CSLL_' + 2*qqf: C["2" + 2*qq] + 1 / 2 * C["3" + 2*qq],
+            'CSLL_' + 2*qqf: C["2" + 2*qq] - 1 / 2 * C["3" + 2*qq],
             'CTLL_' + 2*qqf: -1 / 8 * C["3" + 2*qq],
             'CVLR_' + 2*qqf: -1 / 2 * C["5" + 2*qq],
             'CVRR_' + 2*qqf: C["1p" + 2*qq],
-            'CSRR_' + 2*qqf: C["2p" + 2*qq] + 1 / 2 * C["3p" + 2*qq],
+            'CSRR_' + 2*qqf: C["2p" + 2*qq] - 1 / 2 * C["3p" + 2*qq],
             'CTRR_' + 2*qqf: -1 / 8 * C["3p" + 2*qq],
             'CSLR_' + 2*qqf: C["4" + 2*qq]
             }
-- 
2.43.0


From a5710a890daea9af07d2ef8da7a2915a37b7a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 09/32] fix: hermitian conjugation of scalar and tensor c->u
 Delta F=2 operators in FormFlavor

---
 wilson/translate/wet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 2115776..f968102 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -166,12 +166,12 @@ def _BernI_to_FormFlavor_I(C, qq):
     elif qq == 'cu':
         return {
             'CVLL_' + 2*qq: C["1" + 2*qq].conjugate(),
-            'CSLL_' + 2*qq: C["2" + 2*qq] + 1 / 2 * C["3" + 2*qq].conjugate(),
-            'CTLL_' + 2*qq: -1 / 8 * C["3" + 2*qq].conjugate(),
+            'CSLL_' + 2*qq: C["2p" + 2*qq].conjugate() - 1 / 2 * C["3p" + 2*qq].conjugate(),
+            'CTLL_' + 2*qq: -1 / 8 * C["3p" + 2*qq].conjugate(),
             'CVLR_' + 2*qq: -1 / 2 * C["5" + 2*qq].conjugate(),
             'CVRR_' + 2*qq: C["1p" + 2*qq].conjugate(),
-            'CSRR_' + 2*qq: C["2p" + 2*qq].conjugate() + 1 / 2 * C["3p" + 2*qq].conjugate(),
-            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq],
+            'CSRR_' + 2*qq: C["2" + 2*qq].conjugate() - 1 / 2 * C["3" + 2*qq].conjugate(),
+            'CTRR_' + 2*qq: -1 / 8 * C["3" + 2*qq].conjugate(),
             'CSLR_' + 2*qq: C["4" + 2*qq].conjugate()
             }
     else:
-- 
2.43.0


From 3fe70e56d70f8584809b48150b5505c7fad78f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 10/32] fix: FormFlavor s->d nu nu coefficients were
 overwritten by b->d ones

---
 wilson/translate/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index f968102..e2301db 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1424,12 +1424,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From 3a19f9d0bad108762c6852d82bcd37d6fb852126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 11/32] fix: normalise left-handed lepton dipoles in FormFlavor
 with e instead of g_s

---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index e2301db..cf313c1 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1628,7 +1628,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From 1ec0614f9b866664dfa137110f41ff2b6479d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 12/32] fix: normalise b->s coefficients for EOS before taking
 real and imaginary parts

---
 wilson/translate/wet.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index cf313c1..edcc019 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1036,16 +1036,15 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbuu['Fsbuu1'] / 36 + Fsbuu['Fsbuu2'] / 18
         - Fsbuu['Fsbuu4'] / 30
     )
-    dic = {
-        'b->s::c1' : np.real(c1),
-        'b->s::c2' : np.real(c2),
-        'b->s::c3' : np.real(c3),
-        'b->s::c4' : np.real(c4),
-        'b->s::c5' : np.real(c5),
-        'b->s::c6' : np.real(c6)
-    }
     prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return {
+        'b->s::c1' : np.real(prefactor * c1),
+        'b->s::c2' : np.real(prefactor * c2),
+        'b->s::c3' : np.real(prefactor * c3),
+        'b->s::c4' : np.real(prefactor * c4),
+        'b->s::c5' : np.real(prefactor * c5),
+        'b->s::c6' : np.real(prefactor * c6)
+    }
 
 
 # semileptonic operators
@@ -1382,7 +1381,10 @@ def Fierz_to_EOS_lep(C, ddll, parameters):
     ind = ddll.replace('l_','').replace('nu_','')
     ind2 = ddll.replace('l_','').replace('nu_','')[2::]
     e = sqrt(4* pi * parameters['alpha_e'])
-    dic = {
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
+    # real and imaginary parts refer to the fully normalised coefficients
+    C = {k: prefactor * v for k, v in C.items()}
+    return {
         'b->s' + ind2 + '::Re{c9}'   : np.real((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
         'b->s' + ind2 + '::Im{c9}'   : np.imag((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
         'b->s' + ind2 + "::Re{c9'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
@@ -1404,8 +1406,6 @@ def Fierz_to_EOS_lep(C, ddll, parameters):
         'b->s' + ind2 + "::Re{cT5}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'T5' ]),
         'b->s' + ind2 + "::Im{cT5}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'T5' ])
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
 
 def JMS_to_FormFlavor_lep(C, dd):
     """From JMS to semileptonic Fierz basis for Classes V.
@@ -1597,7 +1597,10 @@ def Fierz_to_EOS_chrom(C, dd, parameters):
     e = sqrt(4 * pi * parameters['alpha_e'])
     gs = sqrt(4 * pi * parameters['alpha_s'])
     mb = parameters['m_b']
-    dic = {
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
+    # real and imaginary parts refer to the fully normalised coefficients
+    C = {k: prefactor * v for k, v in C.items()}
+    return {
         "b->s::Re{c7}"  : np.real(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
         "b->s::Im{c7}"  : np.imag(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
         "b->s::Re{c7'}" : np.real(16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
@@ -1605,8 +1608,6 @@ def Fierz_to_EOS_chrom(C, dd, parameters):
         "b->s::c8"      : np.real(16 * pi**2 / mb / gs * C["F8g"      + dd]),
         "b->s::c8'"     : np.real(16 * pi**2 / mb / gs * C["F8pg"     + dd])
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
 
 
 def JMS_to_FormFlavor_chrom(C, qq, parameters):
-- 
2.43.0


From b4f813ff99e4f948ebf6d571fbdab327334fece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 13/32] fix: translating JMS to Bern, EOS or formflavor with
 selected sectors raised KeyError

---
 wilson/translate/wet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index edcc019..cf4cb4d 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1727,7 +1727,7 @@ def get_parameters(scale, f=5, input_parameters=None):
 
 def JMS_to_EOS(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)  # all sectors are needed below
     d={}
 
     # Class I
@@ -1991,7 +1991,7 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
 
 def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)  # all sectors are needed below
     d={}
 
     # Class I
@@ -2010,7 +2010,7 @@ def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
 
 def JMS_to_Bern(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)  # all sectors are needed below
     d={}
 
     # Class I
-- 
2.43.0


From 4edd976b43c82de4f44167035e92632329f8d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 14/32] fix: hash of a Wilson instance did not depend on the
 values of its options

---
 wilson/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 379d3dd..a3d9870 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -153,7 +153,9 @@ class Wilson(ConfigurableClass):
         """Return a hash of the `Wilson` instance.
         The hash changes when Wilson coefficient values or options are modified.
         It assumes that `wcxf.WC` instances are not modified after instantiation."""
-        return hash((self.wc, frozenset(self._options)))
+        options = {k: frozenset(v.items()) if isinstance(v, dict) else v
+                   for k, v in self._options.items()}
+        return hash((self.wc, frozenset(options.items())))
 
     @classmethod
     def from_wc(cls, wc):
-- 
2.43.0


From 7e1d7581ecfcd2f907781853fa2f861d858d18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 15/32] fix: setting the deprecated parameter 'delta' modified
 the caller's dictionary

---
 wilson/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index a3d9870..3b9f1d0 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -56,8 +56,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = {'gamma' if k == 'delta' else k: v
+                     for k, v in value.items() if k != 'gamma'}
         ####################################################################
         cls._default_options.update(cls._option_schema({key: value}))
 
@@ -75,8 +75,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = {'gamma' if k == 'delta' else k: v
+                     for k, v in value.items() if k != 'gamma'}
         ####################################################################
         self._options.update(self._option_schema({key: value}))
         self.clear_cache()
-- 
2.43.0


From a829130ba0afa2b8e8802b481a5e011dcfff4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 16/32] fix: SMEFT to SMEFT match_run ignored the parameters
 option when translating the result

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 3b9f1d0..dc12aa8 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -238,7 +238,7 @@ class Wilson(ConfigurableClass):
             if eft == 'SMEFT':
                 smeft = SMEFT(self.wc.translate('Warsaw', sectors=translate_sectors, parameters=self.parameters))
                 # if input and output EFT ist SMEFT, just run.
-                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis)
+                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis, parameters=self.parameters)
                 self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)
                 return wc_out
             else:
-- 
2.43.0


From e989eb804025b011b9fb170291b6796e75d972bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 17/32] fix: WET running in match_run ignored the parameters
 option

---
 wilson/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index dc12aa8..825e936 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -197,7 +197,8 @@ class Wilson(ConfigurableClass):
     def _wetrun_opt(self):
         """Return a dictionary of options to pass to a `run.wet.WETrunner`
         instance."""
-        return {'qed_order': self.get_option('qed_order'),
+        return {'parameters': self.parameters,
+                'qed_order': self.get_option('qed_order'),
                 'qcd_order': self.get_option('qcd_order')}
 
     def match_run(self, scale, eft, basis, sectors='all'):
-- 
2.43.0


From 9f193f147ca0ef1e2b2aa743886a4498493cd531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 18/32] fix: match_run returned coefficients outside the
 selected sectors if no running was needed

---
 wilson/classes.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 825e936..1f8a4bf 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -201,6 +201,17 @@ class Wilson(ConfigurableClass):
                 'qed_order': self.get_option('qed_order'),
                 'qcd_order': self.get_option('qcd_order')}
 
+    @staticmethod
+    def _select_sectors(wc, sectors):
+        """Return the Wilson coefficients `wc` restricted to `sectors`
+        (this has no effect for SMEFT)."""
+        if sectors == 'all' or wc.eft == 'SMEFT':
+            return wc
+        basis_sectors = wcxf.Basis[wc.eft, wc.basis].sectors
+        keys = {k for s, wcs in basis_sectors.items() if s in sectors for k in wcs}
+        return wcxf.WC(wc.eft, wc.basis, wc.scale,
+                       {k: v for k, v in wc.values.items() if k in keys})
+
     def match_run(self, scale, eft, basis, sectors='all'):
         """Run the Wilson coefficients to a different scale
         (and possibly different EFT)
@@ -229,9 +240,10 @@ class Wilson(ConfigurableClass):
         mb = self.get_option('mb_matchingscale')
         mc = self.get_option('mc_matchingscale')
         if self.wc.basis == basis and self.wc.eft == eft and scale == self.wc.scale:
-            return self.wc  # nothing to do
+            return self._select_sectors(self.wc, sectors)  # nothing else to do
         if self.wc.eft == eft and scale == self.wc.scale:
             wc_out = self.wc.translate(basis, sectors=translate_sectors, parameters=self.parameters)  # only translation necessary
+            wc_out = self._select_sectors(wc_out, sectors)
             self._set_cache(sectors, scale, eft, basis, wc_out)
             return wc_out
         if self.wc.eft == 'SMEFT':
-- 
2.43.0


From dc3f81b53dbca335f379a400a067c37d047b681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 19/32] fix: match_run from bases other than Warsaw and Warsaw
 up failed if the input scale was the matching scale

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 1f8a4bf..63d3c3a 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -259,7 +259,7 @@ class Wilson(ConfigurableClass):
                 wc_ew = self._get_from_cache(sector='all', scale=scale_ew, eft='WET', basis='JMS')
                 if wc_ew is None:
                     if self.wc.scale == scale_ew:
-                        wc_ew = self.wc.match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
+                        wc_ew = self.wc.translate('Warsaw', parameters=self.parameters).match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
                     else:
                         smeft = SMEFT(self.wc.translate('Warsaw', parameters=self.parameters))
                         wc_ew = smeft.run(scale_ew, accuracy=smeft_accuracy).match('WET', 'JMS', parameters=self.matching_parameters)
-- 
2.43.0


From 01518c51cd7621c7d3d85577ba97cc9fb4fa09e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 20/32] fix: plotting a SMEFT coefficient that vanishes at one
 of the scales raised KeyError

---
 wilson/run/smeft/rge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index bd0fb7e..5b192aa 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -51,7 +51,9 @@ def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, **kwargs):
         t = log(scale)
         y = sol.sol(t).view(complex)
         yd = smeftutil.C_array2dict(y)
-        yw = smeftutil.arrays2wcxf_nonred(yd)
+        # coefficients vanishing at this scale have to be present as well
+        yw = {k: 0. for k in smeftutil.all_wcs}
+        yw.update(smeftutil.arrays2wcxf_nonred(yd))
         return yw
     def rge_solution(scale):
         # this is to return a scalar if the input is scalar
-- 
2.43.0


From 539a05a1c2dace18ff272fa4a191d8e1a9fc9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 21/32] fix: plotting SM parameters of the continuous SMEFT
 solution raised KeyError

---
 wilson/run/smeft/rge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index 5b192aa..39248fe 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -54,6 +54,8 @@ def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, **kwargs):
         # coefficients vanishing at this scale have to be present as well
         yw = {k: 0. for k in smeftutil.all_wcs}
         yw.update(smeftutil.arrays2wcxf_nonred(yd))
+        # the SM parameters are part of the solution
+        yw.update(smeftutil.arrays2wcxf({k: yd[k] for k in smeftutil.dim4_keys}))
         return yw
     def rge_solution(scale):
         # this is to return a scalar if the input is scalar
-- 
2.43.0


From b459f928e9e911475e2ed7def8e679ae330e5640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 22/32] fix: DsixTools YAML output with numpy scalars could not
 be read back

---
 wilson/wcxf/converters/dsixtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/wcxf/converters/dsixtools.py b/wilson/wcxf/converters/dsixtools.py
index e718f75..c382095 100644
--- a/wilson/wcxf/converters/dsixtools.py
+++ b/wilson/wcxf/converters/dsixtools.py
@@ -152,7 +152,7 @@ def wc_dict2lha(wc, skip_redundant=True, skip_zero=True):
         if block not in d:
             d[block] = defaultdict(list)
         if wc[name] != 0:
-            d[block]['values'].append([i, wc[name].real])
+            d[block]['values'].append([i, float(wc[name].real)])
     for name in smeftutil.WC_keys_2f:
         reblock = 'WC'+name.upper()
         imblock = 'IMWC'+name.upper()
-- 
2.43.0


From 68bf209d16eaaf0509b974e74902912ac23742b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 23/32] fix: SMEFTsim card lost the sign of flavour-diagonal
 Higgs-fermion current coefficients

---
 wilson/wcxf/converters/smeftsim.py | 84 +++++++++++++++---------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index e9de49e..dbb706c 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -748,48 +748,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(scaled_wc('phiBtilde') * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(scaled_wc('phiWB') * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(scaled_wc('phiWtildeB') * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(scaled_wc('phil1_11')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(scaled_wc('phil1_11') * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(scaled_wc('phil1_12')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(scaled_wc('phil1_13')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(scaled_wc('phil1_22')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(scaled_wc('phil1_22') * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(scaled_wc('phil1_23')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(scaled_wc('phil1_33')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(scaled_wc('phil3_11')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(scaled_wc('phil1_33') * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(scaled_wc('phil3_11') * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(scaled_wc('phil3_12')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(scaled_wc('phil3_13')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(scaled_wc('phil3_22')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(scaled_wc('phil3_22') * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(scaled_wc('phil3_23')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(scaled_wc('phil3_33')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(scaled_wc('phiq1_11')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(scaled_wc('phil3_33') * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(scaled_wc('phiq1_11') * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(scaled_wc('phiq1_12')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(scaled_wc('phiq1_13')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(scaled_wc('phiq1_22')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(scaled_wc('phiq1_22') * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(scaled_wc('phiq1_23')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(scaled_wc('phiq1_33')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(scaled_wc('phiq3_11')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(scaled_wc('phiq1_33') * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(scaled_wc('phiq3_11') * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(scaled_wc('phiq3_12')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(scaled_wc('phiq3_13')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(scaled_wc('phiq3_22')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(scaled_wc('phiq3_22') * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(scaled_wc('phiq3_23')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(scaled_wc('phiq3_33')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(scaled_wc('phie_11')) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(scaled_wc('phiq3_33') * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(scaled_wc('phie_11') * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(scaled_wc('phie_12')) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(scaled_wc('phie_13')) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(scaled_wc('phie_22')) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(scaled_wc('phie_22') * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(scaled_wc('phie_23')) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(scaled_wc('phie_33')) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(scaled_wc('phiu_11')) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(scaled_wc('phie_33') * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(scaled_wc('phiu_11') * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(scaled_wc('phiu_12')) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(scaled_wc('phiu_13')) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(scaled_wc('phiu_22')) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(scaled_wc('phiu_22') * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(scaled_wc('phiu_23')) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(scaled_wc('phiu_33')) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(scaled_wc('phid_11')) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(scaled_wc('phiu_33') * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(scaled_wc('phid_11') * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(scaled_wc('phid_12')) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(scaled_wc('phid_13')) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(scaled_wc('phid_22')) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(scaled_wc('phid_22') * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(scaled_wc('phid_23')) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(scaled_wc('phid_33')) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(scaled_wc('phid_33') * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(scaled_wc('ll_1111') * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(scaled_wc('ll_1122') * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(scaled_wc('ll_1221') * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -2712,66 +2712,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
 
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(scaled_wc('phil1_11')* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(scaled_wc('phil1_11')* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(scaled_wc('phil1_12')* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(scaled_wc('phil1_13')* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(scaled_wc('phil1_22')* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(scaled_wc('phil1_22')* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(scaled_wc('phil1_23')* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(scaled_wc('phil1_33')* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(scaled_wc('phil1_33')* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(scaled_wc('phil1_12')), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(scaled_wc('phil1_13')), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(scaled_wc('phil1_23')), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(scaled_wc('phil3_11')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'],
+	[10, format(scaled_wc('phil3_11')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'],
 	[11, format(abs(scaled_wc('phil3_12')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'],
 	[12, format(abs(scaled_wc('phil3_13')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'],
-	[13, format(abs(scaled_wc('phil3_22')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'],
+	[13, format(scaled_wc('phil3_22')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'],
 	[14, format(abs(scaled_wc('phil3_23')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'],
-	[15, format(abs(scaled_wc('phil3_33')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'],
+	[15, format(scaled_wc('phil3_33')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'],
 	[16, format(angle(scaled_wc('phil3_12')), '.6e') ,'# cHL3Ph12'],
 	[17, format(angle(scaled_wc('phil3_13')), '.6e') ,'# cHL3Ph13'],
 	[18, format(angle(scaled_wc('phil3_23')), '.6e') ,'# cHL3Ph23'],
-	[19, format(abs(scaled_wc('phiq1_11')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'],
+	[19, format(scaled_wc('phiq1_11')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'],
 	[20, format(abs(scaled_wc('phiq1_12')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'],
 	[21, format(abs(scaled_wc('phiq1_13')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'],
-	[22, format(abs(scaled_wc('phiq1_22')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'],
+	[22, format(scaled_wc('phiq1_22')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'],
 	[23, format(abs(scaled_wc('phiq1_23')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'],
-	[24, format(abs(scaled_wc('phiq1_33')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'],
+	[24, format(scaled_wc('phiq1_33')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'],
 	[25, format(angle(scaled_wc('phiq1_12')), '.6e') ,'# cHq1Ph12'],
 	[26, format(angle(scaled_wc('phiq1_13')), '.6e') ,'# cHq1Ph13'],
 	[27, format(angle(scaled_wc('phiq1_23')), '.6e') ,'# cHq1Ph23'],
-	[28, format(abs(scaled_wc('phiq3_11')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'],
+	[28, format(scaled_wc('phiq3_11')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'],
 	[29, format(abs(scaled_wc('phiq3_12')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'],
 	[30, format(abs(scaled_wc('phiq3_13')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'],
-	[31, format(abs(scaled_wc('phiq3_22')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'],
+	[31, format(scaled_wc('phiq3_22')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'],
 	[32, format(abs(scaled_wc('phiq3_23')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'],
-	[33, format(abs(scaled_wc('phiq3_33')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'],
+	[33, format(scaled_wc('phiq3_33')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'],
 	[34, format(angle(scaled_wc('phiq3_12')), '.6e') ,'# cHQ3Ph12'],
 	[35, format(angle(scaled_wc('phiq3_13')), '.6e') ,'# cHQ3Ph13'],
 	[36, format(angle(scaled_wc('phiq3_23')), '.6e') ,'# cHQ3Ph23'],
-	[37, format(abs(scaled_wc('phiu_11')* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'],
+	[37, format(scaled_wc('phiu_11')* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'],
 	[38, format(abs(scaled_wc('phiu_12')* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'],
 	[39, format(abs(scaled_wc('phiu_13')* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'],
-	[40, format(abs(scaled_wc('phiu_22')* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'],
+	[40, format(scaled_wc('phiu_22')* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'],
 	[41, format(abs(scaled_wc('phiu_23')* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'],
-	[42, format(abs(scaled_wc('phiu_33')* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'],
+	[42, format(scaled_wc('phiu_33')* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'],
 	[43, format(angle(scaled_wc('phiu_12')), '.6e') ,'# cHuPh12'],
 	[44, format(angle(scaled_wc('phiu_13')), '.6e') ,'# cHuPh13'],
 	[45, format(angle(scaled_wc('phiu_23')), '.6e') ,'# cHuPh23'],
-	[46, format(abs(scaled_wc('phid_11')* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'],
+	[46, format(scaled_wc('phid_11')* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'],
 	[47, format(abs(scaled_wc('phid_12')* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'],
 	[48, format(abs(scaled_wc('phid_13')* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'],
-	[49, format(abs(scaled_wc('phid_22')* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'],
+	[49, format(scaled_wc('phid_22')* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'],
 	[50, format(abs(scaled_wc('phid_23')* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'],
-	[51, format(abs(scaled_wc('phid_33')* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'],
+	[51, format(scaled_wc('phid_33')* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'],
 	[52, format(angle(scaled_wc('phid_12')), '.6e') ,'# cHdPh12'],
 	[53, format(angle(scaled_wc('phid_13')), '.6e') ,'# cHdPh13'],
 	[54, format(angle(scaled_wc('phid_23')), '.6e') ,'# cHdPh23'],
-	[55, format(abs(scaled_wc('phie_11')* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'],
+	[55, format(scaled_wc('phie_11')* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'],
 	[56, format(abs(scaled_wc('phie_12')* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'],
 	[57, format(abs(scaled_wc('phie_13')* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'],
-	[58, format(abs(scaled_wc('phie_22')* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'],
+	[58, format(scaled_wc('phie_22')* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'],
 	[59, format(abs(scaled_wc('phie_23')* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'],
-	[60, format(abs(scaled_wc('phie_33')* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'],
+	[60, format(scaled_wc('phie_33')* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'],
 	[61, format(angle(scaled_wc('phie_12')), '.6e') ,'# cHePh12'],
 	[62, format(angle(scaled_wc('phie_13')), '.6e') ,'# cHePh13'],
 	[63, format(angle(scaled_wc('phie_23')), '.6e') ,'# cHePh23'],
-- 
2.43.0


From 92f19d4bd6f2c74736bcb25232979cd4cbeb9b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 24/32] fix: SMEFTsim card contained complex numbers for real
 coefficients, e.g. after running

---
 wilson/wcxf/converters/smeftsim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index dbb706c..c01ebee 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -90,13 +90,18 @@ def initialize_smeftsim_card(model_set):
 
 
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
+  from wilson import wcxf
 
   _symm_fac = smeftutil.arrays2wcxf(smeftutil._scale_dict)
+  _real = {k for sector in wcxf.Basis[wc.eft, wc.basis].sectors.values()
+           for k, v in sector.items() if v and v.get('real')}
   def scaled_wc(key):
       """Return the coefficient scaled by the appropriate symmetry factor
       to account for the change from the flavor-non-redundant WCxf convention
       to the symmetrized SMEFTsim convention."""
-      return wc[key] / _symm_fac[key]
+      value = wc[key] / _symm_fac[key]
+      # coefficients of Hermitian operators can be stored as complex numbers
+      return value.real if key in _real else value
 
 
   if model_set == 'A':
-- 
2.43.0


From c61c71d42c2f7476ba7bed8c35f136a669d07ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 25/32] fix: SMEFTsim card lost the sign of ee_3333 (model set
 A)

---
 wilson/wcxf/converters/smeftsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index c01ebee..2e9256c 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -972,7 +972,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(scaled_wc('ee_2222') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'],
           [864, format(scaled_wc('ee_2233') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'],
           [865, format(abs(scaled_wc('ee_1112')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'],
-          [866, format(abs(scaled_wc('ee_3333')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
+          [866, format(scaled_wc('ee_3333') * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
           [867, format(abs(scaled_wc('ee_1123')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'],
           [868, format(abs(scaled_wc('ee_1113')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'],
           [869, format(abs(scaled_wc('ee_1213')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'],
-- 
2.43.0


From d8fb5fd95e14d1d9b4d94145282372f7a98af74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 26/32] fix: wcxf command line printed the usage and reported
 success for malformed input files

An AttributeError raised while processing the input was taken for a missing
subcommand, and the return value of the subcommand was dropped.
---
 wilson/wcxf/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wilson/wcxf/cli.py b/wilson/wcxf/cli.py
index 491278f..1c095cc 100755
--- a/wilson/wcxf/cli.py
+++ b/wilson/wcxf/cli.py
@@ -75,10 +75,10 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):
         parser.print_help()
+        return
+    return args.func(args)
 
 
 def convert(args):
-- 
2.43.0


From ac34816751e1aaca194ff2539a8fa2b58a5f7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 27/32] fix: basis definition refused because of a missing
 parent was registered nevertheless

It replaced an existing basis of the same name by an object without sectors.
---
 wilson/wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index 666e830..d7665cc 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -221,7 +221,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -233,6 +232,7 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From b170fc6ca730055952bc04932bc74c9aa08ebe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 28/32] fix: JMS_to_array and symmetrize_JMS_dict ignored the
 symmetries of VeeLL, VeeRR and VnunuLL

Redundant entries were left as NaN and dropped, respectively.
---
 wilson/util/wet_jms.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/wilson/util/wet_jms.py b/wilson/util/wet_jms.py
index 561eb9c..fc5ddce 100644
--- a/wilson/util/wet_jms.py
+++ b/wilson/util/wet_jms.py
@@ -72,6 +72,13 @@ def _symm_current(C):
     C[nans] = np.einsum('klij', C)[nans]
     return C
 
+def _symm_fierz(C):
+    """To get rid of NaNs produced by _scalar2array, symmetrize operators
+    where C_ijkl = C_kjil"""
+    nans = np.isnan(C)
+    C[nans] = np.einsum('kjil', C)[nans]
+    return C
+
 def _antisymm_12(C):
     """To get rid of NaNs produced by _scalar2array, antisymmetrize the first
     two indices of operators where C_ijkl = -C_jikl"""
@@ -100,6 +107,8 @@ def JMS_to_array(C, sectors=None):
             Ca[k] = _symm_current(Ca[k])
         if k in C_symm_keys[4]:
             Ca[k] = _symm_herm(_symm_current(Ca[k]))
+        if k in C_symm_keys[6]:
+            Ca[k] = _symm_fierz(_symm_herm(_symm_current(Ca[k])))
         if k in C_symm_keys[71]:
             Ca[k] = _antisymm_12(Ca[k])
     return Ca
@@ -139,6 +148,16 @@ def symmetrize_JMS_dict(C):
                     indnew = ''.join([k, l, i, j])
                     newname = '_'.join([name, indnew])
                     Cs[newname] = v
+        elif name in C_symm_keys[6]:
+            i, j, k, l = ind
+            for indnew in [(k, l, i, j), (k, j, i, l), (i, l, k, j)]:
+                newname = '_'.join([name, ''.join(indnew)])
+                if newname in wc_keys:
+                    Cs[newname] = v
+            for indnew in [(j, i, l, k), (l, k, j, i), (l, i, j, k), (j, k, l, i)]:
+                newname = '_'.join([name, ''.join(indnew)])
+                if newname in wc_keys:
+                    Cs[newname] = v.conjugate()
         elif name in C_symm_keys[71]:
             i, j, k, l = ind
             indnew = ''.join([j, i, k, l])
-- 
2.43.0


From 7e155181d92f1810af8e82a93d651ad69e945f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 29/32] fix: creating a WC advanced the global random
 generator, and its hash repeated when that was reseeded

---
 wilson/wcxf/classes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index d7665cc..58d2802 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -9,6 +9,8 @@ import subprocess
 from pandas import DataFrame
 import random
 
+_random = random.SystemRandom()
+
 # the following is necessary to get pretty representations of
 # OrderedDict and defaultdict instances in YAML
 def _represent_dict_order(self, data):
@@ -331,7 +333,9 @@ class WC(WCxf):
         self.values = values
         self._dict = None
         self._df = None
-        self._hash = hash(random.random())
+        # not using the global random generator, the state of which belongs to
+        # the user
+        self._hash = hash(_random.random())
         super().__init__()
         for k, v in kwargs.items():
             setattr(self, k, v)
-- 
2.43.0


From b4a3173acf47d8555362b931caa265b088acaa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:52 +0000
Subject: [PATCH 30/32] fix: do not fail on partial sets of coefficients in
 unscale_dict

symmetries.unscale_dict indexes every coefficient of the list of those
with an additional redundancy (qqql) without checking that it is there,
so that arrays2wcxf_nonred raised a KeyError for dictionaries that contain
only some of the coefficients.
---
 wilson/util/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/util/common.py b/wilson/util/common.py
index 78e358f..b666086 100644
--- a/wilson/util/common.py
+++ b/wilson/util/common.py
@@ -892,7 +892,8 @@ class EFTutil:
         C = self.pad_C(C)
         C = {k: self._scale_dict[k] * v for k, v in C.items()}
         for k in self.C_symm_keys.get(8, ()):
-            C[k] = self.unscale_8(C[k])
+            if k in C:
+                C[k] = self.unscale_8(C[k])
         C = self.unpad_C(C)
         return C
 
-- 
2.43.0


From 1a6426b6bae667ffce2d0c2637bdf50c971ebc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:20 +0000
Subject: [PATCH 31/32] fix: open the EOS parameter file only when the values
 are known

wcxf2eos --eoshome opened, and so emptied, EOSHOME/parameters/wcxf.yaml
before reading anything: an invalid input file destroyed the earlier
export, and if the Standard Model values are read from the same directory,
reading the empty file failed with an AttributeError.
---
 wilson/wcxf/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wilson/wcxf/cli.py b/wilson/wcxf/cli.py
index 1c095cc..4af7e23 100755
--- a/wilson/wcxf/cli.py
+++ b/wilson/wcxf/cli.py
@@ -139,9 +139,9 @@ def eos():
         if not os.path.isdir(output_dir):
             logging.error(f"Output directory {output_dir} does not exist")
             return 1
-        f = open(os.path.join(output_dir, 'wcxf.yaml'), 'w')
+        output_file = os.path.join(output_dir, 'wcxf.yaml')
     else:
-        f = args.output
+        output_file = None
     # read in & validate WCxf file
     wc = wcxf.WC.load(args.FILE)
     wc.validate()
@@ -149,6 +149,9 @@ def eos():
     sm_wc_dict = get_sm_wcs(os.path.join(args.eosprefix, 'share/eos', 'parameters'))
     # convert to EOS parameters
     eos_dict = wcxf2eos(wc, sm_wc_dict)
+    # the file is only opened now: it may be in the directory the SM values are
+    # read from and should be left alone if the input is invalid
+    f = args.output if output_file is None else open(output_file, 'w')
     yaml.dump(eos_dict, f, default_flow_style=False)
     f.close()
     return 0
-- 
2.43.0


From 09eb7e7f8f2cf6291ad68c0b00bc69bb2de74387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:16 +0000
Subject: [PATCH 32/32] fix: accept empty files among the EOS parameters

A parameter file without content (or with empty metadata) made reading the
directory fail with an AttributeError (TypeError).
---
 wilson/wcxf/converters/eos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/wcxf/converters/eos.py b/wilson/wcxf/converters/eos.py
index 9a91fca..40bd8e8 100644
--- a/wilson/wcxf/converters/eos.py
+++ b/wilson/wcxf/converters/eos.py
@@ -14,8 +14,8 @@ def get_sm_wcs(eos_parameter_dir):
     yamlfiles = glob.glob(os.path.join(eos_parameter_dir, '*.yaml'))
     for yamlfile in yamlfiles:
         with open(yamlfile) as f:
-            wcs = yaml.safe_load(f)
-        meta = wcs.get('@metadata@', {})
+            wcs = yaml.safe_load(f) or {}
+        meta = wcs.get('@metadata@') or {}
         if 'wcxf-relevant' in meta and meta['wcxf-relevant']:
             del wcs['@metadata@']
             all_wcs.update(wcs)
-- 
2.43.0

