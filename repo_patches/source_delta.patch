From c9e334a25dcee287245fa695c074d6022163557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 001/126] fix: NavIC L5 carrier frequency is 1176.45 MHz

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index f5bd40f..bcaaf6e 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -81,7 +81,7 @@ class rCST():
     FREQ_S5 = 1176.45e6      # [Hz] SBS L5
 
     FREQ_I1 = 1575.42e6      # [Hz] IRS L1
-    FREQ_I5 = 1191.795e6     # [Hz] IRS L5
+    FREQ_I5 = 1176.45e6     # [Hz] IRS L5
     FREQ_IS = 2492.028e6     # [Hz] IRS S
 
     COS_5 = 0.9961946980917456
-- 
2.43.0


From b6c097dcce4d2e08426d6c00933dc4db18f58327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 002/126] fix: GLONASS G2a is RINEX band 6 at 1248.06 MHz

---
 src/cssrlib/gnss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index bcaaf6e..5e1fb13 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -55,7 +55,7 @@ class rCST():
     FREQ_R2 = 1246.000e6     # [Hz] GLO G2   FDMA center frequency
     FREQ_R2k = 437.500e3     # [Hz] GLO G2   FDMA frequency separation
     FREQ_R1a = 1600.995e6    # [Hz] GLO G1a
-    FREQ_R2a = 1248.065e6    # [Hz] GLO G2a
+    FREQ_R2a = 1248.06e6     # [Hz] GLO G2a
     FREQ_R3 = 1202.025e6     # [Hz] GLO G3
 
     FREQ_E1 = 1575.42e6      # [Hz] GAL E1
@@ -574,7 +574,7 @@ class rSigRnx():
                 return rCST.FREQ_R3
             elif int(self.sig / 100) == 4:
                 return rCST.FREQ_R1a
-            elif int(self.sig / 100) == 5:
+            elif int(self.sig / 100) in (5, 6):
                 return rCST.FREQ_R2a
             else:
                 return None
-- 
2.43.0


From 25b144b8a548ae9bd43c3c44f85609d5a89ee6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 003/126] fix: check the tracking attribute of GPS L2 and L5
 codes

---
 src/cssrlib/gnss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 5e1fb13..143c1ad 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -477,8 +477,8 @@ class rSigRnx():
         if len(s) == 3:
             if sys == uGNSS.GPS:
                 if (s[1] == '1' and s[2] not in 'CSLXPWYM') or \
-                   (s[2] == '2' and s[2] not in 'CDSLXPWYMN') or \
-                   (s[2] == '5' and s[2] not in 'IQX'):
+                   (s[1] == '2' and s[2] not in 'CDSLXPWYMN') or \
+                   (s[1] == '5' and s[2] not in 'IQX'):
                     raise ValueError
             elif sys == uGNSS.GLO:
                 if (s[1] == '1' and s[2] not in 'CPX') or \
-- 
2.43.0


From 039b98684f7565dc93829d2d9faef2ca934f38c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 004/126] fix: QZSS L1C(P) mask bit selects signal L1L, not
 L1C/A

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 00800c3..c6f08ae 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -431,7 +431,7 @@ class cssr:
         qzs_tbl = {
             sSigQZS.L1C: uSIG.L1C,
             sSigQZS.L1S: uSIG.L1S,
-            sSigQZS.L1L: uSIG.L1C,
+            sSigQZS.L1L: uSIG.L1L,
             sSigQZS.L1X: uSIG.L1X,
             sSigQZS.L2S: uSIG.L2S,
             sSigQZS.L2L: uSIG.L2L,
-- 
2.43.0


From 1f26e20e66aafce86940e70667204554293368d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 005/126] fix: decode the compact SSR bias message without a
 network part

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index c6f08ae..601e0f1 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -807,7 +807,7 @@ class cssr:
             self.udi[sCType.PBIAS] = head['udi']
         ki = 0
         for k in range(self.nsat_n):
-            if not self.isset(v['svmaskn'], self.nsat_n, k):
+            if dfm['net'] and not self.isset(v['svmaskn'], self.nsat_n, k):
                 continue
             sat = self.sat_n[k]
             if dfm['cb']:
-- 
2.43.0


From 68314b8eab22687bf0dd00ae67ed454146e55ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 006/126] fix: quality index encoding no longer drops a step by
 rounding

---
 src/cssrlib/cssrlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 601e0f1..4e6a823 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1505,6 +1505,6 @@ class cssre():
         """ convert from quality to quality index (class, value) """
         n3 = np.log(3)
         n_ = np.log(y*1000+1)/n3
-        cls_ = int(n_)
-        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25)
+        cls_ = min(int(n_+1e-9), 7)
+        val_ = min(int((np.exp((n_-cls_)*n3)-1)/0.25+1e-6), 7)
         return cls_, val_
-- 
2.43.0


From 3eee6366f939b967bf901085cb6eca2a5581cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 007/126] fix: pass the grid latitude in radians to the mapping
 function model

---
 src/cssrlib/cssrlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 4e6a823..1aec83b 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -931,7 +931,7 @@ class cssr:
         
         grid = self.grid[self.grid['nid'] == inet]
         if len(grid)>0:
-            ah, aw = mapfParam(self.time, grid['lat'][0])
+            ah, aw = mapfParam(self.time, np.deg2rad(grid['lat'][0]))
             self.lc[inet].maph = ah
             self.lc[inet].mapw = aw
 
@@ -1060,7 +1060,7 @@ class cssr:
             self.udi[sCType.TROP] = head['udi']
 
             grid = self.grid[self.grid['nid'] == inet]
-            ah, aw = mapfParam(self.time, grid['lat'][0])
+            ah, aw = mapfParam(self.time, np.deg2rad(grid['lat'][0]))
             self.lc[inet].maph = ah
             self.lc[inet].mapw = aw
 
-- 
2.43.0


From 45c645d292efca13c04d18fa35558114089537b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 008/126] fix: use the STEC residuals of the compact SSR grid
 message

---
 src/cssrlib/cssrlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 1aec83b..d64f1ad 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -948,10 +948,11 @@ class cssr:
         self.lc[inet].s_sz = {}
         
         for sat in self.lc[inet].sat_n:
-            self.lc[inet].dstec[sat] = {}
+            self.lc[inet].dstec[sat] = np.zeros(ng)
             self.lc[inet].s_sz[sat] = sz
 
         self.lc[inet].flg_trop = 3 if dfm['ttype'] > 0 else 0
+        self.lc[inet].flg_stec |= 1  # stec residual term
 
         for j in range(ng):
             if dfm['ttype'] > 0:
-- 
2.43.0


From 55c729baafcd74afadd7f4780e316acc812c98f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 009/126] fix: do not accumulate the orbit correction rate in
 the stored correction

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 5a1c699..8b2b744 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -356,7 +356,7 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
 
-                dorb += cs.lc[0].dvel[sat] * \
+                dorb = dorb + cs.lc[0].dvel[sat] * \
                     (timediff(t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
@@ -588,7 +588,7 @@ def satposs(obs, nav, cs=None, orb=None):
                 dorb = cs.lc[0].dorb[sat]  # radial,along-track,cross-track
 
                 if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                    dorb += cs.lc[0].dvel[sat] * \
+                    dorb = dorb + cs.lc[0].dvel[sat] * \
                         (timediff(obs.t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
-- 
2.43.0


From 27c397da8a8893e8877737428f36945e2ce127cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 010/126] fix: rates of the second harmonic corrections in the
 satellite velocity

---
 src/cssrlib/ephemeris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 8b2b744..70bfde9 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -214,7 +214,7 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
         qq = np.array([si*sOmg, -si*cOmg, ci])
         Ed = n/nue
         nud = np.sqrt(1.0-eph.e**2)/nue*Ed
-        h2d = 2.0*nud*np.array([-h[1], h[0]])
+        h2d = 2.0*nud*np.array([-h2[1], h2[0]])
         ud = nud+np.array([eph.cuc, eph.cus])@h2d
         rd = Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
 
-- 
2.43.0


From 719a83a6562b5317f1c80f34a5fa5a30a7121bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 011/126] fix: include the semi-major axis and mean motion
 rates in the satellite velocity

---
 src/cssrlib/ephemeris.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 70bfde9..26a6c76 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -212,11 +212,15 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
 
     if flg_v:  # satellite velocity
         qq = np.array([si*sOmg, -si*cOmg, ci])
+        if eph.mode > 0:
+            n += 0.5*dt*eph.delnd
         Ed = n/nue
         nud = np.sqrt(1.0-eph.e**2)/nue*Ed
         h2d = 2.0*nud*np.array([-h2[1], h2[0]])
         ud = nud+np.array([eph.cuc, eph.cus])@h2d
         rd = Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
+        if eph.mode > 0:
+            rd += eph.Adot*nue
 
         hd = np.array([-h[1], h[0]])
         xod = rd*h+(r*ud)*hd
-- 
2.43.0


From 7fc9f307c826117b2544ce88e16150e532dc7092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 012/126] fix: satellite velocity of BeiDou GEO satellites

---
 src/cssrlib/ephemeris.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 26a6c76..3348699 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -189,7 +189,8 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
     si = np.sin(inc)
     ci = np.cos(inc)
 
-    if sys == uGNSS.BDS and (prn <= 5 or prn >= 59):  # BDS GEO
+    geo = sys == uGNSS.BDS and (prn <= 5 or prn >= 59)
+    if geo:  # BDS GEO
         Omg = eph.OMG0+eph.OMGd*dt-omge*eph.toes
         sOmg = np.sin(Omg)
         cOmg = np.cos(Omg)
@@ -225,12 +226,17 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
         hd = np.array([-h[1], h[0]])
         xod = rd*h+(r*ud)*hd
         incd = eph.idot+np.array([eph.cic, eph.cis])@h2d
-        omegd = eph.OMGd-omge
+        omegd = eph.OMGd if geo else eph.OMGd-omge
 
         pd = np.array([-p[1], p[0], 0])*omegd
         qd = np.array([-q[1], q[0], 0])*omegd+qq*incd
 
         vs = xo@np.array([pd, qd])+xod@np.array([p, q])
+        if geo:  # rotate to ECEF
+            Md = omge*np.array([[-so, co*rCST.COS_5, co*rCST.SIN_5],
+                                [-co, -so*rCST.COS_5, -so*rCST.SIN_5],
+                                [0.0, 0.0, 0.0]])
+            vs = Mo@vs+Md@rg
         return rs, vs, dts
 
     return rs, dts
-- 
2.43.0


From c9d7fcb7252852981cba1b37fef13940535ada0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 013/126] fix: no group delay of another satellite for GLONASS
 in single-frequency standalone mode

---
 src/cssrlib/ephemeris.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 3348699..1d2c053 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -483,8 +483,8 @@ def satpos(sat, t, nav, cs=None, orb=None):
                                sc.DGPS) and sys == uGNSS.GPS:
                 dts[i] -= eph.tgd
 
-        elif nav.smode == 1 and nav.nf == 1:  # standalone positioning
-            dts[i] -= eph.tgd
+        elif nav.smode == 1 and nav.nf == 1 and sys != uGNSS.GLO:
+            dts[i] -= eph.tgd  # standalone positioning
 
     if cs is not None:
         if sat in cs.lc[0].t0 and sCType.ORBIT in cs.lc[0].t0[sat]:
@@ -734,8 +734,8 @@ def satposs(obs, nav, cs=None, orb=None):
                 nav.dorb[sat] = dorb_
                 nav.dclk[sat] = dclk
 
-            elif nav.smode == 1 and nav.nf == 1:  # stand-alone positioning
-                dts[i] -= eph.tgd
+            elif nav.smode == 1 and nav.nf == 1 and sys != uGNSS.GLO:
+                dts[i] -= eph.tgd  # stand-alone positioning
 
             nsat += 1
 
-- 
2.43.0


From 7c99969c933325669398b00f90bc15c4042f39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 014/126] fix: a satellite without clock correction is
 unavailable instead of a KeyError

---
 src/cssrlib/ephemeris.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 1d2c053..00e8eb7 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -371,6 +371,9 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
 
+                if sat not in cs.lc[0].dclk.keys():
+                    return rs, vs, dts, svh
+
                 if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
                     dclk = cs.lc[0].dclk[sat]
                 elif cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p[sat]:
@@ -395,6 +398,9 @@ def satpos(sat, t, nav, cs=None, orb=None):
                     else:
                         return rs, vs, dts, svh
 
+                if sat not in cs.lc[0].dclk.keys():
+                    return rs, vs, dts, svh
+
                 dclk = cs.lc[0].dclk[sat]
 
                 if cs.lc[0].cstat & (1 << sCType.HCLOCK) and \
@@ -603,6 +609,9 @@ def satposs(obs, nav, cs=None, orb=None):
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
 
+                    if sat not in cs.lc[0].dclk.keys():
+                        continue
+
                     if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
                         dclk = cs.lc[0].dclk[sat]
                     else:
-- 
2.43.0


From 4fc7bb7ae01e8c3894b524bc3e750aa81e1a6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 015/126] fix: options given to one positioning object no
 longer change the shared default configuration

---
 src/cssrlib/pppssr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4c7bc59..420107a 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -2,6 +2,7 @@
 module for standard PPP positioning
 """
 
+from copy import deepcopy
 import numpy as np
 
 from cssrlib.ephemeris import satposs
@@ -37,6 +38,7 @@ class pppos():
 
         if config is None:
             config = default_config
+        config = deepcopy(config)
 
         if trop_opt > 0:
             config['nav']['trop_opt'] = trop_opt
-- 
2.43.0


From 6258393864b739112b4218188c4c580e0fab3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 016/126] fix: options given as 0 (use the model) are no longer
 ignored

---
 src/cssrlib/pppssr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 420107a..b3639bb 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -40,11 +40,11 @@ class pppos():
             config = default_config
         config = deepcopy(config)
 
-        if trop_opt > 0:
+        if trop_opt >= 0:
             config['nav']['trop_opt'] = trop_opt
-        if iono_opt > 0:
+        if iono_opt >= 0:
             config['nav']['iono_opt'] = iono_opt
-        if phw_opt > 0:
+        if phw_opt >= 0:
             config['nav']['phw_opt'] = phw_opt
 
         self.nav = nav
-- 
2.43.0


From 799f169b9ae4fe4bf2268412469898cbff1b10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 017/126] fix: index of the troposphere state without
 ionosphere states

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index b3639bb..7e4f12a 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -261,7 +261,7 @@ class pppos():
 
     def IT(self, na):
         """ return index of zenith tropospheric delay estimate """
-        return na-uGNSS.MAXSAT-1
+        return na-self.nav.niono-1
 
     def varerr(self, nav, el, f):
         """ variation of measurement """
-- 
2.43.0


From 8ad58f02dae70052dac66619fd508cb666147b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 018/126] fix: process noise of the first ionosphere state
 without a troposphere state

---
 src/cssrlib/pppssr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 7e4f12a..fa7ad41 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -206,10 +206,8 @@ class pppos():
 
         if self.nav.iono_opt == 1:  # iono is estimated
             # Iono delay
-            if self.nav.pmode >= 1:  # kinematic
-                self.nav.q[7:7+uGNSS.MAXSAT] = self.nav.sig_qion**2
-            else:
-                self.nav.q[4:4+uGNSS.MAXSAT] = self.nav.sig_qion**2
+            i0 = self.nav.na-uGNSS.MAXSAT
+            self.nav.q[i0:self.nav.na] = self.nav.sig_qion**2
 
         # ambiguity
         if self.nav.pmode >= 1:  # kinematic
-- 
2.43.0


From d4443b57c3240cb4e6e7aa929d846233ec8bef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 019/126] fix: the ambiguity process noise was never applied

---
 src/cssrlib/pppssr.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index fa7ad41..315ba10 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -87,14 +87,13 @@ class pppos():
         self.nav.niono = (uGNSS.MAXSAT if self.nav.iono_opt == 1 else 0)
 
         self.nav.na = (3 if self.nav.pmode == 0 else 6)
-        self.nav.nq = (3 if self.nav.pmode == 0 else 6)
 
         self.nav.na += self.nav.ntrop + self.nav.niono
-        self.nav.nq += self.nav.ntrop + self.nav.niono
 
         # State vector dimensions (including slant iono delay and ambiguities)
         #
         self.nav.nx = self.nav.na+uGNSS.MAXSAT*self.nav.nf
+        self.nav.nq = self.nav.nx
 
         self.nav.x = np.zeros(self.nav.nx)
         self.nav.P = np.zeros((self.nav.nx, self.nav.nx))
@@ -210,12 +209,7 @@ class pppos():
             self.nav.q[i0:self.nav.na] = self.nav.sig_qion**2
 
         # ambiguity
-        if self.nav.pmode >= 1:  # kinematic
-            self.nav.q[7+uGNSS.MAXSAT:7 +
-                       (uGNSS.MAXSAT*self.nav.nf+1)] = self.nav.sig_qb**2
-        else:
-            self.nav.q[4+uGNSS.MAXSAT:4 +
-                       (uGNSS.MAXSAT*self.nav.nf+1)] = self.nav.sig_qb**2
+        self.nav.q[self.nav.na:self.nav.nx] = self.nav.sig_qb**2
 
         # Logging level
         #
-- 
2.43.0


From 8c5aff3794f44811b6d0f51b2162e8f8fa2eafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 020/126] fix: GLONASS ambiguities of two satellites have
 different wavelengths

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 315ba10..03de493 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -954,7 +954,7 @@ class pppos():
 
                         H[nv, idx_i] = +lami
                         H[nv, idx_j] = -lamj
-                        v[nv] -= lami*(x[idx_i] - x[idx_j])
+                        v[nv] -= lami*x[idx_i] - lamj*x[idx_j]
 
                         # measurement variance
                         Ri[nv] = self.varerr(self.nav, el[i], f)
-- 
2.43.0


From 3378a3d65e6abf6f89ecf973acdcc4ce88900b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 021/126] fix: geometry-free combination of the last satellite
 number is out of range

---
 src/cssrlib/pppssr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 03de493..897c452 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1344,14 +1344,14 @@ class pppos():
                 if L1R != 0.0 and L2R != 0.0:
                     gf1 = (L1R*lam1-L2R*lam2)
                     if rr is None:  # rover
-                        gf0 = self.nav.gf[sat_i]
+                        gf0 = self.nav.gf[i]
                     else:  # base
-                        gf0 = self.nav.gf_r[sat_i]
+                        gf0 = self.nav.gf_r[i]
                     if gf1 != 0.0:
                         if rr is None:  # rover
-                            self.nav.gf[sat_i] = gf1
+                            self.nav.gf[i] = gf1
                         else:  # base
-                            self.nav.gf_r[sat_i] = gf1
+                            self.nav.gf_r[i] = gf1
                     if gf0 != 0.0 and gf1 != 0.0 and \
                             abs(gf1-gf0) > self.nav.thresslip:
                         self.nav.edt[i, 0:2] = 1
-- 
2.43.0


From da2bb3eba9fdf3497c7aac16497e0d4e52bfd28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 022/126] fix: skip satellites without antenna correction in
 the residuals

---
 src/cssrlib/pppssr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 897c452..b5274c6 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -738,7 +738,9 @@ class pppos():
                                                     sc.PVS_PPP):
                 
                 ants = antModelTx(self.nav, e[i, :], (sigsPR + sigsCP),
-                                  sat, obs.t, rs[i, :], sig0)                
+                                  sat, obs.t, rs[i, :], sig0)
+                if ants is None:
+                    continue
                 antsPR = ants[0:len(sigsPR)]
                 antsCP = ants[len(sigsPR):]
 
@@ -752,6 +754,9 @@ class pppos():
             if antrPR is None or antrCP is None or \
                antsPR is None or antsCP is None:
                 continue
+            if np.isnan(np.concatenate((antrPR, antrCP,
+                                        antsPR, antsCP))).any():
+                continue
 
             # Range correction
             #
-- 
2.43.0


From b82585dfe8254e3ae790015c8ff9197c40e3dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 023/126] fix: room for the ambiguity pairs of all frequencies

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index b5274c6..66ae875 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1075,7 +1075,7 @@ class pppos():
         nb = 0
         n = uGNSS.MAXSAT
         na = nav.na
-        ix = np.zeros((n, 2), dtype=int)
+        ix = np.zeros((n*nav.nf, 2), dtype=int)
         nav.fix = np.zeros((n, nav.nf), dtype=int)
         for m in range(uGNSS.GNSSMAX):
             k = na
-- 
2.43.0


From 6bebff87cd3dc1a4b99030458d7aa05d72645384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 024/126] fix: HAS corrections of a mask that was not received
 are not applied

---
 src/cssrlib/cssr_has.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index e9577f4..9dde0e1 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -101,6 +101,10 @@ class cssr_has(cssr):
             print(f"invalid TOH={self.toh}")
             return False
 
+        # corrections refer to the satellites and signals of their mask
+        if not (flags >> 5) & 1 and mask_id != self.mask_id:
+            return False
+
         if (flags >> 5) & 1:  # mask block
             self.mask_id = mask_id
             self.subtype = sCSSR.MASK
-- 
2.43.0


From 19511f1cf3a074cb4685e12d5d2b7f598b825bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 025/126] fix: decode the HAS clock subset block

---
 src/cssrlib/cssr_has.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 9dde0e1..0f6417b 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -9,7 +9,7 @@ Galileo HAS correction data decoder
 import numpy as np
 import bitstruct as bs
 import galois
-from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE
+from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, sCType
 from cssrlib.gnss import gpst2time
 from binascii import unhexlify
 
@@ -41,20 +41,26 @@ class cssr_has(cssr):
         if self.iodssr != head['iodssr']:
             return -1
 
+        if self.lc[0].dclk is None:
+            self.lc[0].dclk = {}
+
         nclk_sub = bs.unpack_from('u4', msg, i)[0]
         i += 4
         for j in range(nclk_sub):
             gnss, dcm = bs.unpack_from('u4u2', msg, i)
             i += 6
-            idx_s = np.where(np.array(self.gnss_n) == gnss)
-            mask_s = bs.unpack_from('u'+str(self.nsat_g[gnss]), msg, i)[0]
-            i += self.nsat_g[gnss]
-            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss])
+            sat_s = [self.sat_n[k] for k in range(self.nsat_n)
+                     if self.gnss_n[k] == gnss]
+            if len(sat_s) == 0:
+                return -1
+            mask_s = bs.unpack_from('u'+str(len(sat_s)), msg, i)[0]
+            i += len(sat_s)
+            idx, nclk = self.decode_mask(mask_s, len(sat_s), 0)
+            self.dcm[self.gnss2sys(gnss)] = dcm+1.0
             for k in range(nclk):
-                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i) \
-                    * self.dclk_scl*(dcm+1)
-                self.lc[0].dclk[idx_s[idx[k]]] = dclk
-                i += self.dclk_blen
+                sat = sat_s[idx[k]]
+                i = self.decode_clk_sat(msg, i, sat)
+                self.set_t0(0, sat, sCType.CLOCK, self.time)
         return i
 
     def decode_head(self, msg, i, st=-1):
-- 
2.43.0


From 6f647366d67d39fe99900d37f040acbf97947f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 026/126] fix: HAS phase biases are in cycles, not metres

---
 src/cssrlib/cssr_has.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 0f6417b..94b1c8a 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -35,6 +35,12 @@ class cssr_has(cssr):
         y = np.nan if u == invalid or u == dnu else u*scl
         return y
 
+    def decode_pbias_sat(self, msg, i, sat, rsig, inet=0):
+        """ decode phase bias given in cycles of the signal """
+        i = super().decode_pbias_sat(msg, i, sat, rsig, inet)
+        self.lc[inet].pbias[sat][rsig] *= rsig.wavelength()
+        return i
+
     def decode_cssr_clk_sub(self, msg, i=0):
         head, i = self.decode_head(msg, i)
         self.flg_net = False
-- 
2.43.0


From e2c03fe61ad88cddeb0dfc57b35051ef5227ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 027/126] fix: decode a HAS message from the first sufficient
 set of pages

---
 src/cssrlib/cssr_has.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 94b1c8a..ec0fbca 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -178,8 +178,9 @@ class cnav_msg():
     def decode_has_page(self, idx, has_pages, gMat, ms):
         """ HPVRS decoding for RS(255,32,224) """
         HASmsg = bytes()
-        k = len(idx)
-        if k >= ms:
+        k = ms
+        if len(idx) >= ms:
+            idx = idx[:ms]
             Wd = self.GF(has_pages[idx, :])  # kx53
             Dinv = np.linalg.inv(self.GF(gMat[idx, :k]))  # kxk
             Md = Dinv@Wd  # decoded message (kx53)
-- 
2.43.0


From 46c9426e5d51aa9384a91cd34a5e0b6c4666007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 028/126] fix: restart the HAS page timeout for every message

---
 src/cssrlib/cssr_has.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index ec0fbca..f51ac4d 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -215,6 +215,7 @@ class cnav_msg():
 
             if self.mid_ == -1 and mid not in self.mid_decoded:
                 self.mid_ = mid
+                self.icnt = 0
                 self.ms_ = ms
             if mid == self.mid_ and pid-1 not in self.rec:
                 page = bs.unpack_from('u8'*53, buff, i)
-- 
2.43.0


From fd628c4843509bffc6936e36ff0432d44b887bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 029/126] fix: skip the B2b code biases of a satellite outside
 the mask

---
 src/cssrlib/cssr_bds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index e64ff58..53d986b 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -250,6 +250,7 @@ class cssr_bds(cssr):
             sys, prn = self.slot2prn(slot)
             sat = prn2sat(sys, prn)
             if sat not in sat_n:
+                i += nsig*(4+self.cb_blen)
                 continue
             if sat not in self.lc[inet].t0:
                 self.lc[inet].t0[sat] = {}
-- 
2.43.0


From 5c959b50443acc87289035a8fdf64a3444814067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 030/126] fix: ignore the B2b URA of another mask

---
 src/cssrlib/cssr_bds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 53d986b..4cd062b 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -319,6 +319,9 @@ class cssr_bds(cssr):
 
         iodp, st2 = bs.unpack_from('u4u3', msg, i)
         i += 7
+        if iodp != self.iodp:
+            i += 70*6
+            return i
 
         for k in range(70):
             v = bs.unpack_from_dict('u3u3', ['class', 'val'], msg, i)
-- 
2.43.0


From 739ff88291101a6fa3b664fd419bad726de46193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 031/126] fix: decode the B2b combined clock and orbit messages

---
 src/cssrlib/cssr_bds.py | 42 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 4cd062b..5be7f83 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -338,20 +338,29 @@ class cssr_bds(cssr):
     def decode_cssr_comb1(self, msg, i, inet=0):
         """decode MT6 combined message #1 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
+        i += 8
         sat_n = np.array(self.sat_n)
 
         if numc > 0:
-            tod, _, iodssr, iodp, slot_s = \
-                bs.unpack_from('u17u4u2u4u9', msg, i)
-            i += 36
-            for k in range(numc):
-                idx = slot_s+k
-                sat = self.sat_n[idx]
-                i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+            head, i = self.decode_head(msg, i)
+            iodp, slot_s = bs.unpack_from('u4u9', msg, i)
+            i += 13
+            if head['iodssr'] != self.iodssr or iodp != self.iodp:
+                i += numc*(3+self.dclk_blen)
+            else:
+                for k in range(numc):
+                    idx = slot_s+k
+                    if idx >= self.nsat_n:
+                        i += 3+self.dclk_blen
+                        continue
+                    sat = self.sat_n[idx]
+                    i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+                    self.set_t0(inet, sat, sCType.CLOCK, self.time)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
+            if head['iodssr'] != self.iodssr:
+                return -1
             for k in range(numo):
                 i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
 
@@ -360,21 +369,26 @@ class cssr_bds(cssr):
     def decode_cssr_comb2(self, msg, i, inet=0):
         """decode MT7 combined message #2 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
+        i += 8
         sat_n = np.array(self.sat_n)
 
         if numc > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
             for k in range(numc):
-                slot = bs.unpack_from('u9', msg, i)
+                slot = bs.unpack_from('u9', msg, i)[0]
                 i += 9
                 sys, prn = self.slot2prn(slot)
                 sat = prn2sat(sys, prn)
+                if head['iodssr'] != self.iodssr or sat not in sat_n:
+                    i += 3+self.dclk_blen
+                    continue
                 i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+                self.set_t0(inet, sat, sCType.CLOCK, self.time)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
+            if head['iodssr'] != self.iodssr:
+                return -1
             for k in range(numo):
                 i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
 
-- 
2.43.0


From 40fca229aca9a5664cff5d83441227c0c334ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 032/126] fix: areas of QZSS MADOCA west of Greenwich

---
 src/cssrlib/cssr_mdc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 30c1b11..da9f443 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -59,6 +59,10 @@ class cssr_mdc(cssr):
             self.lc[inet].nsat_n = 0
             self.lc[inet].t0 = {}
 
+    def diff_lon(self, lon, lonr):
+        """ difference of longitudes within +/-180 deg """
+        return (lon-lonr+540.0) % 360.0-180.0
+
     def find_grid_index(self, pos):
         """ find region/area   """
 
@@ -70,13 +74,13 @@ class cssr_mdc(cssr):
                 p = self.pnt[reg][area]
                 if p.sid == 0:  # rectangle shape:
                     if p.latr-p.lats <= latd and latd <= p.latr+p.lats and \
-                            p.lonr-p.lons <= lond and lond <= p.lonr+p.lons:
+                            abs(self.diff_lon(lond, p.lonr)) <= p.lons:
                         self.reg = reg
                         self.area = area
                         break
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
-                    de = (lond - p.lonr)*rCST.D2R * \
+                    de = self.diff_lon(lond, p.lonr)*rCST.D2R * \
                         rCST.RE_WGS84*np.cos(p.lonr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
                     if r <= p.rng:
@@ -96,7 +100,7 @@ class cssr_mdc(cssr):
         latd, lond = np.rad2deg(pos[0:2])
         p = self.pnt[self.reg][self.area]
         dlat = latd - p.latr
-        dlon = lond - p.lonr
+        dlon = self.diff_lon(lond, p.lonr)
 
         return dlat, dlon
 
-- 
2.43.0


From 2543af89f075ad406be98c8307f0ce1173013ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 033/126] fix: distance from the centre of a circular QZSS
 MADOCA area

---
 src/cssrlib/cssr_mdc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index da9f443..f3a2046 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -81,9 +81,9 @@ class cssr_mdc(cssr):
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
                     de = self.diff_lon(lond, p.lonr)*rCST.D2R * \
-                        rCST.RE_WGS84*np.cos(p.lonr*rCST.D2R)
+                        rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
-                    if r <= p.rng:
+                    if r <= p.rng*1e3:
                         self.reg = reg
                         self.area = area
                         break
-- 
2.43.0


From 4d4844425e320f89a3cea6edf8ec7f39dd58ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 034/126] fix: read the UDREI of a partly filled SBAS fast
 correction block at their place

---
 src/cssrlib/sbas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 625aa4b..d14b3f9 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -439,14 +439,14 @@ class sbasDec(cssr):
             i += 12
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.lc[0].hclk[self.sat[j]] = -self.sval(fc, 12, 0.125)
         for k in range(n):
             udrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.obad.udrei[self.sat[j]] = udrei
             self.set_t0(sat=self.sat[j], ctype=sCType.HCLOCK, t=self.time)
 
-- 
2.43.0


From 82fc4d9fa16e40fb1cff78b956e60aded943e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 035/126] fix: long-term half of the SBAS mixed correction
 message follows its issue fields

---
 src/cssrlib/sbas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index d14b3f9..692fc2f 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -685,6 +685,7 @@ class sbasDec(cssr):
             return i
 
         i = self.decode_sbas_fast_corr_blk(msg, i, 6, type_)
+        i += 10
         i = self.decode_sbas_lcorr_half(msg, i)  # MT25 half-msg(106bits)
         return i
 
-- 
2.43.0


From 7a1559a9cce65f1f18208271bb4e258851d419fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 036/126] fix: skip a SBAS long-term half message of another
 mask

---
 src/cssrlib/sbas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 692fc2f..3e3d935 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -648,6 +648,7 @@ class sbasDec(cssr):
         ofst = 102 if vc == 0 else 103
         iodp = bs.unpack_from('u2', msg, i+ofst)[0]
         if iodp != self.iodp:
+            i += 105
             return i
 
         if vc == 0:
-- 
2.43.0


From f18bbdec2cb35e858d1f7afa57debe40641f0b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 037/126] fix: SBAS long-term corrections and covariances name
 satellites by their place in the mask

---
 src/cssrlib/sbas.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 3e3d935..0ebc6a2 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -613,10 +613,16 @@ class sbasDec(cssr):
 
         return i
 
+    def mask2sat(self, n):
+        """ convert from PRN mask number (1-51) to satellite number """
+        return self.sat[n-1] if n >= 1 and n <= len(self.sat) else 0
+
     def add_sbas_corr(self, slot, iodn, dx, dy, dz, db,
                       dxd=0, dyd=0, dzd=0, dbd=0):
         """ add SBAS long-term correction """
-        sat = self.slot2sat(slot)
+        sat = self.mask2sat(slot)
+        if sat == 0:
+            return sat
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
@@ -781,7 +787,9 @@ class sbasDec(cssr):
             slot = bs.unpack_from('u6', msg, i)[0]
             i += 6
             i, C, scl = self.decode_cov(msg, i)
-            sat = self.sat[slot]
+            sat = self.mask2sat(slot)
+            if sat == 0:
+                continue
             self.obad.cov[sat] = C
             self.obad.scl[sat] = scl
 
-- 
2.43.0


From 8f126de6539e5ff472e6e135fe448f62a2e1c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 038/126] fix: time of the SBAS almanac is at the end of the
 message

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 0ebc6a2..ecd3e05 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -561,7 +561,7 @@ class sbasDec(cssr):
     def decode_sbas_almanac(self, msg, i):
         """ Type 17 GEO almanac message """
 
-        ta = bs.unpack_from('u11', msg, 201)[0]*64.0
+        ta = bs.unpack_from('u11', msg, i+201)[0]*64.0
         t0 = tod2tow(ta, self.time)
 
         for k in range(3):
-- 
2.43.0


From 66d1aaf8ed1cc278066ae5bc257a8a76664ecfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 039/126] fix: clear the SBAS ionospheric delays when the grid
 mask changes

---
 src/cssrlib/sbas.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index ecd3e05..230c5ec 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -601,16 +601,15 @@ class sbasDec(cssr):
             if bs.unpack_from('u1', msg, i+k)[0] == 1:
                 idx.append(k)
         i += 201+1
-        self.igp_idx[band] = idx
-        self.iodi = iodi
         ngp = len(idx)
 
-        if band not in self.vtec:
+        if band not in self.vtec or self.igp_idx[band] != idx:
             self.vtec[band] = np.zeros(ngp)
-
-        if band not in self.givei:
             self.givei[band] = np.zeros(ngp, dtype=int)
 
+        self.igp_idx[band] = idx
+        self.iodi = iodi
+
         return i
 
     def mask2sat(self, n):
-- 
2.43.0


From 8201c7289da6d9972400d36553c63d083883add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 040/126] fix: do not use SBAS grid points that are not
 monitored

---
 src/cssrlib/sbas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 230c5ec..f097297 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -132,7 +132,8 @@ def searchIGP(t, posp, cs):
             if len(idx) == 0:
                 continue
             k = idx[0]
-            if len(cs.givei[band]) < k or cs.givei[band][k] <= 0:
+            if len(cs.givei[band]) <= k or cs.givei[band][k] <= 0 or \
+                    cs.givei[band][k] >= 15 or np.isnan(cs.vtec[band][k]):
                 continue
             igp[i] = [cs.vtec[band][k], cs.givei[band][k]]
             cs.inet = band+1
-- 
2.43.0


From 0b4533fa99a3d75b199bd0b2d6d5f865ba08bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 041/126] fix: no SBAS ionospheric delay below the horizon

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index f097297..a3b9a7d 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -154,7 +154,7 @@ def ionoSBAS(t, pos, az, el, cs):
     idx_t = [[1, 2, 0], [0, 3, 2], [0, 3, 1], [1, 2, 3]]
 
     if pos[2] < -100.0 or el <= 0.0:
-        return None
+        return diono, var
 
     # ipp (ionospheric pierce point) position and slant factor
     sf, posp = ionppp(pos, az, el, re, hion)
-- 
2.43.0


From 9de8933e5a93b1ea74e41c6c125ab927b50e8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 042/126] fix: every region of a SBAS service message has its
 own shape

---
 src/cssrlib/sbas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index a3b9a7d..c7b358a 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -52,7 +52,7 @@ class SBASService():
         self.lon1 = np.zeros(5)
         self.lat2 = np.zeros(5)
         self.lon2 = np.zeros(5)
-        self.shape = 0
+        self.shape = np.zeros(5, dtype=int)
 
 
 class paramOBAD():
@@ -749,15 +749,16 @@ class sbasDec(cssr):
         self.sinfo.dUDRE_out = dudre2
 
         for k in range(5):
-            lat1, lon1, lat2, lon2 = bs.unpack_from('s8s9s8s9', msg, i)
-            i += 34
+            lat1, lon1, lat2, lon2, shape = bs.unpack_from(
+                's8s9s8s9u1', msg, i)
+            i += 35
             self.sinfo.lat1[k] = lat1
             self.sinfo.lon1[k] = lon1
             self.sinfo.lat2[k] = lat2
             self.sinfo.lon2[k] = lon2
+            self.sinfo.shape[k] = shape
 
-        self.sinfo.shape = bs.unpack_from('u1', msg, i)[0]
-        i += 16
+        i += 15
 
         return i
 
-- 
2.43.0


From ec305d372ee99829d0b0aaa27431d67857e03909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 043/126] fix: E24 element of the SBAS covariance

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index c7b358a..212fd71 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -770,7 +770,7 @@ class sbasDec(cssr):
 
         scl = 2**(scale-5)
         R = np.array([[E11, E12, E13, E14],
-                      [0, E22, E23, E23],
+                      [0, E22, E23, E24],
                       [0,   0, E33, E34],
                       [0,   0,   0, E44]])*scl
         C = R.T@R
-- 
2.43.0


From d19da8d4d3920108cc6deb0c83a275e44f0465a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 044/126] fix: DFMC SBAS integrity messages

---
 src/cssrlib/sbas.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 212fd71..c55646e 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -866,18 +866,17 @@ class sbasDec(cssr):
             i += 4
 
         k = 0
-        for j in range(self.nsat):
+        for j in range(min(self.nsat, 92)):
             sat = self.sat_n[j]
             if dfreci[j] == 1:
                 if k < 7:
-                    self.dfrei[sat] = dfrei[k]
+                    self.obad.dfrei[sat] = dfrei[k]
                     k += 1
             elif dfreci[j] == 2:
-                self.dfrei[sat] += 1
-                if self.dfrei[sat] > 14:
-                    self.dfrei[sat] = 14
+                if sat in self.obad.dfrei and self.obad.dfrei[sat] < 14:
+                    self.obad.dfrei[sat] += 1
             elif dfreci[j] == 3:  # DNU
-                self.dfrei[sat] = 15
+                self.obad.dfrei[sat] = 15
 
         i += 4
         return i
@@ -890,7 +889,9 @@ class sbasDec(cssr):
             return i
 
         for k in range(53):
-            self.dfrei[k] = bs.unpack_from('u4', msg, i)[0]
+            if k < self.nsat:
+                self.obad.dfrei[self.sat_n[k]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
 
         i += 4
@@ -903,8 +904,10 @@ class sbasDec(cssr):
             i += 216
             return i
 
-        for k in range(39):
-            self.dfrei[k+53] = bs.unpack_from('u4', msg, i)[0]
+        for k in range(53, 92):
+            if k < self.nsat:
+                self.obad.dfrei[self.sat_n[k]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
         i += 60
         return i
-- 
2.43.0


From 3a96f750395ac2c1e10c928837b06c6872550d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 045/126] fix: issue of the mask of DFMC SBAS integrity
 messages is at the end of the message

---
 src/cssrlib/sbas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index c55646e..de5e154 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -850,7 +850,7 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt34(self, msg, i):
         """ Types 34 integrity message (indexed) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
@@ -883,7 +883,7 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt35(self, msg, i):
         """ Types 35 integrity message (for #1-53) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
@@ -899,7 +899,7 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt36(self, msg, i):
         """ Types 36 integrity message (for #54-92) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
-- 
2.43.0


From 341d3f1dd1a09fc1bf5401bc95994b56798bb443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 046/126] fix: DFMC SBAS ephemeris is that of the SBAS
 satellite

---
 src/cssrlib/sbas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index de5e154..e2a2385 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -960,13 +960,13 @@ class sbasDec(cssr):
         i += 41
         self.iodg = iodg
 
-        sat = self.slot2sat(slotd)
+        sat = self.slot2sat(slotd+119)
         eph = Eph(sat)
         eph.cuc = self.sval(cuc, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.cus = self.sval(cus, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.idot = self.sval(idot, 22, 7/6*rCST.SC2RAD*rCST.P2_21*1e-6)
         eph.omg = self.sval(omg, 34, rCST.SC2RAD*rCST.P2_33)
-        eph.Omg0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
+        eph.OMG0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
         eph.M0 = self.sval(M0, 34, rCST.SC2RAD*rCST.P2_33)
 
         eph.af0 = self.sval(af0, 25, 0.02/rCST.CLIGHT)  # [m] -> [s]
@@ -990,7 +990,7 @@ class sbasDec(cssr):
         eph = self.Eph
         eph.i0 = i0*rCST.SC2RAD*rCST.P2_33
         eph.e = e*rCST.P2_30
-        eph.a = a*0.02
+        eph.A = a*0.02
 
         eph.toe = tod2tow(te*16.0, self.time)
         eph.toc = eph.toe
-- 
2.43.0


From 29fa41dfab9ad75e710fba7f8d0b4b131a03b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 047/126] fix: rate of the ascending node of the DFMC SBAS
 almanac

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index e2a2385..37d5bff 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -1026,7 +1026,7 @@ class sbasDec(cssr):
             alm.i0 = i0*rCST.SC2RAD*rCST.P2_13
             alm.omg = omg*rCST.SC2RAD*rCST.P2_13
             alm.OMG0 = OMG0*rCST.SC2RAD*rCST.P2_13
-            alm.OMDd = OMGd*1e-9
+            alm.OMGd = OMGd*1e-9
             alm.M0 = M0*rCST.SC2RAD*rCST.P2_14
             alm.toa = tod2tow(ta*1800.0, self.time)
             self.Alm[sat] = alm
-- 
2.43.0


From 7a8ed8a1b7886d518d8128be20af194acb983559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 048/126] fix: scale of the SBAS long-term degradation rate

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 37d5bff..577ee3c 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -542,7 +542,7 @@ class sbasDec(cssr):
         i += 90
 
         self.deg_prm = np.array(
-            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-4, Iltc_v1*1.0,
+            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-5, Iltc_v1*1.0,
              Cltc_v0*2e-3, Iltc_v0*1.0, Cgeo_lsb*5e-4, Cgeo_v*5e-5,
              Igeo*1.0, Cer*0.5, Ciono_s*1e-3, Iiono*1.0,
              Ciono_r*5e-6, RSS_udre, RSS_iono, Ccov*0.1])
-- 
2.43.0


From 6bdab68821427b0bd5fb9b382ae8911777b6958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 049/126] fix: validity check of SBAS corrections not received
 yet

---
 src/cssrlib/sbas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 577ee3c..359ca50 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -398,6 +398,8 @@ class sbasDec(cssr):
 
     def check_validity(self, time):
         for sat in self.sat_n:
+            if sat not in self.lc[0].t0:
+                continue
             if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
-- 
2.43.0


From 106a2be11aac47e5f8047fb5b8edd8da2deaef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 050/126] fix: ignore DFMC SBAS corrections for undefined slots

---
 src/cssrlib/sbas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 359ca50..60efeba 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -1040,6 +1040,8 @@ class sbasDec(cssr):
     def add_dfmc_corr(self, slot, iodn, dx, dy, dz, db,
                       dxd=0, dyd=0, dzd=0, dbd=0):
         sat = self.slot2sat(slot)
+        if sat == 0:
+            return sat
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
-- 
2.43.0


From 135fb2cda576ce9dd1900e6b9e56314823a86c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 051/126] fix: latitude of the last row of the polar SBAS grid
 bands

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 60efeba..5284ffa 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -352,7 +352,7 @@ class sbasDec(cssr):
             lat0 = 60 if band == 9 else -60
             i0 = 0
             for k in range(5):
-                lat = lat0+k*np.sign(lat0)*5
+                lat = lat0+(5 if k == 4 else k)*np.sign(lat0)*5
                 if k == 0:
                     n = 72
                     self.igp_t[band][i0:i0+n, 1] = np.arange(-180, 180, 5)
-- 
2.43.0


From d275d9d6e7552084e327fc504fce185b8216a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 052/126] fix: week of the RTCM MSM epoch for GLONASS and
 BeiDou

---
 src/cssrlib/rtcm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 65d8739..decfcb0 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2275,6 +2275,14 @@ class rtcm(cssr, rtcmUtil):
         else:
             tow = t*1e-3
             time = gpst2time(week, tow)
+
+        # keep the epoch in the current week, for the system time scales
+        # with different start of week
+        dt = timediff(time, gpst2time(week, 0.0))
+        if dt < 0.0:
+            time = timeadd(time, 604800.0)
+        elif dt >= 604800.0:
+            time = timeadd(time, -604800.0)
         return time, tow
 
     def decode_msm(self, msg, i):
-- 
2.43.0


From a7aa767c2f0ac15ab6c21e4c01b1972e3d724bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 053/126] fix: result of decode_msm for an oversized cell mask

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index decfcb0..7c3ecc7 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2311,7 +2311,7 @@ class rtcm(cssr, rtcmUtil):
         sz = self.nsat*self.nsig
 
         if sz > 64:
-            return -1
+            return i, None
         ncell = 0
         self.sig_n = []
         for k in range(self.nsat):
-- 
2.43.0


From 4dbd75a8e108483b24e39dfd732a0d616ea7b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 054/126] fix: rough range and missing measurements of RTCM MSM

---
 src/cssrlib/rtcm.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 7c3ecc7..09d3e90 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2322,7 +2322,7 @@ class rtcm(cssr, rtcmUtil):
             self.sig_n += [sig_n]
             ncell += nsig_
 
-        r = np.zeros(self.nsat)
+        r = np.ones(self.nsat)*np.nan
         pr = np.ones(ncell)*np.nan
         cp = np.ones(ncell)*np.nan
         lock = np.zeros(ncell, dtype=int)
@@ -2337,10 +2337,9 @@ class rtcm(cssr, rtcmUtil):
 
         # satellite part
         if msm >= 1 and msm <= 3:
-            for k in range(self.nsat):
+            for k in range(self.nsat):  # range modulo 1 ms
                 v = bs.unpack_from('u10', msg, i)[0]
-                if v != 2**10-1:
-                    r[k] = v*rms
+                r[k] = v*rCST.P2_10*rms
                 i += 10
         else:
             for k in range(self.nsat):
@@ -2353,8 +2352,7 @@ class rtcm(cssr, rtcmUtil):
                     ex[k] = bs.unpack_from('u4', msg, i)[0]
                     i += 4
             for k in range(self.nsat):
-                if r[k] != 0.0:
-                    r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
+                r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
                 i += 10
             if msm == 5 or msm == 7:
                 for k in range(self.nsat):
@@ -2444,8 +2442,11 @@ class rtcm(cssr, rtcmUtil):
                 else:
                     freq = obs.sig[sys][uTYP.C][idx].frequency(fcn)
 
-                pr_[idx] = pr[j+ofst]+r[k]
-                cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
+                # no measurement is indicated as zero
+                if not np.isnan(pr[j+ofst]+r[k]):
+                    pr_[idx] = pr[j+ofst]+r[k]
+                if not np.isnan(cp[j+ofst]+r[k]):
+                    cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
                 cn_[idx] = cnr[j+ofst]
                 ll_[idx] = lock[j+ofst]
                 hf_[idx] = half[j+ofst]
-- 
2.43.0


From 8a4be7b92a0946e7abf628c9648fc2aab2bb8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 055/126] fix: loss of lock indicator of RTCM MSM

---
 src/cssrlib/rtcm.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 09d3e90..0c8104a 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2458,18 +2458,18 @@ class rtcm(cssr, rtcmUtil):
             obs.S[k, :] = cn_
             obs.sat[k] = sat_
 
-            if sat_ in self.lock:
-                for j, ll in enumerate(ll_):
-                    if sig[j] not in self.sig_n:
-                        continue
-                    idx = sig.index(sig[j])
-                    ll_p = self.lock[sat_][j]
-                    if (ll == 0 & ll_p != 0) | ll < ll_p:
+            if msm > 1:
+                if sat_ not in self.lock:
+                    self.lock[sat_] = {}
+                for sig_ in self.sig_n[k]:
+                    idx = sig.index(sig_)
+                    ll = ll_[idx]
+                    ll_p = self.lock[sat_].get(sig_, 0)
+                    if (ll == 0 and ll_p == 0) or ll < ll_p:
                         obs.lli[k, idx] |= 1
-                    if hf_[j] > 0:
+                    if hf_[idx] > 0:
                         obs.lli[k, idx] |= 3
-
-            self.lock[sat_] = ll_
+                    self.lock[sat_][sig_] = ll
 
         return i, obs
 
-- 
2.43.0


From 8782e0aff4d57a8fa67e27c2693526aa2e2d2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 056/126] fix: GLONASS carrier frequency in RTCM MSM without
 channel number

---
 src/cssrlib/rtcm.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 0c8104a..c5e7ba6 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -820,6 +820,7 @@ class rtcm(cssr, rtcmUtil):
         self.sysref = -1
         self.nsig_max = 4
         self.lock = {}
+        self.glo_ch = {}  # GLONASS frequency channel number
         self.mask_pbias = False
 
         self.pid = 0  # SSR Provider ID
@@ -2430,10 +2431,12 @@ class rtcm(cssr, rtcmUtil):
             hf_ = np.zeros(self.nsig, dtype=np.int32)
             cn_ = np.zeros(self.nsig, dtype=np.float64)
 
-            fcn = 0
+            fcn = None
             if sys == uGNSS.GLO:
-                if ex[k] <= 13:
-                    fcn = ex[k]-7
+                # channel number is transmitted in MSM5 and MSM7 only
+                if msm in (5, 7) and ex[k] <= 13:
+                    self.glo_ch[sat_] = ex[k]-7
+                fcn = self.glo_ch.get(sat_)
 
             for j, sig_ in enumerate(self.sig_n[k]):
                 idx = sig.index(sig_)
@@ -2441,6 +2444,8 @@ class rtcm(cssr, rtcmUtil):
                     freq = obs.sig[sys][uTYP.C][idx].frequency()
                 else:
                     freq = obs.sig[sys][uTYP.C][idx].frequency(fcn)
+                    if freq is None:  # unknown frequency channel
+                        freq = 0.0
 
                 # no measurement is indicated as zero
                 if not np.isnan(pr[j+ofst]+r[k]):
@@ -2652,6 +2657,7 @@ class rtcm(cssr, rtcmUtil):
         geph.age = En
 
         geph.sat = prn2sat(uGNSS.GLO, prn)
+        self.glo_ch[geph.sat] = geph.frq
         geph.svh = bn
         geph.iode = tb & 0x7F
 
-- 
2.43.0


From 344eee9c009f5575386f929515cc24b38a046619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 057/126] fix: resolution of the clock drift terms of RTCM SSR

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c5e7ba6..168d3b4 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1084,8 +1084,8 @@ class rtcm(cssr, rtcmUtil):
         dclk, ddclk, dddclk = bs.unpack_from('s22s21s27', msg, i)
         i += 70
         self.dclk_n[k] = self.sval(dclk, 22, 0.1e-3)
-        self.ddclk_n[k] = self.sval(ddclk, 21, 0.4e-3)
-        self.dddclk_n[k] = self.sval(dddclk, 27, 4e-6)
+        self.ddclk_n[k] = self.sval(ddclk, 21, 1e-6)
+        self.dddclk_n[k] = self.sval(dddclk, 27, 2e-8)
         return i
 
     def decode_hclk_sat(self, msg, i, k, inet=0):
@@ -4629,8 +4629,8 @@ class rtcme(cssre, rtcmUtil):
         dclk = self.ival(self.lc[inet].dclk[sat], 22, 0.1e-3)
 
         if self.lc[inet].ddclk is not None:
-            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 0.4e-3)
-            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 4e-6)
+            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 1e-6)
+            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 2e-8)
         else:
             ddclk, dddclk = 0, 0
 
-- 
2.43.0


From 2ef2fa62b243267dcbfa88af546c123e2d95f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 058/126] fix: position of the datum bit in the IGS SSR header

---
 src/cssrlib/rtcm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 168d3b4..9820e5b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1004,13 +1004,18 @@ class rtcm(cssr, rtcmUtil):
             i += 5
             v = {'udi': udi, 'mi': mi}
 
-        if self.subtype in (sCSSR.ORBIT, sCSSR.COMBINED):
+        orb = self.subtype in (sCSSR.ORBIT, sCSSR.COMBINED)
+        if orb and self.msgtype != 4076:
             self.datum = bs.unpack_from('u1', msg, i)[0]
             i += 1
 
         iodssr, pid, sid = bs.unpack_from('u4u16u4', msg, i)
         i += 24
 
+        if orb and self.msgtype == 4076:  # IGS SSR
+            self.datum = bs.unpack_from('u1', msg, i)[0]
+            i += 1
+
         v['iodssr'] = iodssr
         self.pid = pid
         self.sid = sid
-- 
2.43.0


From f87051927747287560e9f2c1cc51f72130b63999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 059/126] fix: header of the RTCM extended phase bias message

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 9820e5b..7f1454c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -999,6 +999,7 @@ class rtcm(cssr, rtcmUtil):
             i += 20               
             self.time = gpst2time(self.week, self.tow)
 
+        v = {}
         if self.subtype not in [sRTCM.SSR_PBIAS_EX]:
             udi, mi = bs.unpack_from('u4b1', msg, i)
             i += 5
-- 
2.43.0


From c3812c4f471dcde661f1a57e70d3719d912bf1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 060/126] fix: size of the work area for the RTCM high-rate
 clock message

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 7f1454c..3b0c6eb 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1395,6 +1395,8 @@ class rtcm(cssr, rtcmUtil):
         self.udi[sCType.HCLOCK] = v['udi']
         self.mi = v['mi']
 
+        self.dclk_n = np.zeros(v['nsat'])
+
         for k in range(v['nsat']):
             i, sat_ = self.decode_sat(msg, i, sys)
             i = self.decode_hclk_sat(msg, i, k)
-- 
2.43.0


From 856f27feec80163c03ab08943c3ace656e3de46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 061/126] fix: clock epoch of the RTCM combined orbit and clock
 message

---
 src/cssrlib/rtcm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 3b0c6eb..0f1f580 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1314,13 +1314,15 @@ class rtcm(cssr, rtcmUtil):
             self.nsat_n = 0
             self.sys_n = []
             self.sat_n = []
-            self.lc[inet].dclk = {}
-            self.lc[inet].ddclk = {}
-            self.lc[inet].dddclk = {}
             self.lc[inet].iode = {}
             self.lc[inet].dorb = {}
             self.lc[inet].ddorb = {}
 
+        if timediff(self.time, self.lc[inet].t0s[sCType.CLOCK]) > 0:
+            self.lc[inet].dclk = {}
+            self.lc[inet].ddclk = {}
+            self.lc[inet].dddclk = {}
+
         self.iodssr = v['iodssr']
         self.udi[sCType.ORBIT] = v['udi']
         self.udi[sCType.CLOCK] = v['udi']
@@ -1352,6 +1354,7 @@ class rtcm(cssr, rtcmUtil):
         self.lc[inet].cstat |= (1 << sCType.ORBIT)
         self.lc[inet].cstat |= (1 << sCType.CLOCK)
         self.lc[inet].t0s[sCType.ORBIT] = self.time
+        self.lc[inet].t0s[sCType.CLOCK] = self.time
 
         return i
 
-- 
2.43.0


From e83a82c5d124a542319ee22bf726ad9671be5de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 062/126] fix: decoding of the RTCM SSR VTEC message

---
 src/cssrlib/rtcm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 0f1f580..891633f 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1423,20 +1423,22 @@ class rtcm(cssr, rtcmUtil):
         qi *= 0.05
         i += 11
 
-        for k in range(nlayer):
+        # number of layers, degree and order are coded as value minus one
+        for k in range(nlayer+1):
             hl, n, m = bs.unpack_from('u8u4u4', msg, i)
+            n, m = n+1, m+1
             i += 16
             c = np.zeros((n+1, m+1))
             s = np.zeros((n+1, m+1))
             for j in range(m+1):
                 for l_ in range(j, n+1):
-                    c_ = bs.unpack_from('s16', msg, i)
+                    c_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     c[l_, j] = self.sval(c_, 16, 5e-3)
 
             for j in range(1, m+1):
                 for l_ in range(j, n+1):
-                    s_ = bs.unpack_from('s16', msg, i)
+                    s_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     s[l_, j] = self.sval(s_, 16, 5e-3)
 
-- 
2.43.0


From a1386fdeae3ec92cced3ecade3f2bca676785985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 063/126] fix: epoch of IGS SSR messages in rtcm.decode_time

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 891633f..cd44512 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1541,6 +1541,8 @@ class rtcm(cssr, rtcmUtil):
         sys, ssr = self.ssrtype(self.msgtype)
         if ssr > 0 or self.msgtype == 4076:
             sz = 20 if self.msgtype == 4076 or sys != uGNSS.GLO else 17
+            if self.msgtype == 4076:  # skip version and subtype of IGS SSR
+                i += 11
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
                 t = utc2gpst(glo2time(self.time, tow))
-- 
2.43.0


From 728573e5546ac9fd4dceef29f478ab2a6c9cfdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 064/126] fix: week rollover around the reference week in
 rtcm.adjustweek

---
 src/cssrlib/rtcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index cd44512..e335b58 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -797,8 +797,7 @@ class rtcmUtil:
     def adjustweek(self, week: int, tref: gtime_t):
         """ adjust week number considering reference time """
         week_, _ = time2gpst(tref)
-        week_ref = (week_//1024)*1024
-        return (week % 1024) + week_ref
+        return week_ + (week-week_+512) % 1024 - 512
 
     def sys2str(self, sys: uGNSS):
         """ convert system enum to string """
-- 
2.43.0


From ebe8a98577e8d0a3dfdea928d132005e539ace58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 065/126] fix: sign-magnitude fields of the RTCM GLONASS
 ephemeris

---
 src/cssrlib/rtcm.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e335b58..f7d1ca0 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2629,6 +2629,15 @@ class rtcm(cssr, rtcmUtil):
 
         return i, eph
 
+    def unpack_sm(self, nbits, msg, i):
+        """ unpack fields in sign-magnitude representation """
+        v = []
+        for n in nbits:
+            s, u = bs.unpack_from(f'u1u{n-1}', msg, i)
+            v.append(-u if s else u)
+            i += n
+        return v
+
     def decode_glo_eph(self, msg, i):
         """ GLONASS Satellite Ephemeris Message """
         prn, frq, cn, svh, P1 = bs.unpack_from('u6u5u1u1u2', msg, i)
@@ -2637,13 +2646,16 @@ class rtcm(cssr, rtcmUtil):
         i += 12
         bn, P2, tb = bs.unpack_from('u1u1u7', msg, i)
         i += 9
-        xd, x, xdd = bs.unpack_from('s24s27s5', msg, i)
+        # signed fields are in sign-magnitude representation
+        xd, x, xdd = self.unpack_sm((24, 27, 5), msg, i)
         i += 56
-        yd, y, ydd = bs.unpack_from('s24s27s5', msg, i)
+        yd, y, ydd = self.unpack_sm((24, 27, 5), msg, i)
         i += 56
-        zd, z, zdd = bs.unpack_from('s24s27s5', msg, i)
+        zd, z, zdd = self.unpack_sm((24, 27, 5), msg, i)
         i += 56
-        P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1s11u2u1s22s5', msg, i)
+        P3, _, P, ln = bs.unpack_from('u1u11u2u1', msg, i)
+        gamn, = self.unpack_sm((11,), msg, i+1)
+        taun, dtaun = self.unpack_sm((22, 5), msg, i+15)
         i += 42
         En, P4, Ft, Nt, M, ad, Na, tauc, N4, taugps, ln = bs.unpack_from(
             'u5u1u4u11u2u1u11s32u5s22u1', msg, i)
-- 
2.43.0


From 965958d3e076ab6fb39ab69ed423c7b75255f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 066/126] fix: y and z components of the RTCM GLONASS ephemeris

---
 src/cssrlib/rtcm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f7d1ca0..bd96ea4 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2671,12 +2671,12 @@ class rtcm(cssr, rtcmUtil):
         geph.vel[0] = xd*rCST.P2_20*1e3
         geph.pos[0] = x*rCST.P2_11*1e3
         geph.acc[0] = xdd*rCST.P2_30*1e3
-        geph.vel[1] = xd*rCST.P2_20*1e3
-        geph.pos[1] = x*rCST.P2_11*1e3
-        geph.acc[1] = xdd*rCST.P2_30*1e3
-        geph.vel[2] = xd*rCST.P2_20*1e3
-        geph.pos[2] = x*rCST.P2_11*1e3
-        geph.acc[2] = xdd*rCST.P2_30*1e3
+        geph.vel[1] = yd*rCST.P2_20*1e3
+        geph.pos[1] = y*rCST.P2_11*1e3
+        geph.acc[1] = ydd*rCST.P2_30*1e3
+        geph.vel[2] = zd*rCST.P2_20*1e3
+        geph.pos[2] = z*rCST.P2_11*1e3
+        geph.acc[2] = zdd*rCST.P2_30*1e3
         geph.gamn = gamn*rCST.P2_40
         geph.taun = taun*rCST.P2_30
         geph.dtaun = dtaun*rCST.P2_30
-- 
2.43.0


From fe130d76d814c2d6ef62a3b54b872f7021181edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 067/126] fix: af2 of the RTCM BeiDou and NavIC ephemerides

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index bd96ea4..af3ecb2 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2856,7 +2856,7 @@ class rtcm(cssr, rtcmUtil):
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.iode = aode
         toc *= 8.0
-        eph.af2 = af0*rCST.P2_66
+        eph.af2 = af2*rCST.P2_66
         eph.af1 = af1*rCST.P2_50
         eph.af0 = af0*rCST.P2_33
         eph.iodc = aodc
@@ -2907,7 +2907,7 @@ class rtcm(cssr, rtcmUtil):
         eph.week = week
         eph.af0 = af0*rCST.P2_31
         eph.af1 = af1*rCST.P2_43
-        eph.af2 = af0*rCST.P2_55
+        eph.af2 = af2*rCST.P2_55
         eph.sva = ura
         toc *= 16.0
         eph.tgd = tgd*rCST.P2_31
-- 
2.43.0


From 9480f3b582b69e1c9b8341935b4f8d67d4c6ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 068/126] fix: health status and data source of the RTCM
 Galileo F/NAV ephemeris

---
 src/cssrlib/rtcm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index af3ecb2..62bb40b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2766,10 +2766,12 @@ class rtcm(cssr, rtcmUtil):
         eph.toc = gpst2time(eph.week, toc)
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
-        eph.svh = (hs << 7)+(dvs << 6)
-        if self.msgtype == 1046:
-            eph.svh |= (hs1 << 1)+(dvs1)
-        eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        if self.msgtype == 1046:  # I/NAV
+            eph.svh = (hs << 7)+(dvs << 6)+(hs1 << 1)+dvs1
+            eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        else:  # F/NAV
+            eph.svh = (hs << 4)+(dvs << 3)
+            eph.code = (1 << 1)+(1 << 8)
         eph.iodc = eph.iode
 
         eph.mode = 0 if self.msgtype == 1046 else 1
-- 
2.43.0


From fc14907ea725fd10d4556d3a328ed8c34443aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 069/126] fix: decoding of the RTCM SBAS ephemeris

---
 src/cssrlib/rtcm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 62bb40b..e2d7b91 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2958,7 +2958,7 @@ class rtcm(cssr, rtcmUtil):
 
         seph = Seph()
         seph.sat = prn2sat(uGNSS.SBS, svid+119)
-        seph.iode = iodn
+        seph.iodn = iodn
         toc *= 16.0
         seph.ura = ura
         seph.pos[0] = x*0.08
@@ -2970,11 +2970,16 @@ class rtcm(cssr, rtcmUtil):
         seph.acc[0] = ax*0.0000125
         seph.acc[1] = ay*0.0000125
         seph.acc[2] = az*0.0000625
-        seph.af0 = af0*self.P2_31
-        seph.af1 = af1*self.P2_40
+        seph.af0 = af0*rCST.P2_31
+        seph.af1 = af1*rCST.P2_40
         week, tow = time2gpst(self.time)
         tod = (tow//86400)*86400
         seph.t0 = gpst2time(week, toc+tod)
+        dt = timediff(seph.t0, self.time)
+        if dt > 43200.0:
+            seph.t0 = timeadd(seph.t0, -86400.0)
+        elif dt < -43200.0:
+            seph.t0 = timeadd(seph.t0, 86400.0)
         seph.mode = 0
 
         return i, seph
-- 
2.43.0


From b8864dee943f2bde2975b8cdf929dd8a211ad19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 070/126] fix: result of rtcm.decode for the message types to
 be skipped

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e2d7b91..94f6eed 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4020,7 +4020,7 @@ class rtcm(cssr, rtcmUtil):
         self.subtype = subtype
 
         if self.msgtype in self.mt_skip:
-            return i
+            return i, obs, eph, geph, seph
 
         # SSR messages
         if self.msgtype in (1057, 1063, 1240, 1246, 1252, 1258):
-- 
2.43.0


From 2b96303d03aba0a5a72cf3451d076ac016afa767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 071/126] fix: layout of the RTCM extended integrity message

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 94f6eed..4c111bd 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3491,7 +3491,7 @@ class rtcm(cssr, rtcmUtil):
         # TTTcomm DFi050
         # Service Provider Solution Type DFi004
         ilvl, ttt, stype = bs.unpack_from('u8u7u15', msg, i)
-        i += 82
+        i += 30
 
         self.integ.ilvl = ilvl
         self.integ.ttt = (ttt+1)*0.1
-- 
2.43.0


From 36c1c1d5a2e63729151b4a598422215d1bd8791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 072/126] fix: decoding of the RTCM signal in space integrity
 message

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4c111bd..2bef2e8 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3624,7 +3624,7 @@ class rtcm(cssr, rtcmUtil):
         # integrity parameter IOD DFi006
         # GNSS Constellation Mask DFi013
         # Time correlation integrity/continuity flag DFi137
-        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)[0]
+        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)
         i += 23
 
         self.integ.iod_ip = iod_ip
-- 
2.43.0


From d4bb03bb0ee3ddd2abda2c98470207e12eb8560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 073/126] fix: RTCM SSR troposphere message without residual
 part

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 2bef2e8..1d1aa24 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3278,6 +3278,7 @@ class rtcm(cssr, rtcmUtil):
         # west-east gradient c10 [m/deg]
         ct[1, 2] = self.sval(ct10w, 15, 0.01e-3)
 
+        ofst, ng, rh, rw = 0, 0, None, None
         if rmi:  # residual information part
             ofst, ng, n, m = bs.unpack_from('u12u12u4u4', msg, i)
             i += 32
-- 
2.43.0


From 67e1eb46122c95d4e82ff9c552c2604a7864ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 074/126] fix: width of the cus field of the RTCM BeiDou
 ephemeris

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 1d1aa24..4aff12c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2844,8 +2844,8 @@ class rtcm(cssr, rtcmUtil):
         i += 5+17+11+22+24
         aodc, crs, deln, M0, cuc = bs.unpack_from('u5s18s16s32s18', msg, i)
         i += 5+18+16+32+18
-        e, cus, Asq, toe, cic = bs.unpack_from('u32s16u32u17s18', msg, i)
-        i += 32+16+32+17+18
+        e, cus, Asq, toe, cic = bs.unpack_from('u32s18u32u17s18', msg, i)
+        i += 32+18+32+17+18
         Omg0, cis, i0, crc, omg = bs.unpack_from('s32s18s32s18s32', msg, i)
         i += 32+18+32+18+32
         OMGd, tgd1, tgd2, svh = bs.unpack_from('s24s10s10u1', msg, i)
-- 
2.43.0


From c25a74a4f8837ae6c1ba6882ddeaa41f9f59431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 075/126] fix: QZSS L1C(P) in the RTCM SSR signal table

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4aff12c..4c5662c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -570,7 +570,7 @@ class rtcmUtil:
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
@@ -924,7 +924,7 @@ class rtcm(cssr, rtcmUtil):
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
-- 
2.43.0


From 8d88154b46ebf2cac4e84e24aebdf8c228d77b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 076/126] fix: satellite id in the encoded RTCM SSR messages

---
 src/cssrlib/rtcm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4c5662c..9c28f6c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4605,15 +4605,16 @@ class rtcme(cssre, rtcmUtil):
     def encode_sat(self, msg, i, sat):
         """ encode satellite id """
 
-        sys, prn = sat2prn(sat)
-        svid = prn
+        sys, _ = sat2prn(sat)
+        svid = self.sat2svid(sat)
 
         if self.msgtype == 4076:
             blen = 6
         else:
-            if sys == uGNSS.QZS:
+            if sys == uGNSS.GLO:
+                blen = 5
+            elif sys == uGNSS.QZS:
                 blen = 4
-                svid = prn-192
             else:
                 blen = 6
 
-- 
2.43.0


From 4143744e5ec6cc08e6a63ecbb2af0dc0c244cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 077/126] fix: rounding of the encoded RTCM SSR code biases

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 9c28f6c..c8c89b4 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4748,7 +4748,7 @@ class rtcme(cssre, rtcmUtil):
             i += 5
 
             for rsig_ in cbias:
-                cb = int(cbias[rsig_]/0.01)
+                cb = self.ival(cbias[rsig_], 14, 0.01)
                 code = self.rsig2code(rsig_)
                 bs.pack_into('u5s14', msg, i, code, cb)
                 i += 19
-- 
2.43.0


From e30cdfd67e4369c7fa2372f69e85e686f3fac79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 078/126] fix: leap seconds applied twice to the GLONASS epoch
 of RTCM SSR

glo2time() already returns GPS time, so the conversion from UTC must not be
applied again (SSR header, network RTK time and decode_time).
---
 src/cssrlib/gnss.py |  2 +-
 src/cssrlib/rtcm.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 143c1ad..941a73d 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1005,7 +1005,7 @@ def timeget():
 
 
 def glo2time(tref: gtime_t, tod):
-    """ convert to UTC time from GLONASS time """
+    """ convert to GPS time from GLONASS time of day """
     time = timeadd(gpst2utc(tref), 10800.0)
     week, tow = time2gpst(time)
     tod_p = tow % 86400.0
diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c8c89b4..9de422b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -990,9 +990,9 @@ class rtcm(cssr, rtcmUtil):
         if sys==uGNSS.GLO and self.msgtype != 4076:
             self.tod = bs.unpack_from('u17', msg, i)[0]     
             i += 17
-            self.time = utc2gpst(glo2time(self.time, self.tod))
+            self.time = glo2time(self.time, self.tod)
             if self.workaround_sc134:
-                self.time = timeadd(self.time, -36) # work-around
+                self.time = timeadd(self.time, -18) # work-around
         else:
             self.tow = bs.unpack_from('u20', msg, i)[0]   
             i += 20               
@@ -1501,7 +1501,7 @@ class rtcm(cssr, rtcmUtil):
             week, _ = time2bdt(gpst2bdt(gpst2time(self.week, tow)))
             time = bdt2gpst(bdt2time(week, tow))
         elif sys == uGNSS.GLO:
-            time = utc2gpst(glo2time(self.time, tow))
+            time = glo2time(self.time, tow)
         else:
             time = gpst2time(self.week, tow)
         return i, sys, time
@@ -1544,9 +1544,9 @@ class rtcm(cssr, rtcmUtil):
                 i += 11
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
-                t = utc2gpst(glo2time(self.time, tow))
+                t = glo2time(self.time, tow)
                 if self.workaround_sc134:
-                    t = timeadd(t, -36) # work-around on sc134
+                    t = timeadd(t, -18) # work-around on sc134
                 return t
             else:
                 self.tow = tow
-- 
2.43.0


From 37dd3caee6b846873e8ecaa3a17a0f8df6b48d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 079/126] fix: checksum of truncated RTCM messages

The frame ends with the 3 octets of the CRC, i.e. len+6 octets from the
preamble.
---
 src/cssrlib/rtcm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 9de422b..e9bfaea 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -974,8 +974,8 @@ class rtcm(cssr, rtcmUtil):
         len_ = st.unpack_from('>H', msg, k+1)[0] & 0x3ff
         if len_ < 6:
             return False
-        if maxlen > 0 and k+len_ >= maxlen:
-            return False
+        if k+len_+6 > (maxlen if maxlen > 0 else len(msg)):
+            return False  # truncated
         cs = Crc24LteA.calc(msg[k:k+len_+6])
         if self.monlevel > 0 and cs != 0:
             msgtype = (st.unpack_from('>H', msg, k+3)[0] >> 4) & 0xfff
@@ -4232,7 +4232,7 @@ class rtcme(cssre, rtcmUtil):
     def set_checksum(self, msg, k, maxlen=0):
         if self.len < 6:
             return False
-        if maxlen > 0 and k+self.len >= maxlen:
+        if maxlen > 0 and k+self.len+6 > maxlen:
             return False
         cs = Crc24LteA.calc(msg[k:k+self.len+3])
         st.pack_into('>H', msg, k+self.len+3, cs >> 8)
-- 
2.43.0


From 4f1c4736711072742f28064339afc539252f9526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 080/126] fix: empty slot in the SLAS reference station message

---
 src/cssrlib/dgps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index e7b9179..b7ae67c 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -138,7 +138,8 @@ class dgpsDec(cssr):
         i = 14
         for k in range(5):
             code, lat, lon, alt = bs.unpack_from('u6s15s15u6', msg, i)
-            if code == 63:
+            if code == 63:  # empty slot
+                i += 42
                 continue
             self.posr[code, 0] = lat*0.005
             self.posr[code, 1] = lon*0.005+115
-- 
2.43.0


From bc3036f6ddf55eee498451009bedcb26c9d62c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 081/126] fix: satellite health of the SLAS message type 51 is
 not initialized

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index b7ae67c..cdfecd4 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -99,6 +99,8 @@ class dgpsDec(cssr):
         self.prn_ofst = {uGNSS.GPS: 0, uGNSS.QZS: 192, uGNSS.GLO: 0,
                          uGNSS.GAL: 0, uGNSS.BDS: 0}
 
+        self.svh = {}  # satellite health
+
         self.dcr = jmaDec(year=year)
         self.dcx = camfDec(year=year)
 
-- 
2.43.0


From 94bf32d335fde679d590073601c078936d092dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 082/126] fix: number of SLAS reference stations

---
 src/cssrlib/dgps.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index cdfecd4..cc988d8 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -43,6 +43,7 @@ def vardgps(el, nav):
 
 class dgpsDec(cssr):
     MAX_ST = 64
+    MAXNET = MAX_ST  # one set of corrections for each reference station
     MAX_SAT = 23
 
     def __init__(self, foutname=None, year=0):
-- 
2.43.0


From 2c27fd4c1db5028646531666329e187444bfc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 083/126] fix: SLAS corrections for satellites without issue of
 data

A correction for a satellite for which no issue of data was received raised
KeyError, and the issues of data of a superseded mask were still used.
---
 src/cssrlib/dgps.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index cc988d8..02c086e 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -75,6 +75,7 @@ class dgpsDec(cssr):
 
         self.iodssr = -1
         self.iodp_c = {}
+        self.iodn = {}
 
         self.baselen = 0  # baseline length [km]
 
@@ -162,6 +163,10 @@ class dgpsDec(cssr):
         self.nsat = 0
         v = bs.unpack_from('u2u64u9u36u36u36', msg, i)
 
+        if v[0] != self.iodp:  # issues of data refer to the mask
+            self.iodi = -1
+            self.iodn = {}
+
         self.sat_n = []
         self.iodp = v[0]
         sys_t = [uGNSS.GPS, uGNSS.QZS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS]
@@ -232,6 +237,9 @@ class dgpsDec(cssr):
             prc = bs.unpack_from('s12', msg, i)[0]*0.04
             i += 12
 
+            if sat not in self.iodn:  # unknown issue of data
+                continue
+
             self.lc[inet].sat_n.append(sat)
             self.lc[inet].iode[sat] = self.iodn[sat]
             self.lc[inet].dclk[sat] = prc
-- 
2.43.0


From 9b10d42ae506a7c23472a433f465dbdc17a78794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 084/126] fix: reference station of the SLAS corrections in use

When no corrections were received for the nearest station, the previous
corrections stay in use, but the station was replaced.
---
 src/cssrlib/dgps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 02c086e..62ed998 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -316,8 +316,9 @@ class dgpsDec(cssr):
             return -1
         refid, rmin = self.get_station(rr)
         baselen = rmin*1e-3  # baseline length [km]
-        self.inet = refid+1
-        if len(self.lc[self.inet].sat_n) > 0:
+        inet = refid+1
+        if len(self.lc[inet].sat_n) > 0:
+            self.inet = inet
             self.sat_n = self.lc[self.inet].sat_n
             self.iodssr_c[sCType.ORBIT] = self.iodp_c[self.inet]
             self.iodssr_c[sCType.CLOCK] = self.iodp_c[self.inet]
-- 
2.43.0


From 345668736d6c024564ff86503ee445e28001a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 085/126] fix: carrier smoothing for satellites with missing
 first measurement

---
 src/cssrlib/pntpos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 6793ae8..da94424 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -190,7 +190,7 @@ class stdpos(pppos):
             self.cs_cnt[sat] = 1
             return Pm
 
-        if sat not in self.cs_cnt or timediff(obs.t, self.cs_t0[sat]) > dt_th:
+        if sat not in self.cs_t0 or timediff(obs.t, self.cs_t0[sat]) > dt_th:
             self.cs_cnt[sat] = 1
 
         if self.cs_cnt[sat] == 1:
-- 
2.43.0


From 32571bb7ef4b3e90b880df00de0fc98a9cde0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 086/126] fix: measurements without residual in stdpos.sdres

Satellites below the mask and signals that are not used have no residual;
they were used as measurements that confirm the predicted state.
---
 src/cssrlib/pntpos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index da94424..3f37de7 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -437,6 +437,11 @@ class stdpos(pppos):
                     if np.any(self.nav.edt[sat[j]-1, :] > 0):
                         continue
 
+                    # Skip measurements without residual
+                    #
+                    if y[j, f] == 0.0:
+                        continue
+
                     v[nv] = y[j, f]
 
                     # SD line-of-sight vectors
-- 
2.43.0


From 8dc912c4e4b95ebf47d661ceec2343a81468e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 087/126] fix: clock reset in stdpos.process

The residuals are relative to the predicted clock bias, which has to be
corrected by their mean.
---
 src/cssrlib/pntpos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 3f37de7..a1968ec 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -570,8 +570,9 @@ class stdpos(pppos):
         if abs(np.mean(v)) > self.nav.th_clk_rst:  # clock bias initialize/reset
             ic = self.ICB()
             idx_ = np.where(v != 0.0)[0]
-            xp[ic] = np.mean(v[idx_])
-            v[idx_] -= xp[ic]
+            dclk = np.mean(v[idx_])
+            xp[ic] += dclk
+            v[idx_] -= dclk
             if self.monlevel > 0:
                 print("{:s} clock reset.".format(time2str(obs.t)))
 
-- 
2.43.0


From 869ca5471c591dcd2bb65a29cbc112724468d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 088/126] fix: ionospheric delay of signals other than L1 in
 stdpos.zdres

The ionosphere models give the delay at L1.
---
 src/cssrlib/pntpos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index a1968ec..9bf34ce 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -351,6 +351,8 @@ class stdpos(pppos):
                 lam = np.array([s.wavelength() for s in sigsCP])
 
             if self.nav.rmode == 0:
+                # ionospheric delay is given at L1
+                iono *= (lam[0]*rCST.FREQ_G1/_c)**2
                 PR = obs.P[i, 0]
                 CP = lam[0]*obs.L[i, 0]
             else:  # iono-free combination
-- 
2.43.0


From 2c323bc24104ff14bc408053781a70aff8a85320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 089/126] fix: message buffers shared among the OSNMA decoders

---
 src/cssrlib/osnma.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 57592c8..85fd347 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -257,12 +257,18 @@ class osnma():
         # 'OSNMA_MerkleTree_20240115100000_newPKID_1.xml'
 
         self.cnt = np.zeros(self.GALMAX, dtype=int)
+        self.hk = []
+        self.mack = []
+        self.mack_p = bytearray(60*self.GALMAX)
+        self.mack_c = bytearray(60*self.GALMAX)
         for prn in range(self.GALMAX):
             self.hk.append(bytearray(15))
             self.mack.append(bytearray(60))
         self.pk_list = {}
 
+        self.dsm = {}
         self.flg_dsm = {}
+        self.nb = {}
 
         self.subfrm_n = {}
         self.subfrm_p = {}
-- 
2.43.0


From 1aa8e00d3cac744f85d51d7fd3705a7f5a049b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 090/126] fix: identifier of the OSNMA public key loaded from
 file

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 85fd347..7738b11 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -310,7 +310,7 @@ class osnma():
         pk = load_pubkey(self.pubk_bdir+pubk_path)
         if pk is None:
             return False
-        self.pk_list[self.pkid] = pk
+        self.pk_list[pkid] = pk
         return True
 
     def verify_root_key(self):
-- 
2.43.0


From 636efea82b392575f5fcf4efeb8914330deb4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 091/126] fix: OSNMA public key renewal without root key or
 Merkle tree

---
 src/cssrlib/osnma.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 7738b11..0059292 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -300,6 +300,12 @@ class osnma():
         h = digest.finalize()
         return h
 
+    def process_hash_mt(self, msg):
+        """ calculate hash of the Merkle tree (SHA-256) """
+        digest = hashes.Hash(hashes.SHA256())
+        digest.update(msg)
+        return digest.finalize()
+
     def set_gst_sf(self, gst_wn, gst_tow):
         """ set Galileo sub-frame time """
         gst_sf = bs.pack('u12u20', gst_wn, gst_tow//30*30)
@@ -347,8 +353,10 @@ class osnma():
 
     def verify_pdp(self, mi, p_dp):
         """ verify P_DP """
+        if self.root_mt == -1:  # Merkle tree is not loaded
+            return False
         msg = self.root_mt + mi
-        h = self.process_hash(msg)
+        h = self.process_hash_mt(msg)
         l_pdp = len(p_dp)
         return h[0:l_pdp] == p_dp
 
@@ -450,14 +458,14 @@ class osnma():
             return False
 
         # 6.2 DSM-PKR Verification
-        x = self.process_hash(mi)  # Eq.12
+        x = self.process_hash_mt(mi)  # Eq.12
         for k in range(4):
             itn_b = itn[k*32:(k+1)*32]
             if mid % 2 == 0:
                 msg = x+itn_b
             else:
                 msg = itn_b+x
-            x = self.process_hash(msg)  # Eq.13
+            x = self.process_hash_mt(msg)  # Eq.13
             mid >>= 1
 
         result = (x == self.root_mt)
-- 
2.43.0


From 05dcf08192e7a943a28aa8dbff781f95caaf7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 092/126] fix: OSNMA alert message is stored as public key

---
 src/cssrlib/osnma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 0059292..cb028cd 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -330,7 +330,7 @@ class osnma():
         result = False
         hash_func = self.hash_table[self.hf]
         ds_der = raw2der(self.ds)
-        if self.pkid not in self.pk_list.keys():
+        if not self.pk_list.get(self.pkid):
             return False
         pk = self.pk_list[self.pkid]
 
@@ -475,7 +475,8 @@ class osnma():
         self.npkid = npkid
         if result:
             pk_ = self.pubkey_decompress(npkt, npk)
-            self.pk_list[npkid] = pk_
+            if pk_:  # not for OSNMA alert message (OAM)
+                self.pk_list[npkid] = pk_
             self.status |= uOSNMA.PKR_UPDATED  # PKR updated
         return result
 
-- 
2.43.0


From 1fe545fd49ef51fddae5aec2ebfb5f9767647ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 093/126] fix: OSNMA DSM with leftover blocks is never decoded

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index cb028cd..ad4207f 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -529,7 +529,7 @@ class osnma():
             print(f"flg_dsm[did={did}]={self.flg_dsm[did]:2x} "
                   f"nb={self.nb[did]:2d} bid={bid} prn={prn}")
         if did in self.nb.keys() and self.nb[did] > 0 and \
-                self.flg_dsm[did] == (1 << self.nb[did])-1:
+                self.flg_dsm[did] | -1 << self.nb[did] == -1:
             if did <= 11:  # DSM-KROOT
                 result = self.decode_dsm_kroot(did)
             else:  # DSM-PKR
-- 
2.43.0


From b14870a309234df48645d7b9692945bc573a9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 094/126] fix: OSNMA key chain across the week rollover

---
 src/cssrlib/osnma.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index ad4207f..2e48fda 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -364,8 +364,9 @@ class osnma():
         """ return next key from key chanin """
         # k_l=trunc(lk,hash(k_l+1||GST_SF_l||alp))
         klen_b = self.klen_t[self.ks]//8
+        gst_tow = gst_tow0
         for k in range(ki):
-            gst_tow = gst_tow0 - 30*(k+1)
+            gst_tow -= 30
             if gst_tow < 0:
                 gst_tow += 86400*7
                 gst_wn -= 1
-- 
2.43.0


From 9bf724fc5dd595aa39b99a59c9251788137c1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 095/126] fix: OSNMA previous sub-frame at the week rollover

---
 src/cssrlib/osnma.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 2e48fda..65685fe 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -911,8 +911,10 @@ class osnma():
                 return status
 
             # 6.5 MAC Look-up Table Verification
-            self.gst_tow_p = self.gst_tow-30
-            self.gst_sf_p = self.set_gst_sf(gst_wn, self.gst_tow_p)
+            gst_wn_p, self.gst_tow_p = gst_wn, self.gst_tow-30
+            if self.gst_tow_p < 0:
+                gst_wn_p, self.gst_tow_p = gst_wn-1, self.gst_tow_p+86400*7
+            self.gst_sf_p = self.set_gst_sf(gst_wn_p, self.gst_tow_p)
             result = self.verify_maclt()
             if self.monlevel > 0:
                 s = f"on {wn:4d}/{tow:6d} prn={prn}"\
-- 
2.43.0


From d887f40241b6bcd29c96ad992ab9381121f62cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 096/126] fix: OSNMA key chain is verified with an unverified
 key

---
 src/cssrlib/osnma.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 65685fe..578a221 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -380,13 +380,16 @@ class osnma():
         if not self.status & uOSNMA.ROOTKEY_VERIFIED:  # root-key verified
             return False
         if self.status & uOSNMA.KEYCHAIN_VERIFIED:
-            key = self.update_key_chain(key, gst_wn, gst_tow0, 1)
-            result = (key == self.key_p)
+            # compare with the last verified key
+            wn0, tow0 = bs.unpack_from('u12u20', self.gst_sf_c, 0)
+            key0 = self.key
+            ki = ((gst_wn-wn0)*86400*7 + (gst_tow0-tow0))//30
         else:
+            key0 = self.kroot
             ki = ((gst_wn-self.wn)*86400*7 +
-                  (self.gst_tow-self.towh*3600))//30+1
-            key = self.update_key_chain(key, gst_wn, gst_tow0, ki)
-            result = (key == self.kroot)
+                  (gst_tow0-self.towh*3600))//30+1
+        result = ki > 0 and \
+            self.update_key_chain(key, gst_wn, gst_tow0, ki) == key0
         if result:
             self.status |= uOSNMA.KEYCHAIN_VERIFIED  # key-chain verified
         else:
-- 
2.43.0


From 4b57212f072114238e3f88ba73f6021a1331f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 097/126] fix: OSNMA MAC look-up tables with number of tags
 other than six

---
 src/cssrlib/osnma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 578a221..6009d91 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -583,7 +583,7 @@ class osnma():
         if self.nt*2 != len(adkd_t):
             return False
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
         for k in range(self.nt-1):
             tag, prn_d, adkd, cop = self.decode_tags_info(k+1)
             i = k + ofst + 1
@@ -612,7 +612,7 @@ class osnma():
             return False
         mode_t = self.mode_t[self.maclt]
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
 
         ltag_b = self.tag_len_t[self.ts]//8+2
         for k in range(self.nt):  # add FLEX taginfo
-- 
2.43.0


From aad2f746e50a124c9817a659bca93567a9445a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 098/126] fix: OSNMA message of the self-authentication tags
 other than Tag0

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 6009d91..afc0216 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -756,7 +756,7 @@ class osnma():
         mlen = 141 if adkd == 4 else 549
         rem_ = mlen-mlen//8*8  # number of remaining bit
         j = 0
-        if adkd == 0 and self.prn_a == prn_d:
+        if ctr == 1:  # Tag0
             mlen += 8+42
             mlen_b = (mlen+7)//8
             m = bytearray(mlen_b)
-- 
2.43.0


From cef50f0fb55b0f889c13849c032385dd39cc1b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 099/126] fix: OSNMA root key is used without verification of
 its signature

---
 src/cssrlib/osnma.py | 49 ++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index afc0216..b115cd3 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -170,6 +170,7 @@ class osnma():
     alp = bytearray(6)  # seed
     ds = bytearray(64)  # digital signature
     kroot = bytearray(16)  # root key
+    msg_kroot = bytearray(29)  # signed part of DSM-KROOT
     key = bytearray(16)  # key used for authentication
     key_p = bytearray(16)  # previous key
     key_c = bytearray(16)  # current key
@@ -321,11 +322,9 @@ class osnma():
 
     def verify_root_key(self):
         """ verify root key """
-        did = self.did0
         if not self.status & uOSNMA.ROOTKEY_LOADED:  # root key loaded
             return False
-        lk_b = self.klen_t[self.ks]//8
-        msg = bytearray([self.nma_header]) + self.dsm[did][1:13+lk_b]
+        msg = self.msg_kroot
 
         result = False
         hash_func = self.hash_table[self.hf]
@@ -345,8 +344,7 @@ class osnma():
 
     def verify_pdk(self, p_dk, did):
         """ verify P_DK """
-        lk_b = self.klen_t[self.ks]//8
-        msg = bytearray([self.nma_header]) + self.dsm[did][1:13+lk_b] + self.ds
+        msg = self.msg_kroot + self.ds
         h = self.process_hash(msg)
         l_pdk = len(p_dk)
         return h[0:l_pdk] == p_dk
@@ -402,33 +400,48 @@ class osnma():
         """ decode DSM-KROOT """
         v = bs.unpack_from('u4u4u2u2u2u2u4u4u8u4u12u8', self.dsm[did], 0)
         nb = v[0]+6   # number of blocks
-        self.pkid = v[1]  # Public Key ID
-        self.cidkr = v[2]  # KROOT Chain ID
-        self.hf = v[4]  # hash function 0:SHA-256,2:SHA3-256
-        self.mf = v[5]  # mac function 0:HMAC-SHA-256,1:CMAC-AES
-        self.ks = v[6]  # key size 0:96,1:104,2:112,3:120,4:128,
+        if v[4] not in self.hash_table or v[6] >= len(self.klen_t) or \
+                self.tag_len_t[v[7]] == 0:  # reserved
+            return False
+        prm = {}
+        prm['pkid'] = v[1]  # Public Key ID
+        prm['cidkr'] = v[2]  # KROOT Chain ID
+        prm['hf'] = v[4]  # hash function 0:SHA-256,2:SHA3-256
+        prm['mf'] = v[5]  # mac function 0:HMAC-SHA-256,1:CMAC-AES
+        prm['ks'] = v[6]  # key size 0:96,1:104,2:112,3:120,4:128,
         #          5:160,6:192,7:224,8:256
-        self.ts = v[7]  # tag length 5:20,6:24,7:28,8:32,9:40
-        self.maclt = v[8]  # MAC lookup table
-        self.wn = v[10]  # KROOT week number, tow[h]
-        self.towh = v[11]
-        self.alp = self.dsm[did][7:13]  # random pattern alpha
+        prm['ts'] = v[7]  # tag length 5:20,6:24,7:28,8:32,9:40
+        prm['maclt'] = v[8]  # MAC lookup table
+        prm['wn'] = v[10]  # KROOT week number, tow[h]
+        prm['towh'] = v[11]
+        prm['alp'] = self.dsm[did][7:13]  # random pattern alpha
         l_dk = nb*104
         l_ds = 512  # P-256/SHA-256
-        l_k = self.klen_t[self.ks]
+        l_k = self.klen_t[v[6]]
         l_pdk = l_dk-104-l_k-l_ds
         if l_pdk < 0:
             return False
 
         i = 13+l_k//8
-        self.kroot = self.dsm[did][13:i]
-        self.ds = self.dsm[did][i:i+l_ds//8]
+        prm['kroot'] = self.dsm[did][13:i]
+        prm['ds'] = self.dsm[did][i:i+l_ds//8]
+        # signed part of the message
+        prm['msg_kroot'] = bytearray([self.nma_header]) + self.dsm[did][1:i]
         i += l_ds//8
         p_dk = self.dsm[did][i:i+(l_pdk+7)//8]
+        prm0 = {v: getattr(self, v) for v in prm}
+        for v in prm:
+            setattr(self, v, prm[v])
         if not self.verify_pdk(p_dk, did):
+            for v in prm0:
+                setattr(self, v, prm0[v])
             if self.monlevel > 0:
                 print("p_dk verification error.")
             return False
+        if prm != prm0:  # signature of new KROOT is not verified yet
+            self.status &= ~(uOSNMA.ROOTKEY_VERIFIED |
+                             uOSNMA.KEYCHAIN_VERIFIED)
+            self.gst_sf_c = bytearray(4)
         self.status |= uOSNMA.ROOTKEY_LOADED  # KROOT loaded
         self.did0 = did
         return True
-- 
2.43.0


From 34dde214f64e7e0a13d1d84e38ce7911ac852fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 100/126] fix: OSNMA slow-MAC tags skipped or verified
 repeatedly

---
 src/cssrlib/osnma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index b115cd3..cdd9405 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -1005,8 +1005,10 @@ class osnma():
                         print(f"{s} tag not verified")
             # slow MAC
             if self.flg_slowmac:
-                for tag_ in self.tag_list:
+                for tag_ in self.tag_list[:]:
                     dt = self.difftime(self.gst_sf_p, tag_.gst_sf)
+                    if dt >= 300:
+                        self.tag_list.remove(tag_)
                     if dt == 300:
                         self.prn_a = tag_.prn_a
                         result = self.verify_navmsg(tag_)
@@ -1018,8 +1020,6 @@ class osnma():
                                 print(f"Slow-MAC {s} verified")
                             else:
                                 print(f"{s} not verified")
-                    elif dt > 300:
-                        self.tag_list.remove(tag_)
 
             self.nsat = self.count_valid_sat()
             self.cnt[prn-1] = 0
-- 
2.43.0


From 9568a6e5362d858372cdc078b3954301ce3f2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 101/126] fix: OSNMA authenticating satellite after slow-MAC
 verification

---
 src/cssrlib/osnma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index cdd9405..caeff2a 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -864,6 +864,7 @@ class osnma():
             PRN number
         """
         status = False
+        self.prn_a = prn
         ki = (tow % 30)//2
         if ki == 0:  # reset counter
             self.cnt[prn-1] = 0
-- 
2.43.0


From 58e849897ec34d058260f5d7ae6789fdc6ad2fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 102/126] fix: OSNMA message composed of different sub-frames

---
 src/cssrlib/osnma.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index caeff2a..140d4f6 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -275,6 +275,8 @@ class osnma():
         self.subfrm_p = {}
         self.subfrm = {}
 
+        self.gst_sf_rx = {}  # sub-frame time of received message [prn]
+
         self.prn_ref = -1
         self.tag_list = []
 
@@ -878,6 +880,11 @@ class osnma():
         self.gst_tow = (gst_tow//30)*30  # current subframe-time
         self.gst_sf = self.set_gst_sf(gst_wn, self.gst_tow)
 
+        # messages of different sub-frames are not mixed
+        if self.gst_sf != self.gst_sf_rx.get(prn):
+            self.gst_sf_rx[prn] = self.gst_sf
+            self.cnt[prn-1] = 0
+
         # store sub-frame for NMA
         self.hk[prn-1][ki] = nma_b[0]              # HK-ROOT message
         self.mack[prn-1][ki*4:ki*4+4] = nma_b[1:5]  # MACK message
-- 
2.43.0


From 5a3247cdf3863d394bba930c5c9af8e51722bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 103/126] fix: reserved MAC function of the OSNMA root key
 message

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 140d4f6..fb8315c 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -402,7 +402,7 @@ class osnma():
         """ decode DSM-KROOT """
         v = bs.unpack_from('u4u4u2u2u2u2u4u4u8u4u12u8', self.dsm[did], 0)
         nb = v[0]+6   # number of blocks
-        if v[4] not in self.hash_table or v[6] >= len(self.klen_t) or \
+        if v[4] not in self.hash_table or v[5] > 1 or v[6] >= len(self.klen_t) or \
                 self.tag_len_t[v[7]] == 0:  # reserved
             return False
         prm = {}
-- 
2.43.0


From 9bd35483063ba2fd7078b42e13e25872532c58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 104/126] fix: OSNMA tags of 20 and 28 bits

---
 src/cssrlib/osnma.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index fb8315c..e2bfb29 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -565,19 +565,18 @@ class osnma():
         if not self.status & uOSNMA.ROOTKEY_LOADED:
             return False
         lt = self.tag_len_t[self.ts]
-        lt_b = lt//8
-        ltag_b = lt_b+2
-        i0 = k*ltag_b
-        tag_k = self.tag[i0:i0+ltag_b]
+        i0 = k*(lt+16)
+        tag = bytearray((lt+7)//8)
+        copy_buff(self.tag, tag, i0, 0, lt)
+        tag_info = bytearray(2)
+        copy_buff(self.tag, tag_info, i0+lt, 0, 16)
         if k == 0:
-            tag0 = tag_k[0:lt_b]
-            macseq = tag_k[lt_b:lt_b+2]  # MACSEQ(12)+res(4)
+            tag0 = tag
+            macseq = tag_info  # MACSEQ(12)+res(4)
             cop = macseq[1] & 0xf
             macseq[1] &= 0xf0
             return tag0, macseq, cop
         else:
-            tag = tag_k[0:lt_b]
-            tag_info = tag_k[lt_b:lt_b+2]
             # 1-36 Galileo SV, 255: Galileo constellation
             prn_d = tag_info[0]  # sv transmitting the data to be authenticated
             # ADKD Authentication Data and Key Delay
@@ -629,12 +628,13 @@ class osnma():
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
         ofst = 0 if gst_tow_p % 60 == 0 else self.nt
 
-        ltag_b = self.tag_len_t[self.ts]//8+2
+        lt = self.tag_len_t[self.ts]
         for k in range(self.nt):  # add FLEX taginfo
             if mode_t[k+ofst] != 2:
                 continue
-            i0 = k*ltag_b
-            msg += self.tag[i0+ltag_b-2:i0+ltag_b]
+            tag_info = bytearray(2)
+            copy_buff(self.tag, tag_info, k*(lt+16)+lt, 0, 16)
+            msg += tag_info
 
         macseq_c_ = self.process_mac(msg)
         tag0, macseq_, cop = self.decode_tags_info(0)
@@ -656,15 +656,16 @@ class osnma():
         lt = self.tag_len_t[self.ts]
         lk = self.klen_t[self.ks]
         self.nt = (480-lk)//(lt+16)  # number of tags
-        ltag_b = (lt+16)//8
         lm_b = 60
         i0 = (prn-1)*lm_b
         mack_p = self.mack_p[i0:i0+lm_b]  # previous MACK
         mack_c = self.mack_c[i0:i0+lm_b]  # current MACK
-        i0 = ltag_b*self.nt
-        self.tag = mack_p[0:i0]
-        self.key_p = mack_p[i0:i0+lk//8]
-        self.key_c = mack_c[i0:i0+lk//8]
+        ltag = (lt+16)*self.nt
+        self.tag = mack_p[0:(ltag+7)//8]
+        self.key_p = bytearray(lk//8)
+        copy_buff(mack_p, self.key_p, ltag, 0, lk)
+        self.key_c = bytearray(lk//8)
+        copy_buff(mack_c, self.key_c, ltag, 0, lk)
         return True
 
     def load_gal_inav(self, msg):
@@ -807,8 +808,10 @@ class osnma():
         m = self.gen_msg(tag_.adkd, tag_.prn_d, tag_.gst_sf, tag_.cnt, msg)
 
         tag_c = self.process_mac(m)
-        lt_b = self.tag_len_t[self.ts]//8
-        result = (tag_c[:lt_b] == tag_.tag)
+        lt = self.tag_len_t[self.ts]
+        tag = bytearray((lt+7)//8)
+        copy_buff(tag_c, tag, 0, 0, lt)
+        result = (tag == tag_.tag)
         return result
 
     def save_auth_nav(self, result, tag_):
-- 
2.43.0


From db4324cdadae39d623ea234ba1a1fe7bf443314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 105/126] fix: QZNMA signatures are verified with the public
 key of their key ID

---
 src/cssrlib/qznma.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 7652cf9..c49cdd6 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -13,6 +13,7 @@ Note:
 """
 
 import copy
+from os import path
 from binascii import unhexlify, hexlify
 import numpy as np
 import bitstruct.c as bs
@@ -92,6 +93,7 @@ class qznma():
     def __init__(self):
         self.navmsg = {}
         self.pk = None
+        self.keyid = -1
         self.rds = {}
         self.flag_e = {}
         self.mask = {}
@@ -500,6 +502,21 @@ class qznma():
 
         return npr, mnav
 
+    def select_pubkey(self, keyid):
+        """ select the public key specified by the key ID """
+        if self.pk is not None and keyid == self.keyid:
+            return True
+
+        pubk_path = self.pubk_bdir + f"/{keyid:03d}.der"
+        pk = load_pubkey(pubk_path) if path.isfile(pubk_path) else None
+        if pk is None:
+            if self.monlevel > 0:
+                print(f"loading public key {keyid} was faild.")
+            return False
+
+        self.pk, self.keyid = pk, keyid
+        return True
+
     def verify_gnss_nav(self, npr, mnav):
         """ verifify the navigation message in MNAV using DS """
         if npr.mt == uNavId.GPS_LNAV:
@@ -525,13 +542,8 @@ class qznma():
         sat = self.svid2sat(npr.svid)
         sys, prn = sat2prn(sat)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
+        if not self.select_pubkey(npr.keyid):
+            return False
 
         ds_der = raw2der(npr.ds)
         status = False
@@ -719,13 +731,8 @@ class qznma():
         rand_[1:k1+1] = msg
         bs.pack_into('u16', rand_, 8+mlen, npr.salt)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
+        if not self.select_pubkey(npr.keyid):
+            return False
 
         status = False
         try:
-- 
2.43.0


From ecb95cb030f8a6cb056d567e232f656f4f1cefb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 106/126] fix: QZNMA signature composed from the parts of
 different signatures

---
 src/cssrlib/qznma.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index c49cdd6..ee6f89c 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -578,12 +578,19 @@ class qznma():
 
         return status
 
+    def chk_rds_part(self, sat, sid):
+        """ check the order of RDS parts to avoid mixing signatures """
+        if sid == 1 or (sid > 1 and not (self.mask[sat] >> (sid-2)) & 1):
+            self.mask[sat] = 0  # start of RDS or missing part
+
+        return sid == 1 or (sid > 1 and self.mask[sat] > 0)
+
     def gen_rds(self, sat, mode, msg):
         """ prepare RDS from navigation message and parameters  """
 
         if mode == uNavId.GPS_LNAV:  # 540bits (180bitsx3)
             sid, d = bs.unpack_from('u2u14', msg, 32*2+2+8)
-            if sid > 0:
+            if self.chk_rds_part(sat, sid):
                 i0 = (sid-1)*180
                 bs.pack_into('u14', self.rds[sat], i0, d)
 
@@ -595,13 +602,13 @@ class qznma():
 
         elif mode == uNavId.GPS_CNAV:  # 708bits (236bits*3)
             sid = bs.unpack_from('u2', msg, 38)[0]
-            if sid > 0:
+            if self.chk_rds_part(sat, sid):
                 copy_buff(msg, self.rds[sat], 40, (sid-1)*236, 236)
                 self.mask[sat] |= (1 << (sid-1))
 
         elif mode == uNavId.GPS_CNAV2:  # 702bits (234bits*3)
             sid = bs.unpack_from('u2', msg, 1266)[0]
-            if sid > 0:
+            if self.chk_rds_part(sat, sid):
                 copy_buff(msg, self.rds[sat], 1268, (sid-1)*234, 234)
                 self.mask[sat] |= (1 << (sid-1))
 
-- 
2.43.0


From ffec6d7396dfc2b163190be2bd24fc1175378b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 107/126] fix: QZNMA authentication of QZSS messages at the
 start of the week

---
 src/cssrlib/qznma.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index ee6f89c..cd5e698 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -808,7 +808,7 @@ class qznma():
                 sid = bs.unpack_from('u3', msg, 53)[0]
                 tow_ = bs.unpack_from('u17', msg, 32+2)[0]*6
                 _, prn = sat2prn(sat)
-                ki = (tow_-self.tow_p[sat])//6
+                ki = (tow_-self.tow_p[sat]) % 604800//6
 
                 if sid == 4 or sid == 5:
                     data_id, svid = bs.unpack_from('u2u6', msg, 32*2+2)
@@ -820,7 +820,7 @@ class qznma():
                             self.tow_p[sat], self.mask[sat], self.flag_e[sat] \
                                 = tow_, 0, 0
 
-                elif ki in (1, 2, 3):
+                elif ki in (1, 2, 3) and self.npr[sat] is not None:
                     self.msg2nav(sat, ki, msg, uNavId.GPS_LNAV)
 
                 if self.flag_e[sat] == 7:
@@ -838,7 +838,7 @@ class qznma():
                 prn_, msgid, tow_, alert = bs.unpack_from('u6u6u17u1', msg, 8)
                 prn = prn_ + 192
                 tow_ *= 6
-                ki = (tow_-self.tow_p[sat])//6
+                ki = (tow_-self.tow_p[sat]) % 604800//6
 
                 if msgid == 60:
                     self.npr[sat] = self.gen_rds(sat, uNavId.GPS_CNAV, msg)
@@ -847,7 +847,7 @@ class qznma():
                         self.tow_p[sat], self.mask[sat], self.flag_e[sat] = \
                             tow_, 0, 0
 
-                elif ki in (1, 2, 3):
+                elif ki in (1, 2, 3) and self.npr[sat] is not None:
                     # copy MT10,11,3x after RDS
                     self.msg2nav(sat, ki, msg, uNavId.GPS_CNAV)
 
@@ -874,7 +874,8 @@ class qznma():
                     if self.mask[sat] == 7:
                         self.tow_p[sat], self.mask[sat] = tow_, 0
 
-                elif tow_ == self.tow_p[sat]+18:
+                elif self.npr[sat] is not None and \
+                        tow_ == (self.tow_p[sat]+18) % 604800:
                     mnav = self.cnav2_to_mnav(toi, msg)
                     status = self.verify_qzss_nav(
                         sat, self.npr[sat], mnav, uNavId.GPS_CNAV2)
-- 
2.43.0


From ad0066f6cc03569ce8e1b6bac5ed78c2afec909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 108/126] fix: time of GNSS messages authenticated by QZNMA
 around the end of the week

---
 src/cssrlib/qznma.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index cd5e698..96abe22 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -468,18 +468,18 @@ class qznma():
             mnav = self.lnav_to_mnav(
                 self.navmsg[sat][iode1][mt].msg, sys=uGNSS.GPS)
 
-            bs.pack_into('u17', mnav, 300*0+30, rtow)
-            bs.pack_into('u17', mnav, 300*1+30, rtow+1)
-            bs.pack_into('u17', mnav, 300*2+30, rtow+2)
+            bs.pack_into('u17', mnav, 300*0+30, rtow % 100800)
+            bs.pack_into('u17', mnav, 300*1+30, (rtow+1) % 100800)
+            bs.pack_into('u17', mnav, 300*2+30, (rtow+2) % 100800)
 
         elif mt == uNavId.GPS_CNAV:
 
             mnav = self.cnav_to_mnav(
                 self.navmsg[sat][iode1][mt].msg, sys=uGNSS.GPS)
 
-            bs.pack_into('u17', mnav, 300*0+20, rtow)
-            bs.pack_into('u17', mnav, 300*1+20, rtow+1)
-            bs.pack_into('u17', mnav, 300*2+20, rtow+2)
+            bs.pack_into('u17', mnav, 300*0+20, rtow % 100800)
+            bs.pack_into('u17', mnav, 300*1+20, (rtow+1) % 100800)
+            bs.pack_into('u17', mnav, 300*2+20, (rtow+2) % 100800)
 
         elif mt == uNavId.GPS_CNAV2:
 
@@ -491,9 +491,9 @@ class qznma():
             mnav = self.fnav_to_mnav(self.navmsg[sat][iode1][mt].msg)
 
             bs.pack_into('u20', mnav, 244*0+167, rtow)
-            bs.pack_into('u20', mnav, 244*1+194, rtow+10)
-            bs.pack_into('u20', mnav, 244*2+186, rtow+20)
-            bs.pack_into('u20', mnav, 244*3+189, rtow+30)
+            bs.pack_into('u20', mnav, 244*1+194, (rtow+10) % 604800)
+            bs.pack_into('u20', mnav, 244*2+186, (rtow+20) % 604800)
+            bs.pack_into('u20', mnav, 244*3+189, (rtow+30) % 604800)
 
         elif mt == uNavId.GAL_INAV:
 
-- 
2.43.0


From 5b2affb05a52c2bf3456d2443a828f6c90407886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 109/126] fix: reserved satellite ID in QZNMA messages

---
 src/cssrlib/qznma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 96abe22..34c636f 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -417,6 +417,8 @@ class qznma():
             sat = prn2sat(uGNSS.SBS, svid)
         elif svid <= 202:
             sat = prn2sat(uGNSS.QZS, svid)
+        else:
+            sat = 0
 
         return sat
 
@@ -447,9 +449,8 @@ class qznma():
         i += 16
 
         sat = self.svid2sat(svid)
-        sys, prn = sat2prn(sat)
 
-        if svid == 0 or sat not in self.navmsg.keys() or \
+        if sat == 0 or sat not in self.navmsg.keys() or \
                 iode1 not in self.navmsg[sat].keys() or \
                 mt not in self.navmsg[sat][iode1].keys():
             return None, None
-- 
2.43.0


From 98dfd6e2c8f58f38a46bda68e0beccfcfe71d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 110/126] fix: QZNMA messages of different types with the same
 issue of data

---
 src/cssrlib/qznma.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 34c636f..ef5e451 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -131,7 +131,7 @@ class qznma():
                 msg = unhexlify(msg_)
 
                 sid = bs.unpack_from('u3', msg, 53)[0]
-                if sid > 3:
+                if sid < 1 or sid > 3:
                     continue
 
                 buff[(sid-1)*40:(sid-1)*40+40] = msg[0:40]
@@ -141,6 +141,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_LNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_LNAV] = navmsg
 
     def load_navmsg_cnav(self, navfile):
@@ -175,6 +176,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_CNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_CNAV] = navmsg
 
     def load_navmsg_fnav(self, navfile):
@@ -193,7 +195,7 @@ class qznma():
                 msg = unhexlify(msg_)
 
                 sid = bs.unpack_from('u6', msg, 0)[0]
-                if sid > 4:
+                if sid < 1 or sid > 4:
                     continue
 
                 for k in range(31):  # copy 244bits
@@ -721,6 +723,7 @@ class qznma():
             iodn = navmsg.iodn
             if iodn not in self.navmsg[sat].keys():
                 self.navmsg[sat][iodn] = {}
+            if mode not in self.navmsg[sat][iodn].keys():
                 self.navmsg[sat][iodn][mode] = navmsg
 
     def verify_qzss_nav(self, sat, npr, msg, mode):
-- 
2.43.0


From d8055883b76b36fed206c58a57c238efa1a18cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 111/126] fix: reference time of ephemeris of LNAV messages for
 QZNMA

---
 src/cssrlib/qznma.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index ef5e451..9db93a8 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -412,9 +412,10 @@ class qznma():
     def svid2sat(self, svid):
         """ convert svid in QZNMA to sat """
         if svid <= 63:
-            sat = prn2sat(uGNSS.GPS, svid)
+            sat = prn2sat(uGNSS.GPS, svid) if svid <= uGNSS.GPSMAX else 0
         elif svid <= 127:
-            sat = prn2sat(uGNSS.GAL, svid-64)
+            sat = prn2sat(uGNSS.GAL, svid-64) if 0 < svid-64 <= \
+                uGNSS.GALMAX else 0
         elif svid <= 191:
             sat = prn2sat(uGNSS.SBS, svid)
         elif svid <= 202:
@@ -650,7 +651,7 @@ class qznma():
 
         tow = bs.unpack_from('u17', buff, 320*0+32+2)[0]*6
         toc = bs.unpack_from('u16', buff, 320*0+32*7+8+2)[0]
-        toe = bs.unpack_from('u16', buff, 320*0+32*9+2)[0]
+        toe = bs.unpack_from('u16', buff, 320*1+32*9+2)[0]
 
         navmsg = NavMsg(sys, uNavId.GPS_LNAV)
         navmsg.tow = tow
-- 
2.43.0


From d18ed7069cef67daf3ceedb888afe658fa45454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 112/126] fix: transmission time of GPS/QZSS LNAV ephemeris

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index c4c66e3..4142945 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -462,7 +462,7 @@ class RawNav():
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.mode = 0  # LNAV
 
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = gpst2time(eph.week, tow)
         if toc < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
-- 
2.43.0


From c2c93d3698b53b2ab39ae40dd83cc8ec90c83ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 113/126] fix: week number of GPS/QZSS LNAV ephemeris around
 the rollover of the 10-bit week

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 4142945..eb8fef3 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -431,7 +431,7 @@ class RawNav():
         if iode != iode2 or iode != (iodc & 0xff):
             return None
 
-        eph.week = (week // 1024)*1024 + wn
+        eph.week = wn + (week-wn+512)//1024*1024
         eph.l2p = l2p
         eph.code = code
         eph.svh = svh
-- 
2.43.0


From 7a503dcdaa804fddde7fa9eb9a65324bde3e9cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 114/126] fix: week of the prediction time in CNAV, CNAV2
 around the rollover of the 8-bit week

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index eb8fef3..f063f3d 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -631,7 +631,7 @@ class RawNav():
         eph.omg = omg*rCST.P2_32*rCST.SC2RAD
         eph.integ = (alert << 2) | (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        eph.wn_op = wn_op + (wn-wn_op+128)//256*256
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
@@ -744,7 +744,7 @@ class RawNav():
         else:
             eph.integ = (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        eph.wn_op = wn_op + (wn-wn_op+128)//256*256
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
-- 
2.43.0


From 6668b899ab5b18cd14face1d3e83bbc0c496df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 115/126] fix: week of CNAV2 ephemeris in the second half of
 the week

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index f063f3d..0765083 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -761,9 +761,9 @@ class RawNav():
 
         eph.mode = 2  # CNAV/2
         eph.tot = gpst2time(eph.week, tow)
-        if toe < tow - rCST.HALFWEEK_SEC:
+        if eph.toes < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
-        elif toe > tow + rCST.HALFWEEK_SEC:
+        elif eph.toes > tow + rCST.HALFWEEK_SEC:
             eph.week -= 1
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = eph.toe
-- 
2.43.0


From 83dd8b81ba67e13d5260e5879eab64c7b707ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 116/126] fix: week of Galileo ephemeris around the end of the
 week

---
 src/cssrlib/rawnav.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 0765083..2bb9fc2 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -143,6 +143,14 @@ class RawNav():
         s, v = bs.unpack_from('u1u'+str(len_-1), buff, pos)
         return -v if s else v
 
+    def adjweek(self, week, tos, tow):
+        """ week of the epoch tos [s] nearest to the transmission time tow """
+        if tos < tow - rCST.HALFWEEK_SEC:
+            week += 1
+        elif tos > tow + rCST.HALFWEEK_SEC:
+            week -= 1
+        return week
+
     def urai2sva(self, urai, sys=uGNSS.GPS):
         """ GPS/QZSS SV accuracy [1] 20.3.3.3.1.3, [2] Tab. 5.4.3-2 """
         # sva_t = [2.40, 3.40, 4.85, 6.85, 9.65, 13.65, 24.00, 48.00, 96.00,
@@ -259,12 +267,10 @@ class RawNav():
             eph.code |= (1 << 8)  # toc/af0-2, SISA are for E5a, E1
 
         eph.tot = gst2time(week_gst, tow)
-        if toc < tow - rCST.HALFWEEK_SEC:
-            week_gst += 1
-        elif toc > tow + rCST.HALFWEEK_SEC:
-            week_gst -= 1
+        eph.toc = gst2time(self.adjweek(week_gst, toc, tow), toc)
+        week_gst = self.adjweek(week_gst, eph.toes, tow)
+        eph.week = week_gst + 1024  # week to go with toe
         eph.toe = gst2time(week_gst, eph.toes)
-        eph.toc = gst2time(week_gst, toc)
 
         eph.tgd = bgda*rCST.P2_32    # TGD (E1, E5a)
         eph.tgd_b = bgdb*rCST.P2_32  # TGD (E1, E5b)
@@ -345,13 +351,10 @@ class RawNav():
 
         eph.tot = gst2time(week_gst, tow)
 
-        if toc < tow - rCST.HALFWEEK_SEC:
-            week_gst += 1
-        elif toc > tow + rCST.HALFWEEK_SEC:
-            week_gst -= 1
-
+        eph.toc = gst2time(self.adjweek(week_gst, toc, tow), toc)
+        week_gst = self.adjweek(week_gst, eph.toes, tow)
+        eph.week = week_gst + 1024  # week to go with toe
         eph.toe = gst2time(week_gst, eph.toes)
-        eph.toc = gst2time(week_gst, toc)
 
         eph.tgd = bgda*rCST.P2_32    # TGD (E1, E5a)
         eph.tgd_b = 0.0
-- 
2.43.0


From 3ca7a17ab7706eead2652d152b93819756327f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 117/126] fix: toe, toc of BDS D1/D2 ephemeris (time system,
 week)

---
 src/cssrlib/rawnav.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 2bb9fc2..fbfae74 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1153,12 +1153,9 @@ class RawNav():
 
         eph.toes = ((toe1 << 15)+toe2)*8.0
         eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
-        if eph.toes > sow1+rCST.HALFWEEK_SEC:
-            eph.week += 1
-        elif eph.toes < sow1-rCST.HALFWEEK_SEC:
-            eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        eph.toc = bdt2gpst(bdt2time(self.adjweek(eph.week, toc, sow1), toc))
+        eph.week = self.adjweek(eph.week, eph.toes, sow1)
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 1  # IGSO/MEO
         eph.mode = 0
@@ -1271,13 +1268,11 @@ class RawNav():
         eph.OMGd = ((OMGdp8 << 5)+OMGdp9)*rCST.P2_43*rCST.SC2RAD
         eph.omg = ((omgp9 << 5)+omgp10)*rCST.P2_31*rCST.SC2RAD
 
-        eph.tot = bdt2gpst(bdt2time(eph.week, sow_[0]))
-        if eph.toes > sow_[0]+302400.0:
-            eph.week += 1
-        elif eph.toes < sow_[0]-302400.0:
-            eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        sow1 = int(sow_[0])
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
+        eph.toc = bdt2gpst(bdt2time(self.adjweek(eph.week, toc, sow1), toc))
+        eph.week = self.adjweek(eph.week, eph.toes, sow1)
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 2  # GEO
         eph.mode = 0
-- 
2.43.0


From b1a3754bc240bbdaa16845860de2ec0c8536f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 118/126] fix: M0, sqrtA of BDS D2 ephemeris

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index fbfae74..5abf137 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1219,7 +1219,7 @@ class RawNav():
         # page 5
         i = 160*4
         cucp5 = bs.unpack_from('u4', buff, i+46)[0]
-        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 12, i+90, 8) * \
+        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 22, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
         ep5 = bs.unpack_from('s10', buff, i+124)[0]
@@ -1227,7 +1227,7 @@ class RawNav():
         # page 6
         i = 160*5
         ep6 = self.getbitu2(buff, i+46, 6, i+60, 16)
-        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, 120, 4)*rCST.P2_19
+        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, i+120, 4)*rCST.P2_19
         eph.A = sqrtA**2
         cicp6 = bs.unpack_from('s10', buff, i+124)[0]
 
-- 
2.43.0


From 7cccfa5b31011d971789984f36c3507308307366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 119/126] fix: BDS D2 ephemeris composed from pages of
 different frames

---
 src/cssrlib/rawnav.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 5abf137..2bab333 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1189,7 +1189,8 @@ class RawNav():
                 return None
             sow_[k] = self.getbitu2(buff, 160*k+18, 8, 160*k+30, 12)
             if k == 2:
-                sow_[k] != sow_[k-2]+6
+                if sow_[k] != sow_[k-2]+6:
+                    return None
             elif k > 0 and sow_[k] != sow_[k-1]+3:
                 return None
 
-- 
2.43.0


From 044128891253c9ac4010932a67892d7eddabfb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 120/126] fix: tot, toe, toc of BDS CNAV1/2/3 ephemeris (time
 system, week)

---
 src/cssrlib/rawnav.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 2bab333..e225ee0 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -790,7 +790,6 @@ class RawNav():
 
         Aref = 27906100.0 if eph.sattype == 3 else 42162200.0
         eph.A = Aref + dA*2**-9
-        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
         return i
 
     def decode_bds_cnav_eph2(self, msg, eph, i):
@@ -816,13 +815,20 @@ class RawNav():
         toc, a0, a1, a2 = \
             bs.unpack_from('u11s25s22s11', msg, i)
         i += 69
-        tocs = toc*300.0
+        eph.tocs = toc*300.0
         eph.af0 = a0*rCST.P2_34
         eph.af1 = a1*rCST.P2_50
         eph.af2 = a2*rCST.P2_66
-        eph.toc = bdt2gpst(bdt2time(eph.week, tocs))
         return i
 
+    def set_bds_cnav_time(self, eph, tow):
+        """ set times of BDS CNAV from the week, time of transmission """
+        eph.tot = bdt2gpst(bdt2time(eph.week, tow))
+        week = self.adjweek(eph.week, eph.tocs, tow)
+        eph.toc = bdt2gpst(bdt2time(week, eph.tocs))
+        eph.week = self.adjweek(eph.week, eph.toes, tow)
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
+
     def decode_bds_cnav_iono(self, msg, i):
         """ BDS CNAV message decoder for Ionoephere parameters """
         a1, a2, a3, a4, a5, a6, a7, a8, a9 = \
@@ -895,11 +901,11 @@ class RawNav():
             return None
 
         tow = how*3600+soh
-        eph.tot = bdt2time(eph.week, tow)
 
         i = self.decode_bds_cnav_eph1(msg, eph, i)
         i = self.decode_bds_cnav_eph2(msg, eph, i)
         i = self.decode_bds_cnav_clk(msg, eph, i)
+        self.set_bds_cnav_time(eph, tow)
         tgd_b2ap, isc_b1cd, tgd_b1cp = bs.unpack_from('s12s12s12', msg, i)
         eph.tgd = tgd_b1cp*rCST.P2_34
         eph.isc[0] = isc_b1cd*rCST.P2_34
@@ -1012,7 +1018,7 @@ class RawNav():
         eph.tgd_b = tgd_b2ap*rCST.P2_34
 
         eph.svh = hs
-        eph.tot = bdt2time(eph.week, sow1)
+        self.set_bds_cnav_time(eph, sow1)
         eph.mode = 2  # B-CNAV2
 
         return eph
@@ -1069,7 +1075,7 @@ class RawNav():
         eph.sisai[0], eph.svh = bs.unpack_from('u5u2', buff, i)
         i += 7
 
-        eph.tot = bdt2time(eph.week, sow1)
+        self.set_bds_cnav_time(eph, sow1)
         eph.mode = 3  # B-CNAV3
 
         return eph
-- 
2.43.0


From 327c7983bda02ed9c266743914ab0aa9339643d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 121/126] fix: week of NavIC ephemeris around the end of the
 week

---
 src/cssrlib/rawnav.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index e225ee0..97704b2 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1363,15 +1363,11 @@ class RawNav():
         eph.OMGd = OMGd*rCST.P2_41*rCST.SC2RAD
         eph.i0 = i0*rCST.P2_31*rCST.SC2RAD
 
-        eph.toc = gpst2time(eph.week, toc)
+        eph.tot = gpst2time(eph.week, tow1)
+        eph.toc = gpst2time(self.adjweek(eph.week, toc, tow1), toc)
+        eph.week = self.adjweek(eph.week, eph.toes, tow1)
         eph.toe = gpst2time(eph.week, eph.toes)
 
-        if eph.toes > tow1+302400.0:
-            week += 1
-        elif eph.toes < tow1-302400.0:
-            week -= 1
-        eph.tot = gpst2time(week, tow1)
-
         eph.mode = 0
         return eph
 
@@ -1549,9 +1545,10 @@ class RawNav():
         eph.cuc = cuc*rCST.P2_30
 
         eph.mode = 2  # L1NAV
+        eph.tot = gst2time(eph.week, tow)
+        eph.week = self.adjweek(eph.week, eph.toes, tow)
         eph.toe = gst2time(eph.week, eph.toes)
         eph.toc = eph.toe
-        eph.tot = gst2time(eph.week, tow)
 
         return eph
 
-- 
2.43.0


From 6211122eb549183eb7f59e89c811543e46edbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 122/126] fix: signal of Galileo E5b C/N0 in the signal table
 of receiver decoders

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 97704b2..25eb7bf 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -2035,7 +2035,7 @@ class rcvDec():
                          rSigRnx('EL8Q'), rSigRnx('EL6C')],
                 uTYP.D: [rSigRnx('ED1C'), rSigRnx('ED5Q'), rSigRnx('ED7Q'),
                          rSigRnx('ED8Q'), rSigRnx('ED6C')],
-                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('GS7Q'),
+                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('ES7Q'),
                          rSigRnx('ES8Q'), rSigRnx('ES6C')],
             }
 
-- 
2.43.0


From 17c145922612e4e1da4d3ceb9d289fe170a747a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 123/126] fix: BDS D1 ephemeris composed of subframes of
 different frames

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 25eb7bf..d898eed 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1108,8 +1108,8 @@ class RawNav():
         if id1 != 1 or id2 != 2 or id3 != 3:
             return None
 
-        # if sow2 != sow1+6 or sow3 != sow2+6:
-        #    return None
+        if sow2 != sow1+6 or sow3 != sow2+6:
+            return None
 
         eph = Eph(sat)
 
-- 
2.43.0


From 82d4fe15d1ff968966a35844a00a9ccf5d312af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:48 +0000
Subject: [PATCH 124/126] fix: day of PPP via SouthPAN corrections received
 around midnight

---
 src/cssrlib/cssr_pvs.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/cssrlib/cssr_pvs.py b/src/cssrlib/cssr_pvs.py
index 2416174..c9e3af8 100644
--- a/src/cssrlib/cssr_pvs.py
+++ b/src/cssrlib/cssr_pvs.py
@@ -19,7 +19,7 @@ import numpy as np
 import bitstruct as bs
 from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, prn2sat, sCType
 from cssrlib.cssrlib import sat2id
-from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, timeadd, time2gpst
+from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, time2gpst, tod2tow
 from binascii import unhexlify
 
 
@@ -85,14 +85,6 @@ class cssr_pvs(cssr):
             sat = prn2sat(uGNSS.BDS, prn)
         return sat
 
-    def adjust_time_week(self, time, time0):
-        dt = timediff(time, time0)
-        if dt > rCST.HALFWEEK_SEC:
-            time = timeadd(time, -rCST.WEEK_SEC)
-        elif dt < -rCST.HALFWEEK_SEC:
-            time = timeadd(time,  rCST.WEEK_SEC)
-        return time
-
     def check_validity(self, time):
         for sat in self.sat_n:
             if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
@@ -127,8 +119,7 @@ class cssr_pvs(cssr):
             self.sat_n.append(sat)
 
         tow = self.tow0 + t0*16.0
-        self.time = self.adjust_time_week(
-            gpst2time(self.week, tow), self.time0)
+        self.time = tod2tow(t0*16.0, self.time0)
 
         self.lc[0].iode[sat] = iodn
         self.lc[0].dorb[sat] = np.zeros(3)
-- 
2.43.0


From 90d6397af6a645610b2b19906b90b8307e2f2d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 125/126] fix: SBAS grid points at 85 degrees around a southern
 pierce point

---
 src/cssrlib/sbas.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 5284ffa..5d1666d 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -109,19 +109,21 @@ def searchIGP(t, posp, cs):
             lonp[1] = lon//90*90
             lonp[3] = lonp[1]+90
         elif lat >= -85.0 and lat < -75.0:
-            lonp[0] = (lon-50.0)//90*90+40
+            lonp[0] = (lon-40.0)//90*90+40
             lonp[2] = lonp[0] + 90
         elif lat >= 85.0:
             lonp[0:4] = lon//90*90
         elif lat < -85.0:
-            lonp[0:4] = (lon-50)//90*90+40
+            lonp[0:4] = (lon-40.0)//90*90+40
 
     latp[2] = latp[0]
     latp[3] = latp[1]
 
     for i in range(4):
-        if lonp[i] == 180:
-            lonp[i] = -180
+        if lonp[i] >= 180:
+            lonp[i] -= 360
+        elif lonp[i] < -180:
+            lonp[i] += 360
     for band in range(MAXBAND):
         if band not in cs.vtec or band not in cs.givei:
             continue
-- 
2.43.0


From ed55d905c7c9c0bfa48d7a678ce839faf6efe00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 126/126] fix: clear marks of used satellites at every epoch of
 the filter

---
 src/cssrlib/pppssr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 66ae875..7083581 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1474,7 +1474,9 @@ class pppos():
             return -1
 
         # SD residuals
+        # NOTE: marks of satellites used in the previous epoch are cleared
         #
+        self.nav.vsat[:] = 0
         v, H, R = self.sdres(obs, xp, y, e, sat, el)
         Pp = self.nav.P.copy()
 
-- 
2.43.0

