From b15cb37108ed6a1be00ece60c1307051b447e46e Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 01/34] fix: zero translation of moments returns a copy, not
 the caller's array

translate_qlm and translate_Qlmb returned their argument itself for a zero
displacement, so editing the result edited the input (and the reverse).
---
 newt/translations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/translations.py b/newt/translations.py
index c943bbe..c5b8874 100644
--- a/newt/translations.py
+++ b/newt/translations.py
@@ -34,7 +34,7 @@ def translate_qlm(qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return qlm
+        return np.copy(qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of qlm for now
@@ -95,7 +95,7 @@ def translate_Qlmb(Qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return Qlm
+        return np.copy(Qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of Qlm for now
-- 
2.43.0


From b39cdfb4157bf1adc292ca37d8d9b9c5c6f310ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 02/34] fix: an incomplete moment file raises instead of
 loading as zeros

---
 newt/read_multiFor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 31c8be9..321b0aa 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -49,6 +49,8 @@ def read_gsq(filename, filepath='C:\\mom\\'):
         if m > l:
             l += 1
             m = 0
+    if l != LMax+1:
+        raise ValueError('Incomplete set of moments in '+filename)
 
     # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
     ms = np.arange(-LMax, LMax+1)
@@ -92,6 +94,8 @@ def read_gbq(filename, filepath='C:\\mom\\'):
         if m > l:
             l += 1
             m = 0
+    if l != LMax+1:
+        raise ValueError('Incomplete set of moments in '+filename)
 
     # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
     ms = np.arange(-LMax, LMax+1)
-- 
2.43.0


From 84b740b04318c2d5578fe05b2f12105ca7ffed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 03/34] fix: only the mpc folder itself is exchanged for the
 mom folder when loading a part

---
 newt/read_multiFor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 321b0aa..c91f74d 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -377,7 +377,10 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
             fname = line.split('load ')[1]
             fname = fname.strip()
             print(fname)
-            qlmLoad = read_gsq(fname, filepath.replace('mpc', 'mom'))
+            # Moments are in the companion 'mom' folder, 'mpc' may also appear
+            # elsewhere in the path
+            mompath = 'mom'.join(filepath.rsplit('mpc', 1))
+            qlmLoad = read_gsq(fname, mompath)
             if np.shape(qlmLoad) != np.shape(qlmWrk):
                 raise TypeError('Loaded part '+fname+' has wrong LMax')
             qlmWrk = qlmLoad
-- 
2.43.0


From 2c2c223e8c829a87d9dc5cb3e0609e97bd03f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 04/34] fix: script commands are recognised by their first
 word, not anywhere in a line

---
 newt/read_multiFor.py | 55 +++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index c91f74d..8b516f7 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -147,8 +147,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     while k < nlines:
         line = lines[1+k]
         # Get rid of stuff after a comment
-        line = line.split('%')[0]
-        if 'create' in line:
+        line = line.split('%')[0].strip()
+        if line.startswith('create'):
             print(line)
             shape = line.split('create')[1].split()[0]
             if shape == 'cylinder':
@@ -163,7 +163,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.annulus(LMax, mass, H, Ri, Ro, phic, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -178,7 +178,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.sphere(LMax, mass, r)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -194,7 +194,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -209,7 +209,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tri_prism(LMax, mass, t, d, y1, y2)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -240,7 +240,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -258,7 +258,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk -= qlm.tri_iso_prism2(LMax, massTri, h, r, 0, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -273,7 +273,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tetrahedron(LMax, mass, x, y, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -291,7 +291,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 # qlmWrk = rot.rotate_qlm(qlmWrk, 0, theta, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -306,7 +306,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = rot.rotate_qlm(qlmWrk, np.pi/2, 0, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -321,7 +321,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.pyramid(LMax, mass, x/2, y/2, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -336,7 +336,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.rect_prism(LMax, mass, z, x, y, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].strip().startswith('add'):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -346,34 +346,33 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
             else:
                 print(shape, ' does not have a known set of moments')
                 for n in range(nlines-k):
-                    line2 = lines[1+k+1]
-                    if ('create' not in line2) and ('end' not in line2):
-                        k += 1
-                    else:
+                    line2 = lines[1+k+1].strip()
+                    if line2.startswith(('create', 'end')):
                         break
-        elif 'rotate' in line:
+                    k += 1
+        elif line.startswith('rotate'):
             dphi = np.array(line.split('rotate')[1].split(','), dtype=float)
             # Convert to radians
             dphi *= np.pi/180
             print('rotated ', shape)
             qlmWrk = rot.rotate_qlm(qlmWrk, dphi[0], dphi[1], dphi[2])
-        elif 'translate' in line:
+        elif line.startswith('translate'):
             print('translated ', shape)
             dr = np.array(line.split('translate')[1].split(','), dtype=float)
             dr *= fac
             qlmWrk = trs.translate_qlm(qlmWrk, dr)
-        elif 'add' in line:
+        elif line.startswith('add'):
             print('added ', shape)
             qlmTot += qlmWrk
-        elif 'cmin' in line:
+        elif line.startswith('cmin'):
             print('parameters in centimeters')
             fac = 1e-2
-        elif 'inchin' in line:
+        elif line.startswith('inchin'):
             print('parameters in inches')
             fac = 25.4e-3
-        elif 'nsteps' in line:
+        elif line.startswith('nsteps'):
             nsteps = line.split()[-1]
-        elif 'load' in line:
+        elif line.startswith('load'):
             fname = line.split('load ')[1]
             fname = fname.strip()
             print(fname)
@@ -385,15 +384,15 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 raise TypeError('Loaded part '+fname+' has wrong LMax')
             qlmWrk = qlmLoad
             shape = fname
-        elif 'zeroqlm' in line:
+        elif line.startswith('zeroqlm'):
             qlmTot *= 0
-        elif 'gettotal' in line:
+        elif line.startswith('gettotal'):
             qlmWrk = np.copy(qlmTot)
             shape = 'Total'
-        elif 'puttotal' in line:
+        elif line.startswith('puttotal'):
             qlmTot = np.copy(qlmWrk)
             shape = 'Working'
-        elif 'end' in line:
+        elif line.startswith('end'):
             print('end')
             break
         k += 1
-- 
2.43.0


From 95c46f89aca592a2df8761d3281f0c3f6f68900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 05/34] fix: moving or adding the empty working register does
 not stop a script

---
 newt/read_multiFor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 8b516f7..732e16f 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -143,6 +143,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     nlines = len(lines[1:])
     qlmTot = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     qlmWrk = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
+    shape = 'Working'
     k = 0
     while k < nlines:
         line = lines[1+k]
-- 
2.43.0


From 75efb529b58780c3951946778085a07a12fe8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 06/34] fix: cone in a script honours its upper radius

---
 newt/read_multiFor.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 732e16f..b44cc64 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -190,9 +190,23 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 LR, UR, H = line2
                 dens = float(lines[3+k].split(',')[0])*1000
-                mass = dens*np.pi*H*LR**2/3
+                mass = dens*np.pi*H*(LR**2+LR*UR+UR**2)/3
                 print(LR, UR, H, dens, mass)
-                qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
+                if LR == UR:
+                    qlmWrk = qlm.cylinder(LMax, mass, H, LR)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H/2])
+                else:
+                    # Cut the tip (height Ht) off of a complete cone
+                    Rb, Rt = max(LR, UR), min(LR, UR)
+                    Ht = H*Rt/(Rb-Rt)
+                    massTip = dens*np.pi*Ht*Rt**2/3
+                    qlmWrk = qlm.cone(LMax, mass+massTip, H+Ht, Rb, 0, np.pi)
+                    if Rt > 0:
+                        qlmTip = qlm.cone(LMax, massTip, Ht, Rt, 0, np.pi)
+                        qlmWrk -= trs.translate_qlm(qlmTip, [0, 0, H])
+                    if UR > LR:
+                        qlmWrk = rot.rotate_qlm(qlmWrk, 0, np.pi, 0)
+                        qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H])
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
                 if (pos == 0).all() and lines[2+k].strip().startswith('add'):
-- 
2.43.0


From 7c77ce78254b096df8ac94112f46ad40f96f0f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 07/34] fix: a script may stop after a shape without a closing
 end

---
 newt/read_multiFor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index b44cc64..364ebf9 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -136,6 +136,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
         lines = f.readlines()
     title = lines[0]
     print(title)
+    # A closing 'end' is optional
+    lines.append('end')
     # We don't actually use n integration in this
     nsteps = 25
     # Assume units are centimeters unless told otherwise
-- 
2.43.0


From 01e40d60485e05156e2933209e237797edcc749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 08/34] fix: a CAD mesh can be moved by an array, like the
 moments

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index d35bb2a..481b8b4 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -545,7 +545,7 @@ def translate_mesh(mesh, rPrime):
     newresult : CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.translate(rPrime)
+    result = mesh.translate(tuple(float(x) for x in rPrime))
     result.pmass = pmass
     return result
 
-- 
2.43.0


From bd7c5a1c90b1a3c20e30833a7aade97e519a61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 09/34] fix: CAD mesh is rotated in the same order as the
 moments

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 481b8b4..9548155 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -570,9 +570,9 @@ def rotate_mesh(mesh, alpha, beta, gamma):
     result: CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
+    result = mesh.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
     result = result.rotate((0,0,0), (0,1,0), beta*180/np.pi)
-    result = result.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
+    result = result.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
     result.pmass = pmass
     return result
 
-- 
2.43.0


From 3d69eb536910ce92d6e0e8a13a41b415021dd279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 10/34] fix: N-gon mesh has the requested side length and angle

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 9548155..c393e5d 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -312,9 +312,9 @@ def ngon_prism(pmass, H, a, phic, N):
     """
     ang = 2*np.pi/N
     R = a/np.sqrt(2*(1-np.cos(ang)))
-    result = cq.Workplane("XY").polygon(N, R).extrude(H/2, both=True)
+    result = cq.Workplane("XY").polygon(N, 2*R).extrude(H/2, both=True)
     result.pmass = pmass
-    result = rotate_mesh(result, ang/2, 0, 0)
+    result = rotate_mesh(result, phic+ang/2, 0, 0)
     return result
 
 
-- 
2.43.0


From 0852abffa7edd371b7c3a6abd06ae00a9e6b715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 11/34] fix: pyramid mesh takes half-lengths, as documented

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index c393e5d..cb6daeb 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -422,7 +422,7 @@ def pyramid(pmass, x, y, z):
     -------
     result : CadQuery object
     """
-    vertices = [[x/2,y/2,0], [x/2,-y/2,0], [-x/2,-y/2,0], [-x/2,y/2,0], [0,0,z]]
+    vertices = [[x,y,0], [x,-y,0], [-x,-y,0], [-x,y,0], [0,0,z]]
     faces_ixs = [[0,1,2,3,0], [0,1,4,0], [1,2,4,1], [2,3,4,2], [3,0,4,3]]
 
     faces = []
-- 
2.43.0


From 6f271589e7d919f229d65a53f35acb541f742cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 12/34] fix: cylinder-hole mesh: height and radius were
 exchanged

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index cb6daeb..26b76b5 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -457,8 +457,8 @@ def cylhole(pmass, r, R):
     -------
     result : CadQuery object
     """
-    mr = cylinder(0, r, 2*R)
-    mR = cylinder(0, R, 2*r)
+    mr = cylinder(0, 2*R, r)
+    mR = cylinder(0, 4*r, R)
     mR = mR.rotate((0,0,0), (1,0,0), 90)
     result = mr.intersect(mR)
     result.pmass = pmass
-- 
2.43.0


From 8ecb37b19662bff5d580aebc8769eb7d35530873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 13/34] fix: plate-hole mesh is complete for every tilt of the
 hole

---
 newt/genCAD.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 26b76b5..503b176 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -492,8 +492,10 @@ def platehole(pmass, t, r, theta):
     qlm : ndarray
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
-    rect = rect_prism(pmass, t, 2*r+2*t*np.sin(theta), 2*r + 2*t*np.sin(theta), 0)
-    cyl = cylinder(0, 2*t, r)
+    # the plate and the hole axis have to reach past the slanted ends
+    width = 4*(r/np.cos(theta) + t*np.abs(np.tan(theta)))
+    rect = rect_prism(pmass, t, width, width, 0)
+    cyl = cylinder(0, 2*(t/np.cos(theta) + 2*r*np.abs(np.tan(theta))), r)
     cyl = rotate_mesh(cyl, 0, theta, 0)
     result = rect.intersect(cyl)
     result.pmass = pmass
-- 
2.43.0


From 35911dcd7af5813aa9c5df2d556e9f6c9d632620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 14/34] fix: outer cone mesh starts at the inner radius and is
 centred on the x-axis

---
 newt/genCAD.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 503b176..1744325 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -527,10 +527,11 @@ def outercone(pmass, H, IR, OR, phih):
         raise ValueError('IR must be greater than 0.')
     else:
         result = (cq.Workplane("XZ")
-            .lineTo(OR,0).lineTo(IR,H).lineTo(IR,0)
+            .moveTo(IR,0).lineTo(OR,0).lineTo(IR,H)
             .close().revolve(2*phih*180/np.pi,(0,0,0),(0,1,0))
         )
     result.pmass = pmass
+    result = rotate_mesh(result, -phih, 0, 0)
     return result
 
 
-- 
2.43.0


From 588849e21537cf6e266d6876285bbf8e59074bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 15/34] fix: summing meshes leaves the parts alone and does not
 depend on their order

---
 newt/genCAD.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 1744325..f68dea8 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -581,15 +581,18 @@ def rotate_mesh(mesh, alpha, beta, gamma):
 
 
 def sum_mesh(mesh):
-    #Assumes you add positive before negative test masses
-    tmpmesh = mesh[0]
-        # add up all positive masses
-    for i in range(1, len(mesh)):
-        if mesh[i].pmass:
-            tmpmesh = tmpmesh.union(mesh[i])
-        else:
-            tmpmesh = tmpmesh.cut(mesh[i])
-    tmpmesh.pmass = True #Total sum should be positive
+    # add up all positive masses, then take away the negative ones
+    add = [m for m in mesh if m.pmass]
+    cut = [m for m in mesh if not m.pmass]
+    pmass = len(add) > 0
+    if not pmass:
+        add, cut = cut, []
+    tmpmesh = translate_mesh(add[0], (0, 0, 0))
+    for m in add[1:]:
+        tmpmesh = tmpmesh.union(m)
+    for m in cut:
+        tmpmesh = tmpmesh.cut(m)
+    tmpmesh.pmass = pmass
     return tmpmesh
 
 
-- 
2.43.0


From 1157808972dd1a220ec3b2838e3d67d2a9952dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 16/34] fix: a single CAD mesh can be saved, not only a list of
 meshes

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index f68dea8..26d35bb 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -608,7 +608,7 @@ def save_stl(mesh, name):
     -------
     None. Outputs file
     """
-    if hasattr(mesh, '__iter__'):
+    if isinstance(mesh, (list, tuple)):
         tmpmesh = sum_mesh(mesh)
         cq.exporters.export(tmpmesh, f"{name}.stl",tolerance=.01)
 
-- 
2.43.0


From 37a17a35d774bf8f470377682eb86850c2a4be19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 17/34] fix: a model file that cannot be written completely is
 an error

---
 newt/genCAD.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 26d35bb..19e178b 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -610,7 +610,16 @@ def save_stl(mesh, name):
     """
     if isinstance(mesh, (list, tuple)):
         tmpmesh = sum_mesh(mesh)
-        cq.exporters.export(tmpmesh, f"{name}.stl",tolerance=.01)
-
     else:
-        cq.exporters.export(mesh, f"{name}.stl",tolerance=.01)
+        tmpmesh = mesh
+    fname = f"{name}.stl"
+    compound = cq.Compound.makeCompound(tmpmesh.vals())
+    if not compound.exportStl(fname, tolerance=.01):
+        raise OSError('Could not write ' + fname)
+    # the exporter does not notice when the last part cannot be written:
+    # an 80 byte header, the number of triangles, and 50 bytes for each
+    with open(fname, 'rb') as f:
+        head = f.read(84)
+        size = f.seek(0, 2)
+    if size != 84 + 50*int.from_bytes(head[80:84], 'little'):
+        raise OSError('Incomplete file ' + fname)
-- 
2.43.0


From e76098316250ca88aae05854daf17ffd4f5981ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 18/34] fix: moments of hole bodies have the given mass and the
 orientation of the mesh

---
 newt/shapes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 4f0dd43..01b1489 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -269,7 +269,9 @@ class Cylhole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
+            # the moments are for a cylinder along x, the mesh is along y
+            self.qlm = rot.rotate_qlm(self.qlm, np.pi/2, 0, 0)
         else:
             print('Outer cylindrical hole shape not defined.')
 
@@ -285,6 +287,8 @@ class Platehole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
+            # the moments are for a hole along z, the mesh for a plate in xy
+            self.qlm = rot.rotate_qlm(self.qlm, 0, theta, 0)
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From 29f1103c0550e7c4f51bcc42100aec25fa1cd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 19/34] fix: a sphere with outer moments keeps them and sits at
 its centre

---
 newt/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 01b1489..2dab45c 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -198,7 +198,10 @@ class Sphere(Shape):
             self.translate(center, True)
         else:
             dens = mass/(4*np.pi*R**3/3)
-            bqlm.sphere(lmax, dens, R, center[0], center[1], center[2])
+            self.qlm = bqlm.sphere(lmax, dens, R, center[0], center[1],
+                                   center[2])
+            self.com = np.array(center, dtype=float)
+            self.mesh = gcad.translate_mesh(self.mesh, center)
 
 
 class NGon(Shape):
-- 
2.43.0


From aec517f83b52a9c4a070f98abad148f3d176203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 20/34] fix: an outer cone keeps its moments and has the given
 mass

---
 newt/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 2dab45c..ebd095e 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -253,12 +253,12 @@ class OuterCone(Shape):
     def __init__(self, lmax, inner, mass, H, IR, OR, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.outercone(mass, H, IR, OR, phih)
+        self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-            dens = mass/(2*phih*H*(OR**2-IR**2)/3)
-            bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
+            dens = mass/(phih*H*(OR - IR)*(OR + 2*IR)/3)
+            self.qlm = bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
 
 
 class Cylhole(Shape):
-- 
2.43.0


From 4f15b478723637dd256a31aad6745877bc04a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 21/34] fix: an annulus with outer moments has the given mass

---
 newt/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index ebd095e..c1b75ab 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -138,7 +138,7 @@ class Annulus(Shape):
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
-            dens = mass/(2*phih*(Ro**2 - Ri**2)*H)
+            dens = mass/(phih*(Ro**2 - Ri**2)*H)
             self.qlm = bqlm.annulus(lmax, dens, H/2, Ri, Ro, phic, phih)
             self.qlm += bqlm.annulus(lmax, dens, -H/2, Ri, Ro, phic, phih)
 
-- 
2.43.0


From 1196dd0f20e2c77c1bab2d8381072b1e3cb0a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 22/34] fix: outer annulus moment of degree 5 and order 3

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index bc18a14..6ac3a56 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -141,7 +141,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Q52 = 5/r1**3 + (4*H**4+14*H**2*r1**2-5*r1**4)/d1**7
     Q52 -= 5/r0**3 + (4*H**4+14*H**2*r0**2-5*r0**4)/d0**7
     Qlmb[5, L+2] = sH*dens*np.sqrt(11/(210*np.pi))/12*Q52*np.sin(2*phih)/2
-    Q53 = r1**5*(7*H**2+r1**2)/d1**7 - r0**5*(7*H**2+r0**2)/d0**7
+    Q53 = r1**5*(7*H**2+2*r1**2)/d1**7 - r0**5*(7*H**2+2*r0**2)/d0**7
     Qlmb[5, L+3] = dens*np.sqrt(11/(35*np.pi))/(16*H**3)*Q53*np.sin(3*phih)/3
     Q54 = 35/r0**3 - (8*H**4+28*H**2*r0**2+35*r0**4)/d0**7
     Q54 -= 35/r1**3 - (8*H**4+28*H**2*r1**2+35*r1**4)/d1**7
-- 
2.43.0


From 655e510e9d65c36de4b462b12970a52f7feaf6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 23/34] fix: outer annulus moments turn the same way as the
 annulus

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 6ac3a56..9ec8b44 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -152,7 +152,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
 
     # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
     ms = np.arange(-L, L+1)
-    Qlmb *= np.exp(-1j*ms*phic)
+    Qlmb *= np.exp(1j*ms*phic)
     mfac = (-1)**(np.abs(ms))
     Qlmb += np.conj(np.fliplr(Qlmb))*mfac
     Qlmb[:, L] /= 2
-- 
2.43.0


From ff2e719ad296fa539cb830a46e21b6659c0a9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 24/34] fix: bodies record the centre of mass of the shape they
 are built with

---
 newt/shapes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/newt/shapes.py b/newt/shapes.py
index c1b75ab..4b6eb4f 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -135,6 +135,8 @@ class Annulus(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.annulus(mass > 0, H, Ri, Ro, phic, phih)
+        rcom = 2*(Ro**3 - Ri**3)/(3*(Ro**2 - Ri**2))*np.sinc(phih/np.pi)
+        self.com = rcom*np.array([np.cos(phic), np.sin(phic), 0])
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
@@ -165,6 +167,7 @@ class TriPrism(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tri_prism(mass > 0, H, d, y1, y2)
+        self.com = np.array([2*d/3, (y1 + y2)/3, 0])
         if self.inner:
             self.qlm = qlm.tri_prism(lmax, mass, H, d, y1, y2)
         else:
@@ -179,6 +182,8 @@ class Cone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.cone(mass > 0, P, 0, R, phic, phih)
+        rcom = R/2*np.sinc(phih/np.pi)
+        self.com = np.array([rcom*np.cos(phic), rcom*np.sin(phic), P/4])
         if self.inner:
             self.qlm = qlm.cone(lmax, mass, P, R, phic, phih)
         else:
@@ -226,6 +231,7 @@ class Tetrahedron(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tetrahedron2(mass > 0, x, y1, y2, z)
+        self.com = np.array([x/2, (y1 + y2)/4, z/4])
         if self.inner:
             self.qlm = qlm.tetrahedron2(lmax, mass, x, y1, y2, z)
         else:
@@ -240,6 +246,7 @@ class Pyramid(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.pyramid(mass > 0, x, y, z)
+        self.com = np.array([0, 0, z/4])
         if self.inner:
             self.qlm = qlm.pyramid(lmax, mass, x, y, z)
         else:
@@ -254,6 +261,9 @@ class OuterCone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
+        rcom = (OR**2 + 2*OR*IR + 3*IR**2)/(2*(OR + 2*IR))
+        zcom = H*(OR + 3*IR)/(4*(OR + 2*IR))
+        self.com = np.array([rcom*np.sinc(phih/np.pi), 0, zcom])
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-- 
2.43.0


From 115f0ef5f722cbf21277e6586dc067b53d46a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 25/34] fix: converting to outer moments without a displacement
 is an error, not nan

---
 newt/translations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/translations.py b/newt/translations.py
index c5b8874..2f3e775 100644
--- a/newt/translations.py
+++ b/newt/translations.py
@@ -155,6 +155,8 @@ def translate_q2Q(qlm, rPrime):
     https://journals.aps.org/prd/abstract/10.1103/PhysRevD.60.107501
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
+    if rP == 0:
+        raise ValueError('Outer moments cannot be evaluated at the origin.')
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of qlm for now
-- 
2.43.0


From 7c6221ddd46bee7c5eb53187da9c33beca985d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 26/34] fix: outer moments are rotated the same way as the body

---
 newt/shapes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 4b6eb4f..98e837f 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -56,7 +56,11 @@ class Shape:
         np.savetxt(filename+'.txt', self.qlm, header=header)
 
     def rotate(self, alpha, beta, gamma):
-        self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        if self.inner:
+            self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        else:
+            # outer moments go with the conjugate spherical harmonics
+            self.qlm = rot.rotate_qlm(self.qlm, -alpha, beta, -gamma)
         self.mesh = gcad.rotate_mesh(self.mesh, alpha, beta, gamma)
 
         # Rotate center of mass using point-gravity tools
-- 
2.43.0


From 9cd65aa6a5196a8461ecccfefee4883441306c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 27/34] fix: a failed rotation, translation or sum leaves the
 body unchanged

---
 newt/shapes.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 98e837f..ac5e84a 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -57,11 +57,11 @@ class Shape:
 
     def rotate(self, alpha, beta, gamma):
         if self.inner:
-            self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+            newqlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
         else:
             # outer moments go with the conjugate spherical harmonics
-            self.qlm = rot.rotate_qlm(self.qlm, -alpha, beta, -gamma)
-        self.mesh = gcad.rotate_mesh(self.mesh, alpha, beta, gamma)
+            newqlm = rot.rotate_qlm(self.qlm, -alpha, beta, -gamma)
+        newmesh = gcad.rotate_mesh(self.mesh, alpha, beta, gamma)
 
         # Rotate center of mass using point-gravity tools
         rotcom = np.concatenate([[self.mass], self.com])
@@ -69,19 +69,25 @@ class Shape:
         rotcom = glb.rotate_point_array(rotcom, beta, [0, 1, 0])
         rotcom = glb.rotate_point_array(rotcom, alpha, [0, 0, 1])
         self.com = rotcom[1:4]
+        self.qlm = newqlm
+        self.mesh = newmesh
 
     def translate(self, tvec, to_inner):
-        self.com += tvec
-        self.mesh = gcad.translate_mesh(self.mesh, tvec)
+        # compute everything first, so that a failure leaves the body alone
+        newcom = self.com + np.asarray(tvec)
+        newmesh = gcad.translate_mesh(self.mesh, tvec)
         if self.inner and to_inner:
-            self.qlm = trs.translate_qlm(self.qlm, tvec)
+            newqlm = trs.translate_qlm(self.qlm, tvec)
         elif self.inner and not to_inner:
-            self.inner = False
-            self.qlm = trs.translate_q2Q(self.qlm, tvec)
+            newqlm = trs.translate_q2Q(self.qlm, tvec)
         elif not self.inner and not to_inner:
-            self.qlm = trs.translate_Qlmb(self.qlm, tvec)
+            newqlm = trs.translate_Qlmb(self.qlm, tvec)
         else:
             raise ValueError('Outer to inner translations not allowed.')
+        self.inner = bool(to_inner)
+        self.com = newcom
+        self.mesh = newmesh
+        self.qlm = newqlm
 
     def add(self, shapes):
         """
@@ -121,11 +127,13 @@ class Shape:
                     qlmtot += shape.qlm
                 else:
                     qlmtot += mplb.embed_qlm(shape.qlm, lmax)
+            newmesh = gcad.sum_mesh([shape.mesh for shape in shape_list])
+            newcom = com/mtot
             self.mass = mtot
-            self.com = com/mtot
+            self.com = newcom
             self.qlm = qlmtot
             self.lmax = lmax
-            self.mesh = gcad.sum_mesh([shape.mesh for shape in shape_list])
+            self.mesh = newmesh
         else:
             raise TypeError('Trying to combine inner and outer moments')
 
-- 
2.43.0


From 9f2dd96e00259aa871f78c7b925542724714a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 28/34] fix: outer annulus moment of degree 2 and order 0 for
 heights other than 1

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 9ec8b44..411797a 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -106,7 +106,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Q11 = np.log((r1+d1)/(r0+d0))
     Qlmb[1, L+1] = -dens*H*np.sqrt(3/(2*np.pi))*Q11*np.sin(phih)
     Q22 = 1/d1 - 1/d0
-    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q22
+    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*H*Q22
     Q21 = r1/d1 - r0/d0 + np.log((r1*(r0+d0))/(r0*(r1+d1)))
     Qlmb[2, L+1] = -sH*dens*np.sqrt(5/(6*np.pi))*Q21*np.sin(phih)
     Q22 = H*(1/d0-1/d1) - 2*np.log((r0*(H+d1))/(r1*(H+d0)))
-- 
2.43.0


From bf2b36bc23dd3867651e2ecb553e31fdcab8291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:48 +0000
Subject: [PATCH 29/34] fix: a random shell has at least one point for every
 random stream

---
 newt/glibShapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index d63c9bd..8c9714b 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -283,6 +283,10 @@ def spherical_random_shell(mass, r, N):
 
     # cut points with x1**2+x2**2 >= 1.
     sx2 = np.sum(x**2, 1)
+    # a shell has at least one point: draw again if all were cut
+    while len(x) > 0 and not np.any(sx2 < 1.):
+        x = rand.rand(len(x), 2)*2 - 1
+        sx2 = np.sum(x**2, 1)
     x = np.array([x[k] for k in range(len(x)) if sx2[k] < 1.])
     sx2 = np.array([sx2[k] for k in range(len(sx2)) if sx2[k] < 1.])
     sqx2 = np.sqrt(1-sx2)
-- 
2.43.0


From 1ade9a66e4c9ca1827ae43c7349f8ee693a87d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:48 +0000
Subject: [PATCH 30/34] fix: an Octave random shell has at least one point for
 every random stream

---
 matlab-src/shapes/genPointMassSphericalRandomShell.m | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matlab-src/shapes/genPointMassSphericalRandomShell.m b/matlab-src/shapes/genPointMassSphericalRandomShell.m
index 97ea6ac..344ba17 100644
--- a/matlab-src/shapes/genPointMassSphericalRandomShell.m
+++ b/matlab-src/shapes/genPointMassSphericalRandomShell.m
@@ -24,6 +24,11 @@ function sph = genPointMassSphericalRandomShell( M, R, N)
 
 	%Cut into circle
 	x2 = sum(x.^2, 2);
+	%At least one point: draw again if all were cut
+	while ( rows(x) > 0 && ! any(x2 < 1) )
+		x = 2*rand(rows(x), 2) - 1;
+		x2 = sum(x.^2, 2);
+	end
 	x = x( x2 < 1, :);
 	x2 = x2( x2 < 1 );
 
-- 
2.43.0


From 97ca3e89619d3db3d73b0f3d0292bc91f9191242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:37 +0000
Subject: [PATCH 31/34] fix: comments on the lines inside a create command have
 no effect

---
 newt/read_multiFor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 364ebf9..cfde380 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -136,6 +136,9 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
         lines = f.readlines()
     title = lines[0]
     print(title)
+    # Get rid of stuff after a comment, and of lines which are only a comment
+    lines = lines[:1] + [line.split('%')[0] for line in lines[1:]
+                         if not line.strip().startswith('%')]
     # A closing 'end' is optional
     lines.append('end')
     # We don't actually use n integration in this
@@ -149,8 +152,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     k = 0
     while k < nlines:
         line = lines[1+k]
-        # Get rid of stuff after a comment
-        line = line.split('%')[0].strip()
+        line = line.strip()
         if line.startswith('create'):
             print(line)
             shape = line.split('create')[1].split()[0]
-- 
2.43.0


From 8ca86cb117af9871d768761143774461f416f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:26 +0000
Subject: [PATCH 32/34] fix: gridding and building points leave the caller's
 stopwatch alone

---
 matlab-src/scanToPMArray.m                       | 4 ++--
 matlab-src/shapes/genPointMassArrayFrom2DArray.m | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/matlab-src/scanToPMArray.m b/matlab-src/scanToPMArray.m
index 691145a..31951b8 100644
--- a/matlab-src/scanToPMArray.m
+++ b/matlab-src/scanToPMArray.m
@@ -27,11 +27,11 @@ function [o]= scanToPMArray( scanData, xspacing, yspacing, zspacing, density)
 	xs = repmat(xSpan, columns(ySpan), 1); 
 	ys = repmat(ySpan', 1,  columns(xSpan));
 
-	tic
+	start = tic;
 
 	'gridding data'
 	[xi yi zi] = griddata(scanData(:,1), scanData(:,2), scanData(:,3), xs,ys);
-	toc
+	toc(start)
 
 	'building point mass array'
 	o = genPointMassArrayFrom2DArray( zi, xspacing, yspacing, zspacing, density);
diff --git a/matlab-src/shapes/genPointMassArrayFrom2DArray.m b/matlab-src/shapes/genPointMassArrayFrom2DArray.m
index 71f9e45..de7bb85 100644
--- a/matlab-src/shapes/genPointMassArrayFrom2DArray.m
+++ b/matlab-src/shapes/genPointMassArrayFrom2DArray.m
@@ -27,7 +27,7 @@ function o = genPointMassArrayFrom2DArray( A, xSpacing , ySpacing, zSpacing, den
 	ypos = (ySpacing - ySize)/2.0 + ySpacing * ( 0 : (rows(A)    - 1) );
 	zstart = zSpacing/2.0;
 
-	tic
+	start = tic;
 
 	%Simple z-grid	
 	A = floor(A./zSpacing);
@@ -73,7 +73,7 @@ function o = genPointMassArrayFrom2DArray( A, xSpacing , ySpacing, zSpacing, den
 
 		if( mod(xctr,30) < 1 )
 			['Assembly is ' num2str(fraction) ' percent complete']
-			toc
+			toc(start)
 		end
 	end
 
-- 
2.43.0


From fa21ed5830a7f172f400873c19d46f95c421e2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:44 +0000
Subject: [PATCH 33/34] fix: a display of points contains its axes, so that the
 points are seen

---
 newt/glib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/glib.py b/newt/glib.py
index 9ff9bc5..ed9e948 100644
--- a/newt/glib.py
+++ b/newt/glib.py
@@ -242,6 +242,8 @@ def display_points(pm1, pm2, scale_mass=False):
     """
     fig = plt.figure()
     ax = Axes3D(fig)
+    # newer versions of matplotlib leave this to the caller
+    fig.add_axes(ax)
     s1 = 50*np.ones(len(pm1))
     s2 = 50*np.ones(len(pm2))
     if scale_mass:
-- 
2.43.0


From c64faebc4ac95d0935037491aca2834868871cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:44 +0000
Subject: [PATCH 34/34] fix: points of negative mass are seen in a display
 scaled by mass

---
 newt/glib.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/newt/glib.py b/newt/glib.py
index ed9e948..7d4fe7b 100644
--- a/newt/glib.py
+++ b/newt/glib.py
@@ -247,19 +247,12 @@ def display_points(pm1, pm2, scale_mass=False):
     s1 = 50*np.ones(len(pm1))
     s2 = 50*np.ones(len(pm2))
     if scale_mass:
-        pts1 = len(pm1)
-        pts2 = len(pm2)
-        s1 = 100*pts1*pm1[:, 0]
-        s2 = 100*pts2*pm2[:, 0]
-        pmp1 = np.nonzero(pm1[:, 0])[0]
-        pmp2 = np.nonzero(pm2[:, 0])[0]
-        pmm1 = []
-        pmm2 = []
-    else:
-        pmp1 = np.where(pm1[:, 0] > 0)[0]
-        pmm1 = np.where(pm1[:, 0] < 0)[0]
-        pmp2 = np.where(pm2[:, 0] > 0)[0]
-        pmm2 = np.where(pm2[:, 0] < 0)[0]
+        s1 = 100*len(pm1)*np.abs(pm1[:, 0])
+        s2 = 100*len(pm2)*np.abs(pm2[:, 0])
+    pmp1 = np.where(pm1[:, 0] > 0)[0]
+    pmm1 = np.where(pm1[:, 0] < 0)[0]
+    pmp2 = np.where(pm2[:, 0] > 0)[0]
+    pmm2 = np.where(pm2[:, 0] < 0)[0]
     ax.scatter(pm1[pmp1, 1], pm1[pmp1, 2], pm1[pmp1, 3], label='(+) mass1',
                s=s1[pmp1], c='C0', alpha=.5)
     ax.scatter(pm1[pmm1, 1], pm1[pmm1, 2], pm1[pmm1, 3], label='(-) mass1',
-- 
2.43.0

