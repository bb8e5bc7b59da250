From fcc3457d0c6651cb8d6e9a528098db137eb57f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 01/82] fix: do not convert energy densities and pressures in
 place

energy_to_pressure and pressure_to_energy worked in place on the array of
the caller and could not convert integers.
---
 quantas/utils/physics/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 54e92ea..a70f409 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -311,7 +311,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     [  1.60210478 320.42095571]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=np.float64)
     # Convert energy in J
     if energy_scale.lower() in ['hartree', 'ha']:
         res *= Ha
@@ -406,7 +406,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     [0.00022938 0.00045876]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=np.float64)
     # Convert pressures in Pascals
     if pressure_scale.lower() in ['gpa']:
         res *= giga
-- 
2.43.0


From 5820e8f539c48f19d16174ba6069df01daa76d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 02/82] fix: accept the documented 'hartree' and 'rydberg'
 energy names

The lower-cased name was compared with capitalised spellings.
---
 quantas/utils/physics/units.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index a70f409..c0aabac 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -149,11 +149,11 @@ def convert_energy(val, old_scale, new_scale):
 
     """
     # Convert from `old_scale` to Hartree
-    if old_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if old_scale.lower() in ['hartree', 'ha']:
         energy = np.asanyarray(val)
-    elif old_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif old_scale.lower() in ['electron volt', 'ev']:
         energy = np.asanyarray(val) * (eV / Ha)
-    elif old_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif old_scale.lower() in ['rydberg', 'ry']:
         energy = np.asanyarray(val) * (Ry / Ha)
     elif old_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
         energy = np.asanyarray(val) * (1000. / Ha / N)
@@ -162,11 +162,11 @@ def convert_energy(val, old_scale, new_scale):
                                   'are Hartree, eV, Rydberg and kJ/mol'
                                   % old_scale)
     # and from Hartree to `new_scale`.
-    if new_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if new_scale.lower() in ['hartree', 'ha']:
         res = energy
-    elif new_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif new_scale.lower() in ['electron volt', 'ev']:
         res = energy * (Ha / eV)
-    elif new_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif new_scale.lower() in ['rydberg', 'ry']:
         res = energy * (Ha / Ry)
     elif new_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
         res = energy * (Ha * N / 1000.)
-- 
2.43.0


From e37b5acc760a3ae9d6756c218c323a75ab6edde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 03/82] fix: use the Angstrom instead of the Angstrom star

The Angstrom star is an X-ray wavelength unit, 1.00001495 Angstrom, which
put pressures off by 4.5e-5 relative.
---
 quantas/utils/physics/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index c0aabac..0d7eba8 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -39,7 +39,7 @@ zero_Celsius = 273.15
 # Units typically used in QM software
 #
 # 1. Distances
-Angstrom = cs.value(u'Angstrom star')   # (m)
+Angstrom = cs.angstrom                  # (m)
 Bohr = cs.value(u'Bohr radius')         # (m)
 #
 # 2. Electronic Energy
@@ -308,7 +308,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     --------
     >>> from quantascli.utils.units import energy_to_pressure
     >>> energy_to_pressure([0.001, 0.2], 'eV', 'angstrom', 'gpa')
-    [  1.60210478 320.42095571]
+    [  0.16021766  32.04353268]
 
     """
     res = np.array(val, dtype=np.float64)
@@ -403,7 +403,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     --------
     >>> from quantascli.utils.units import pressure_to_energy
     >>> pressure_to_energy([1., 2.], 'ha', 'angstrom', 'gpa')
-    [0.00022938 0.00045876]
+    [0.00022937 0.00045874]
 
     """
     res = np.array(val, dtype=np.float64)
@@ -588,7 +588,7 @@ def convert_volume(val, old_scale, new_scale):
     --------
     >>> from quantascli.utils.units import convert_volume
     >>> convert_volume(10.9897, 'Angstrom', 'bohr')
-    74.1654978184323
+    74.16217159530973
 
     """
     # Convert from `old_scale` to metres
-- 
2.43.0


From 13f5a3f95601549d478b54248817643ce97979ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 04/82] fix: keep temperature and pressure ranges within the
 requested maximum

---
 quantas/harmonic/harmonic.py | 4 +++-
 quantas/qha/qha.py           | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index 9cc4f4d..447576d 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -133,7 +133,9 @@ class HACalculator(BasicCalculator):
             values with float type.
 
         '''
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        values = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        # Values beyond the requested maximum are not part of the range
+        self._temperature = values[values <= temp[1] + 1.e-6*temp[2]]
         return
 
     def read_input(self, filename):
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 80cedf1..8791ecc 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -284,7 +284,9 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._pressure = np.arange(press[0], press[1]+press[2], press[2])
+        values = np.arange(press[0], press[1]+press[2], press[2])
+        # Values beyond the requested maximum are not part of the range
+        self._pressure = values[values <= press[1] + 1.e-6*press[2]]
         return
 
     @property
@@ -310,7 +312,9 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        values = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        # Values beyond the requested maximum are not part of the range
+        self._temperature = values[values <= temp[1] + 1.e-6*temp[2]]
         return
 
     def read_input(self, filename):
-- 
2.43.0


From 653502101894e91cc70b248faab6849740c6a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 05/82] fix: start energy EoS fits from the actual energy
 minimum

---
 quantas/qha/utils/ev_eos.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 67f1681..ed48a34 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -143,13 +143,18 @@ class EnergyEOS(object):
             `float` type.
 
         """
-        pars = np.polyfit(V, E, 4)
+        # At most len(V) coefficients can be determined
+        pars = np.polyfit(V, E, min(4, len(V) - 1))
         first_derivative = np.polyder(pars,1)
         second_derivative = np.polyder(pars,2)
         V_roots = np.roots(first_derivative)
-        Vs = V_roots * np.conj(V_roots)
-        root_minimum = np.argmin(Vs)
-        V0 = np.real(V_roots[root_minimum])
+        V_roots = np.real(V_roots[np.isreal(V_roots)])
+        minima = V_roots[(V_roots > 0.)
+                         & (np.polyval(second_derivative, V_roots) > 0.)]
+        # Select the minimum that is the closest to the lowest energy value
+        V0 = V[np.argmin(E)]
+        if len(minima) > 0:
+            V0 = minima[np.argmin(np.abs(minima - V0))]
         E0 = np.polyval(pars, V0)
         K0 = V0 * np.polyval(second_derivative, V0)
         guess_pars = [E0, K0, 4., V0]
-- 
2.43.0


From 458ae655b0cf7c864792f3285585544b65ea11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 06/82] fix: fit energy differences in the energy equations of
 state

---
 quantas/qha/utils/ev_eos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index ed48a34..7531557 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -91,11 +91,16 @@ class EnergyEOS(object):
         """
         # Set the EOS function
         eos = self._set_eos_type(eostag)
+        # The fit is performed on energy differences, because the absolute
+        # energy could be several orders of magnitude larger
+        reference = np.min(E)
+        E = E - reference
         # Perform a guess on the parameters
         p0 = self.guess(V, E)
         # Perform the EOS fit using the guess as initial parameters
         eos_parameters, eos_cov = curve_fit(
             eval(eos), V, E, p0, ftol=1.e-15, xtol=1.e-15)
+        eos_parameters[0] += reference
         # EoS errors
         eos_errors = np.sqrt(np.diag(eos_cov))
         return eos_parameters, eos_errors
-- 
2.43.0


From 20499d4b88a78bfd820e6d983e5d4b96cb2ac527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 07/82] fix: use the implied second derivative of the bulk
 modulus in E(V) pressures

---
 quantas/qha/utils/ev_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 7531557..937190a 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -380,5 +380,5 @@ class EnergyEOS(object):
         pv_pars[1] = ev_pars[2]
         pv_pars[3] = ev_pars[3]
         # Calculate pressures
-        pressures = eos.eos(pv_pars, V, order=3)
+        pressures = eos.eos(pv_pars, V, order=3, dofit=True)
         return pressures
-- 
2.43.0


From f3f2ed4f4c10929842cd871597729578024ca38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 08/82] fix: guess energy EoS parameters from a cubic function
 of the strain

---
 quantas/qha/utils/ev_eos.py | 38 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 937190a..c94125b 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -106,26 +106,19 @@ class EnergyEOS(object):
         return eos_parameters, eos_errors
 
     def guess(self, V, E):
-        """ Parabolic fit of the :math:`E(V)` data in order to provide an
+        """ Polynomial fit of the :math:`E(V)` data in order to provide an
         initial guess for the EOS fit.
 
         .. math::
 
-            E = aV^2 +bV + c
+            E = ax^3 + bx^2 +cx + d
 
-        With the fitting parameters, it is possible to obtain:
+        with :math:`x = V^{-2/3}`. :math:`V_0` is the volume of the minimum
+        of this function and
 
         .. math::
 
-            V_0 = -b/\\big(2a\\big)
-
-        .. math::
-
-            E_0 = aV_0^2 +bV_0 + c
-
-        .. math::
-
-            K_0 = 2aV_0
+            K_0 = \\frac{4}{9} V_0^{-7/3} \\frac{d^2E}{dx^2}
 
         .. math::
 
@@ -148,20 +141,23 @@ class EnergyEOS(object):
             `float` type.
 
         """
-        # At most len(V) coefficients can be determined
-        pars = np.polyfit(V, E, min(4, len(V) - 1))
+        # Cubic function of the (Eulerian) strain variable x = V^(-2/3), whose
+        # coefficients can be determined with the minimum number of volumes
+        pars = np.polyfit(np.power(V, -2./3.), E, min(3, len(V) - 1))
         first_derivative = np.polyder(pars,1)
         second_derivative = np.polyder(pars,2)
-        V_roots = np.roots(first_derivative)
-        V_roots = np.real(V_roots[np.isreal(V_roots)])
-        minima = V_roots[(V_roots > 0.)
-                         & (np.polyval(second_derivative, V_roots) > 0.)]
+        x_roots = np.roots(first_derivative)
+        x_roots = np.real(x_roots[np.isreal(x_roots)])
+        minima = x_roots[(x_roots > 0.)
+                         & (np.polyval(second_derivative, x_roots) > 0.)]
         # Select the minimum that is the closest to the lowest energy value
         V0 = V[np.argmin(E)]
         if len(minima) > 0:
-            V0 = minima[np.argmin(np.abs(minima - V0))]
-        E0 = np.polyval(pars, V0)
-        K0 = V0 * np.polyval(second_derivative, V0)
+            volumes = np.power(minima, -3./2.)
+            V0 = volumes[np.argmin(np.abs(volumes - V0))]
+        x0 = np.power(V0, -2./3.)
+        E0 = np.polyval(pars, x0)
+        K0 = 4./9. * np.power(V0, -7./3.) * np.polyval(second_derivative, x0)
         guess_pars = [E0, K0, 4., V0]
         return guess_pars
 
-- 
2.43.0


From e3a25ce54c094ce50792ec7ce136b32d35dad0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 09/82] fix: keep the provided parameters of axial EoS fits

---
 quantas/eosfit/utils/pv_eos.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index cfddc50..2f46a04 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -138,15 +138,11 @@ class EOS(object):
         # Check if there is a guess
         try:
             len(guess)
-            p0 = guess
+            p0 = np.array(guess, dtype=np.float64)
         except TypeError:
             #
             # Perform a guess on the parameters
             p0 = self.guess(V, P)
-        #
-        # Check if we're going to perform a linearized fit
-        if linear == True:
-            p0[0] = p0[0]*3.
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-- 
2.43.0


From 84463c1246801a0a24958611f9efc411d57d663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 10/82] fix: correct the implied second derivative of the Vinet
 bulk modulus

---
 quantas/eosfit/utils/pv_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index 2f46a04..d17315b 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -728,7 +728,7 @@ class Vinet(EOS):
                 p[1] = 3.
 
         # Kpp is always implied
-        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./46.))
+        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./36.))
             
         fV = 1. - (V/p[3])**(1./3.)
         eta = (1.5) * (p[1] - 1.)
-- 
2.43.0


From ead5942a41c33d16bf49002b8fac664816db4dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 11/82] fix: do not change the EoS parameters in normalized
 pressures

---
 quantas/eosfit/utils/pv_eos.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index d17315b..1401791 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -384,7 +384,7 @@ class BirchMurnaghan(EOS):
             
         """
         # Store parameters locally 
-        pars = p[:]
+        pars = np.array(p, dtype=np.float64)
 
         volume = np.delete(np.copy(V), 0)
         press = np.delete(np.copy(P), 0)
@@ -594,7 +594,7 @@ class NaturalStrain(EOS):
             
         """
         # Store parameters locally 
-        pars = p[:]
+        pars = np.array(p, dtype=np.float64)
         
         volume = np.delete(np.copy(V), 0)
         press = np.delete(np.copy(P), 0)
@@ -784,7 +784,7 @@ class Vinet(EOS):
             
         """
         # Store parameters locally 
-        pars = p[:]
+        pars = np.array(p, dtype=np.float64)
         
         volume = np.delete(np.copy(V), 0)
         press = np.delete(np.copy(P), 0)
@@ -793,11 +793,6 @@ class Vinet(EOS):
         if order == 2 and linear == True:
             pars[1] = 1.
         
-        # Take into account linearity
-        if order == 2 and linear == True:
-            pars[1] = 2.
-            pars[2] = (-1./pars[0])*(1.+(pars[1]-2.)+np.power(pars[1]-2.,2.))
-        
         # Calculate the normalized pressure curve from EoS
         fV_calc = 1. - np.power((V/pars[3]),1./3.)
         eta_fV = (1.5) * (pars[1] - 1.)
-- 
2.43.0


From 799e220659e47d683273f464f9efc3d0ac02fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 12/82] fix: do not use the removed numpy aliases of Python
 types

---
 quantas/eosfit/utils/interactive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index 0d41299..a8ad538 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -183,7 +183,7 @@ def set_eos_order(eos_key, default=2):
     if default not in choices:
         default = choices[0]
     echo('EOS ORDER')
-    selection = np.int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
+    selection = int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
                        default=default))
     echo('')
     return selection
@@ -314,7 +314,7 @@ def set_parameters(parameters, labels):
     echo('')
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
-            parameters[i] = np.float(prompt("  {: <8}".format(
+            parameters[i] = float(prompt("  {: <8}".format(
                 labels[i]), np.round(parameters[i], 5)))
     echo('')
     return parameters
-- 
2.43.0


From f22e2fc7ed37554bacd5382e2483e70096cf7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 13/82] fix: write the EoS fit log in the file given by
 --outfile

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 5b248f3..8ef4da9 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -53,7 +53,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     if isinstance(outfile, type(None)):
         logfile = outbase + '.log'
     else:
-        logfile += '.log'
+        logfile = outfile + '.log'
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
-- 
2.43.0


From 5ba1076ab823e93dbe4fece94dad61eb28b3394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 14/82] fix: do not share data between EoS file readers

---
 quantas/IO/eos_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 85b29da..0051803 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -79,6 +79,8 @@ class EoSInputFileReader(BasicReader):
             Path of the input file.
 
         """
+        self._data = dict(self._data)
+        self._format = {}
         BasicReader.__init__(self, eos_input)
         return
 
-- 
2.43.0


From b670e422f2fd59aed813b9ab4fb4d5fa77020b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 15/82] fix: store the short sigma keywords of EoS files under
 their own quantity

---
 quantas/IO/eos_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 0051803..aad31b4 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -241,7 +241,7 @@ class EoSInputFileReader(BasicReader):
                 for i in range(len(dformat)):
                     for key, items in self._formats.items():
                         if dformat[i].lower() in items:
-                            self._format[dformat[i].lower()] = i
+                            self._format[key] = i
         return
 
     def set_data(self, inpdata, idx):
-- 
2.43.0


From 5321d56b8417c70489542b04ec1cbce21655048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 16/82] fix: report missing pressures in EoS files

---
 quantas/IO/eos_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index aad31b4..921b26d 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -262,7 +262,7 @@ class EoSInputFileReader(BasicReader):
             self.error = 'Data format (FORMAT keyword) not provided'
             return
 
-        if self._format['p'] == None:
+        if 'p' not in self._format:
             self.error = 'No pressure data provided in input file'
             return
 
-- 
2.43.0


From ed3101f6875190c438790e64ee57cddc67a2cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 17/82] fix: read the job title of EoS files as a title

---
 quantas/IO/eos_reader.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 921b26d..9d1033f 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -172,15 +172,20 @@ class EoSInputFileReader(BasicReader):
         with open(eos_input, 'r') as f:
             data = f.readlines()
 
+        title = None
         for i in range(len(data)):
             line = data[i]
             # If empty or commented (#) lines are found, skip them
             if self.is_comment(line):
                 continue
 
+            # The title of the job is not a keyword
+            if i == title:
+                continue
+
             keyword = line.split()[0]
             if keyword.lower() == 'job':
-                self.set_job_name(data, i+1)
+                title = self.set_job_name(data, i+1)
             if keyword.lower() == 'format':
                 self.set_data_format(data, i+1)
             if keyword.lower() == 'data':
@@ -205,14 +210,18 @@ class EoSInputFileReader(BasicReader):
         idx: int
             Index of the line where the name of the job is supposed to be.
 
+        Returns
+        -------
+
+        int
+            Index of the line with the name of the job.
+
         """
-        while self._data['job'] == 'Unknown':
-            line = inpdata[idx].rstrip('\n')
-            if (len(line) == 0 or line.strip()[0] == '#'):
-                idx += 1
-            else:
-                self._data['job'] = line
-        return
+        while idx < len(inpdata) and self.is_comment(inpdata[idx]):
+            idx += 1
+        if idx < len(inpdata):
+            self._data['job'] = inpdata[idx].rstrip('\n')
+        return idx
 
     def set_data_format(self, inpdata, idx):
         """
-- 
2.43.0


From 833b650bc6b9443d5837a80f47ce97371b2eaee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 18/82] fix: report malformed or missing rows of EoS files

---
 quantas/IO/eos_reader.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 9d1033f..eec7ba7 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -191,6 +191,10 @@ class EoSInputFileReader(BasicReader):
             if keyword.lower() == 'data':
                 self.set_data(data, i)
 
+        if isinstance(self.error, type(None)) and \
+           isinstance(self._data['p'], type(None)):
+            self.error = 'Data (DATA keyword) not provided'
+
         if not isinstance(self.error, type(None)):
             self.completed = False
         else:
@@ -239,7 +243,7 @@ class EoSInputFileReader(BasicReader):
 
         """
         found = False
-        while not found:
+        while not found and idx < len(inpdata):
             line = inpdata[idx]
             if self.is_comment(line):
                 idx += 1
@@ -295,8 +299,17 @@ class EoSInputFileReader(BasicReader):
                 stop = True
                 continue
 
-            for quantity, n in self._format.items():
-                data[quantity].append(float(values[n]))
+            try:
+                for quantity, n in self._format.items():
+                    data[quantity].append(float(values[n]))
+            except (IndexError, ValueError):
+                self.error = "Wrong data in line {0} of the input file".format(
+                    idx + 1)
+                return
+
+        if len(data['p']) == 0:
+            self.error = 'No data provided in input file'
+            return
 
         for quantity in self._format:
             self._data[quantity] = np.asarray(data[quantity])
-- 
2.43.0


From 5700e4dd0c339397c7e7ea175111d34e62e1397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 19/82] fix: do not stop EoS fits at the starting guess when
 the first pressure is zero

---
 quantas/eosfit/utils/pv_eos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index 1401791..9f0b04f 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -146,7 +146,9 @@ class EOS(object):
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-        odr = ODR(data, model, p0, ifixb=fix, maxit=500)
+        # The number of reliable digits is provided because ODRPACK estimates it
+        # wrongly when the starting pressure of the first data point is zero
+        odr = ODR(data, model, p0, ifixb=fix, maxit=500, ndigit=12)
         if self.check(sigmaV, sigmaP) == 0 or self.check(sigmaV, sigmaP) == 2:
             odr.set_job(fit_type=2) # Ordinary least square
         else:
-- 
2.43.0


From f1f96bf340f9033f960803e6389f84eef08d1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 20/82] fix: refuse mechanically unstable crystals in the
 elastic analysis

---
 quantas/soec/soec.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6f49d0e..20e7161 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -179,7 +179,11 @@ class SOECCalculator(BasicCalculator):
             self.echo_debug('Input file correctly read')
             self._job = reader.jobname
             self.echo_debug('Job name set')
-            self._soec = SOEC(reader.stiffness, reader.density)
+            try:
+                self._soec = SOEC(reader.stiffness, reader.density)
+            except ValueError:
+                return 'SOEC matrix is singular, crystal is mechanically ' +\
+                    'unstable'
             self.echo_debug('SOEC object instantiated')
             self._system = check_symmetry(self._soec.stiffness)
             self.echo_debug('Crystal system: {}'.format(self._system))
@@ -233,7 +237,7 @@ class SOECCalculator(BasicCalculator):
         #
         # Calculate stiffness eigenvalues
         self.echo_debug(' - Calculation stiffness eigenvalues')
-        eigv = sorted(np.linalg.eig(self.soec.stiffness)[0])
+        eigv = sorted(np.linalg.eigvalsh(self.soec.stiffness))
         #
         # Report current data
         
@@ -245,11 +249,12 @@ class SOECCalculator(BasicCalculator):
         self._results['avg_wave_velocities'] = awv
         #
         # Check SOEC eigenvalues consistency
-        if any(eigv) <= 0:
+        if min(eigv) <= 0:
             msg = 'SOEC matrix is not definite positive, '+\
             'crystal is mechanically unstable'
             self.echo(msg)
             self.echo('No further analysis will be performed.')
+            self.error = msg
             return
         #
         # Calculate variations of the mechanical properties
-- 
2.43.0


From 4fc13c630c8830143e0af94cf9f3ed6ca25f8f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 21/82] fix: report the direction of the shear modulus and
 Poisson ratio extrema

---
 quantas/soec/soec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 20e7161..963ea0e 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -425,8 +425,8 @@ class SOECCalculator(BasicCalculator):
             anisotropy = np.inf
         #
         # First (or Only) axis
-        minax1 = vector(*minval[0])
-        maxax1 = vector(*maxval[0])
+        minax1 = vector(*minval[0][:2])
+        maxax1 = vector(*maxval[0][:2])
         if dim == 2:
             minax2 = None
             maxax2 = None
-- 
2.43.0


From 287b8883fb79fa89f603c9100b214e692fd7e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 22/82] fix: do not report average wave velocities without a
 density

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 963ea0e..e04f73b 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -399,7 +399,7 @@ class SOECCalculator(BasicCalculator):
         for i in range(3):
             self.echo(sv.format(avgnames[i], *tuple(avg[i])))
         self.echo('')
-        if awv[0] != np.nan:
+        if not np.isnan(awv[0]):
             self.echo('Average (VRH) wave velocities')
             self.echo('  - Transversal  (Vs): {: 10.5f} km/s'.format(awv[0]))
             self.echo('  - Longitudinal (Vp): {: 10.5f} km/s'.format(awv[2]))
-- 
2.43.0


From d63f9da2887d39f1e80da372b8ea10df9faadc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 23/82] fix: export the compliance in the declared unit

---
 quantas/soec/soec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index e04f73b..8e83305 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -546,7 +546,8 @@ It contains the results of the analysis of the second-order elastic constants
             f.attrs['info'] = info
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
-            dset = f.create_dataset('compliance', data=self.soec.compliance)
+            dset = f.create_dataset(
+                'compliance', data=self.soec.compliance*1000)
             dset.attrs['unit'] = 'TPa^-1'
             dset = f.create_dataset('averages', data=self.results['avgs'])
             dset.attrs['unit'] = self._punit
-- 
2.43.0


From cd05fa4b637380ea8e5b362515ddd9f27d9e7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 24/82] fix: correct the symmetry constraints of hexagonal and
 trigonal crystals

---
 quantas/soec/utils/symmetry.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quantas/soec/utils/symmetry.py b/quantas/soec/utils/symmetry.py
index c57ab32..6991cd0 100644
--- a/quantas/soec/utils/symmetry.py
+++ b/quantas/soec/utils/symmetry.py
@@ -19,19 +19,19 @@ Cij_symmetry = {
                       [0, 0, 0, 0, 4, 0],
                       [0, 0, 0, 0, 0, 4]]),
 
-   'hexagonal': np.array([[1, 7, 8, 9, 10, 0],
-                          [7, 1, 8, 0,-9, 0],
+   'hexagonal': np.array([[1, 7, 8, 0, 0, 0],
+                          [7, 1, 8, 0, 0, 0],
                           [8, 8, 3, 0, 0, 0],
-                          [9, -9, 0, 4, 0, 0],
-                          [10, 0, 0, 0, 4, 0],
+                          [0, 0, 0, 4, 0, 0],
+                          [0, 0, 0, 0, 4, 0],
                           [0, 0, 0, 0, 0, 6]]),
 
-   'trigonal_high': np.array([[1, 7, 8, 9, 10, 0],
-                              [7, 1, 8, 0,-9, 0],
+   'trigonal_high': np.array([[1, 7, 8, 9, 0, 0],
+                              [7, 1, 8,-9, 0, 0],
                               [8, 8, 3, 0, 0, 0],
                               [9, -9, 0, 4, 0, 0],
-                              [10, 0, 0, 0, 4, 0],
-                              [0, 0, 0, 0, 0, 6]]),
+                              [0, 0, 0, 0, 4, 9],
+                              [0, 0, 0, 0, 9, 6]]),
 
    'trigonal_low': np.array([[1,  7,  8,  9,  10,  0 ],
                              [7,  1,  8, -9, -10,  0 ],
@@ -118,7 +118,7 @@ def run_check(m, symmetry):
         l = []
         for key in Cij_map.keys():
             # Collect the combinations
-            if Cij_map[key] == i:
+            if abs(Cij_map[key]) == i:
                 l.append(key)
         if len(l) != 0:
             if i == 0:
@@ -129,13 +129,15 @@ def run_check(m, symmetry):
                         continue
             else:
                 for k in it.combinations(l, 2):
-                    if abs(m[k[0]] - m[k[1]]) > tol:
+                    # Elements may have equal or opposite values
+                    sign = np.sign(Cij_map[k[0]]*Cij_map[k[1]])
+                    if abs(m[k[0]] - sign*m[k[1]]) > tol:
                         return False
                     else:
                         continue
 
-    # Additional check for hexagonal system
-    if symmetry == 'hexagonal':
+    # Additional check for hexagonal and trigonal systems
+    if symmetry in ['hexagonal', 'trigonal_high', 'trigonal_low']:
         if abs(m[5][5]-((m[0][0]-m[0][1])/2.)) > tol:
             return False
     return True
-- 
2.43.0


From d6c637fba4086dab3d9cb1df89f8c520f5b7e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 25/82] fix: correct the azimuth of Cartesian and group
 velocity directions

---
 quantas/seismic/utils/seismic_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 6f444dc..36d7cc5 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -434,7 +434,7 @@ class Seismic(object):
         x = self.direction[0]
         y = self.direction[1]
         z = self.direction[2]
-        self.phi = np.arctan2(x, y)
+        self.phi = np.arctan2(y, x)
         self.theta = np.arctan2(np.sqrt(y ** 2 + x ** 2), z)
 
         # Set the new Christoffel matrix
@@ -553,7 +553,7 @@ class Seismic(object):
             x = gdir[i][0]
             y = gdir[i][1]
             z = gdir[i][2]
-            gphi[i] = np.arctan2(x, y)
+            gphi[i] = np.arctan2(y, x)
             gtheta[i] = np.arctan2(np.sqrt(y**2 + x**2), z)
 
         # Calculate the powerflow angle
-- 
2.43.0


From 143dbc2d8a7cb92c80b39ffc08e6b0183d0217d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 26/82] fix: do not share data between SOEC file readers

---
 quantas/IO/soec_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 580b39b..fb497cc 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -45,6 +45,7 @@ class SOECInputFileReader(BasicReader):
         soec_input: str
             Path of the SOEC input file.
         """
+        self._data = dict(self._data)
         BasicReader.__init__(self, soec_input)
         return
 
-- 
2.43.0


From 0a493fb6397dc8a3b73c32ddcd55d3e562be51e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 27/82] fix: accept titles starting with a number in SOEC files

---
 quantas/IO/soec_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index fb497cc..c58db4d 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -111,7 +111,9 @@ class SOECInputFileReader(BasicReader):
         # Does the first line contain the job name?
         line = data[0]
         try:
-            np.float64(line.strip()[0])
+            line.strip()[0]
+            for word in line.split():
+                np.float64(word)
             start = 0
         except ValueError:
             self._data['job'] = line.rstrip()
-- 
2.43.0


From 0094b6ef374797a78918bf5c6cb340605740cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 28/82] fix: read lower triangular SOEC matrices and reject
 malformed ones

---
 quantas/IO/soec_reader.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index c58db4d..16f85d6 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -129,25 +129,35 @@ class SOECInputFileReader(BasicReader):
 
         # ... and convert it to float numbers
         matrix = np.zeros((6,6), dtype=np.float64)
+
+        # Take its form from the string matrix
+        form = []
+        for i in range(6):
+            form.append(len(matstr[i].split()))
+        if form not in ([6]*6, [6,5,4,3,2,1], [1,2,3,4,5,6]):
+            self.error = 'The SOEC matrix does not have the expected (6, 6) '
+            self.error += 'shape.\nPlease, check the input file and retry.'
+            return
+        # Rows of lower triangular matrices start from the first column
+        lower = form == [1,2,3,4,5,6]
+
         try:
             for i in range(6):
                 line = matstr[i].split()
                 n = len(line)
                 for j in range(n):
-                    matrix[i][j+(6-n)] = line[j]
+                    matrix[i][j if lower else j+(6-n)] = line[j]
+            if not np.isfinite(matrix).all():
+                raise ValueError
         except ValueError:
             self.error = 'SOEC components should be float numbers'
             return
         else:
-            # Take its form from the string matrix
-            form = []
-            for i in range(6):
-                form.append(len(matstr[i].split()))
             # Check matrix symmetry and make it 6x6
             if form == [6,5,4,3,2,1]:  # upper triangular
                 matrix = matrix + np.triu(matrix, 1).transpose()
-            if form == [1,2,3,4,5,6]:  # lower triangular
-                matrix = matrix + np.tril(matrix, 1).transpose()
+            if lower:  # lower triangular
+                matrix = matrix + np.tril(matrix, -1).transpose()
             if linalg.norm(matrix - matrix.transpose()) > 1e-3:
                 self.error = 'The SOEC matrix should be symmetric '
                 self.error += 'or triangular'
-- 
2.43.0


From 63bf328ed919b71f996dfcb0ed2294d074c16a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 29/82] fix: search the shear and Poisson extrema on a finer
 grid

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 8e83305..65990b0 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -59,7 +59,7 @@ def minimize(func, dim, method='fmin'):
         x0 = [1., 1.]
     elif dim == 3:
         r = ((0, np.pi), (0, np.pi), (0, np.pi))
-        n = 10
+        n = 19
         x0 = [1., 1., 1.]
     if method == 'fmin':
         return optimize.brute(func, r, Ns = n, full_output = True,
-- 
2.43.0


From fcf6b9cf97fa5793121bd69b0c0634bdf24d6ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 30/82] fix: converge the transverse extrema of polar sections

---
 quantas/soec/utils/soec_obj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/soec/utils/soec_obj.py b/quantas/soec/utils/soec_obj.py
index 237b58b..19c1bcc 100644
--- a/quantas/soec/utils/soec_obj.py
+++ b/quantas/soec/utils/soec_obj.py
@@ -339,8 +339,8 @@ class SOEC(object):
         return np.array([Vs, Vs, Vp])
 
     def shear_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
+        ftol = 1.e-5
+        xtol = 1.e-4
         def func1(z): return self.shear_modulus([x[0], x[1], z])
         r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
         def func2(z): return -self.shear_modulus([x[0], x[1], z])
@@ -348,8 +348,8 @@ class SOEC(object):
         return (float(r1.fun), -float(r2.fun))
 
     def poisson_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
+        ftol = 1.e-5
+        xtol = 1.e-4
         def func1(z): return self.poisson_ratio([x[0], x[1], z])
         r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
         def func2(z): return -self.poisson_ratio([x[0], x[1], z])
-- 
2.43.0


From a9f19cefa9b2c2ffb831f230769e2dce7a145c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 31/82] fix: calculate the cofactor matrix of singular matrices

---
 quantas/seismic/utils/seismic_obj.py | 38 ++++++++++------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 36d7cc5..3ecd9b4 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -44,9 +44,8 @@ def vector(theta, phi):
 
 def cofactor(A):
     """
-    Return the cofactor matrix of a 3x3 matrix. This function relies primarily
-    on NumPy but when the matrix is singular (determinant equal to zero). In
-    that case, an element-wise approach is adopted. 
+    Return the cofactor matrix of a 3x3 matrix, which is calculated element by
+    element because the matrix can be singular.
 
     Parameters
     ----------
@@ -62,27 +61,18 @@ def cofactor(A):
        
     """
     cofactor = np.empty((3, 3))
-    try:
-        # Check if the matrix is singular
-        if np.linalg.det(A) != 0:
-            cofactor = np.linalg.inv(A).T * np.linalg.det(A)
-            return cofactor
-        else:
-            # If the matrix is singular, use element-wise math
-            cofactor[0][0] = A[1][1]*A[2][2] - A[1][2]*A[2][1]
-            cofactor[0][1] = A[1][2]*A[2][0] - A[1][0]*A[2][2]
-            cofactor[0][2] = A[1][0]*A[2][1] - A[1][1]*A[2][0]
-
-            cofactor[1][0] = A[0][2]*A[2][1] - A[0][1]*A[2][2]
-            cofactor[1][1] = A[0][0]*A[2][2] - A[0][2]*A[2][0]
-            cofactor[1][2] = A[0][1]*A[2][0] - A[0][0]*A[2][1]
-
-            cofactor[2][0] = A[0][1]*A[1][2] - A[0][2]*A[1][1]
-            cofactor[2][1] = A[0][2]*A[1][0] - A[0][0]*A[1][2]
-            cofactor[2][2] = A[0][0]*A[1][1] - A[0][1]*A[1][0]
-        return cofactor
-    except Exception as e:
-        print('Could not find cofactor matrix due to ', e)
+    cofactor[0][0] = A[1][1]*A[2][2] - A[1][2]*A[2][1]
+    cofactor[0][1] = A[1][2]*A[2][0] - A[1][0]*A[2][2]
+    cofactor[0][2] = A[1][0]*A[2][1] - A[1][1]*A[2][0]
+
+    cofactor[1][0] = A[0][2]*A[2][1] - A[0][1]*A[2][2]
+    cofactor[1][1] = A[0][0]*A[2][2] - A[0][2]*A[2][0]
+    cofactor[1][2] = A[0][1]*A[2][0] - A[0][0]*A[2][1]
+
+    cofactor[2][0] = A[0][1]*A[1][2] - A[0][2]*A[1][1]
+    cofactor[2][1] = A[0][2]*A[1][0] - A[0][0]*A[1][2]
+    cofactor[2][2] = A[0][0]*A[1][1] - A[0][1]*A[1][0]
+    return cofactor
 
 
 class Seismic(object):
-- 
2.43.0


From a9c7bc74a55fc02ed97e60dba85dd0ec21bfbd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 32/82] fix: check the contents of phonon input files

---
 quantas/IO/qha_reader.py | 108 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 102 insertions(+), 6 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 67eaf38..4543aba 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -51,6 +51,9 @@ class QHAInputFileReader(BasicReader):
             Path to the input file
         
         """
+        self._data = None
+        self.completed = False
+        self.error = None
         with open(filename, 'r') as stream:
             try:
                 self._data = yaml.safe_load(stream)
@@ -65,11 +68,15 @@ class QHAInputFileReader(BasicReader):
                     self.error += '\n\nPlease, correct data and retry.'
             except UnicodeDecodeError:
                 self.error = "The provided input is not a YAML file."
-        self._check()
+            except (ValueError, RecursionError) as exc:
+                self.error = 'Error in parsing YAML file: {}'.format(exc)
+        if isinstance(self.error, type(None)):
+            self._check()
         return
 
     def _check(self):
-        if isinstance(self._data, type(None)):
+        if not isinstance(self._data, dict):
+            self.error = 'The provided input is not a (Q)HA input file'
             return
         if not 'volume' in self._data:
             self.error = 'No volume values in input file'
@@ -80,15 +87,104 @@ class QHAInputFileReader(BasicReader):
         if not 'phonon' in self._data:
             self.error = 'No phonon data in input file'
             return
-        self.completed = True
+        for key in ['natom', 'supercell', 'qpoints']:
+            if not key in self._data:
+                self.error = 'No {} value in input file'.format(key)
+                return
+        self.error = self._check_values()
+        self.completed = isinstance(self.error, type(None))
         return
 
+    def _check_values(self):
+        """ Check that the values are numbers and that their amount is right.
+
+        Returns
+        -------
+
+        error: None or str
+            Description of the first problem found in the input data.
+        """
+        wrong = (KeyError, IndexError, TypeError, ValueError, AttributeError,
+                 OverflowError)
+        for key in ['natom', 'qpoints']:
+            value = self._data[key]
+            if isinstance(value, bool) or \
+                    not isinstance(value, (int, float)) or \
+                    value % 1 != 0 or value < 1:
+                return 'Wrong {} value in input file'.format(key)
+
+        try:
+            supercell = np.array(self._data['supercell'], dtype=np.float64)
+            valid = supercell.shape == (3, 3) and np.isfinite(supercell).all()
+        except wrong:
+            valid = False
+        if not valid:
+            return 'Wrong supercell values in input file'
+
+        for key in ['volume', 'energy']:
+            if not self._is_numeric(self._data[key]):
+                return 'Wrong {} values in input file'.format(key)
+        if np.size(self.volume) != np.size(self.energy):
+            return 'Different number of volume and energy values in input file'
+
+        phonon = self._data['phonon']
+        if not isinstance(phonon, list) or len(phonon) == 0:
+            return 'Wrong phonon data in input file'
+        for i, q in enumerate(phonon):
+            where = 'in phonon data of q-point {}'.format(i + 1)
+            try:
+                weight = q['weight']
+                bands = [band['frequency'] for band in q['band']]
+            except wrong:
+                return 'Missing weight or band frequencies ' + where
+            if not self._is_numeric(weight) or np.size(weight) != 1 \
+                    or self._get_float(weight) < 0.:
+                return 'Wrong weight ' + where
+            if len(bands) != 3 * self.natoms:
+                return 'Wrong number of bands ' + where
+            for j, band in enumerate(bands):
+                if not self._is_numeric(band):
+                    return 'Wrong frequency values of band {} {}'.format(
+                        j + 1, where)
+                if np.size(self._get_float(band)) != np.size(self.volume):
+                    return 'Wrong number of frequencies of band {} {}'.format(
+                        j + 1, where)
+
+        # 'qpoints' is either the number of blocks or the sum of the weights
+        weights = [self._get_float(q['weight']) for q in phonon]
+        total = np.sum(weights)
+        if not total > 0.:
+            return 'The sum of the weights of the q-points is zero'
+        if len(phonon) != self.qpoints:
+            if len(phonon) > self.qpoints or \
+                    not np.isclose(total, self.qpoints):
+                return 'Wrong number of q-points in phonon data'
+        return None
+
+    @classmethod
+    def _is_numeric(cls, item):
+        """ True if the item is a finite number or a list of them. """
+        items = item if isinstance(item, list) else [item]
+        if len(items) == 0 or any(
+                isinstance(x, bool) or not isinstance(x, (int, float, str))
+                for x in items):
+            return False
+        try:
+            values = cls._get_float(item)
+        except (IndexError, TypeError, ValueError, AttributeError,
+                OverflowError):
+            return False
+        return np.size(values) > 0 and bool(np.isfinite(values).all())
+
     @staticmethod
     def _get_float(item):
         try:
             return np.float64(item)
         except ValueError:
-            return np.array(item[0].split(), dtype=np.float64)
+            # values separated by spaces instead of commas
+            if isinstance(item, list) and len(item) == 1:
+                item = item[0]
+            return np.array(item.split(), dtype=np.float64)
 
     @staticmethod
     def _get_int(item):
@@ -99,7 +195,7 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_string(item):
-        return item.rstrip()
+        return str(item).rstrip()
 
     @property
     def data(self):
@@ -107,7 +203,7 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def jobname(self):
-        if 'job' in self._data:
+        if not isinstance(self._data.get('job'), type(None)):
             return self._get_string(self._data['job'])
         else:
             return 'Unknown'
-- 
2.43.0


From 4b7309ca18a2e2fcb6bec38c7c6ab5ce9771f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 33/82] fix: accept phonon inputs with one volume given as a
 number

---
 quantas/IO/qha_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 4543aba..4c63298 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -230,11 +230,11 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def volume(self):
-        return self._get_float(self._data['volume'])
+        return np.atleast_1d(self._get_float(self._data['volume']))
 
     @property
     def energy(self):
-        return self._get_float(self._data['energy'])
+        return np.atleast_1d(self._get_float(self._data['energy']))
 
     @property
     def frequencies(self):
-- 
2.43.0


From 261d39140c0c4f3d1b857d51d3318857ea92502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 34/82] fix: do not stop quasi-harmonic runs when a volume has
 no minimum

---
 quantas/qha/qha.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 8791ecc..c6c2f1b 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -857,6 +857,11 @@ class QHACalculator(BasicCalculator):
         
         t0 = clock()
         t0_f = t0
+        if np.isnan(self._results['VT']).any():
+            self.echo_warning(' - WARNING! No equilibrium volume was found at')
+            self.echo_warning('   some conditions, whose results are not')
+            self.echo_warning('   defined (nan).')
+            self.echo_warning('')
         self.echo(' - Calculation of enthalpy H(T,P) and Gibbs free '
                  'energy G(T,P):')
         self._results['H'] = self.set_enthalpy(
@@ -1055,8 +1060,11 @@ class QHACalculator(BasicCalculator):
             if isinstance(parameters, type(None)):
                 parameters = polyfit(volume, free_energy, self._edeg)
             pressure = self.set_target_pressure(pressure)
-            volume_PT = find_polynomial_minimum(parameters, pressure)[0]
-            return volume_PT, 0., 0.
+            minima = find_polynomial_minimum(parameters, pressure)
+            if len(minima) == 0:
+                # The function has no minimum at these conditions
+                return np.nan, np.nan, np.nan
+            return minima[0], 0., 0.
         elif self.eos_minimization.is_on():
             eos_pars, _ = self.find_eos_minimum(volume, free_energy, pressure)
             eos_pars[1] = energy_to_pressure(eos_pars[1], self._eunit,
@@ -1095,6 +1103,8 @@ class QHACalculator(BasicCalculator):
             Isothermal bulk modulus (KT) value.
 
         """
+        if np.isnan(V).any():
+            return np.nan, np.nan
         n = len(V)
         KTs = np.zeros(n, dtype=np.float64)
         pressures = np.zeros(n, dtype=np.float64)
-- 
2.43.0


From b6f4991f9ec4da65e465f56d7a6c095c98cf19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 35/82] fix: do not stop quasi-harmonic runs when an EoS fit
 does not converge

---
 quantas/qha/qha.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index c6c2f1b..90432a3 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -422,7 +422,7 @@ class QHACalculator(BasicCalculator):
                         red_val = int(np.round(val, magnitude))
                     red_err = int(np.round(red_err,0))
                     self.echo('{} = {}({})'.format(label, red_val, red_err))
-                except OverflowError:
+                except (OverflowError, ValueError):
                     self.echo('{} = {}({})'.format(label, val, err))
         self.echo('')
         # Check if Kieffer's approach was requested, even in the case of
@@ -992,7 +992,12 @@ class QHACalculator(BasicCalculator):
         P0 = self.set_target_pressure(P0)
         F_P = np.array(F) + P0*np.array(V)
         eos = EnergyEOS()
-        eos_pars, eos_errs = eos.fit(self.eos_formulation, V, F_P)
+        try:
+            eos_pars, eos_errs = eos.fit(self.eos_formulation, V, F_P)
+        except RuntimeError:
+            # The fit did not converge, i.e. the data have no minimum
+            eos_pars = np.full(4, np.nan)
+            eos_errs = np.full(4, np.nan)
         return eos_pars, eos_errs
 
     def set_target_pressure(self, pressure):
-- 
2.43.0


From b7dd2bb70d9848f34af0b3a0e3099a7bda76a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 36/82] fix: keep the scale of the EoS energy parameter in E(V)
 fits

---
 quantas/qha/utils/ev_eos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index c94125b..3531682 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -92,8 +92,9 @@ class EnergyEOS(object):
         # Set the EOS function
         eos = self._set_eos_type(eostag)
         # The fit is performed on energy differences, because the absolute
-        # energy could be several orders of magnitude larger
-        reference = np.min(E)
+        # energy could be several orders of magnitude larger. The reference is
+        # such that E0 has the same magnitude of these differences
+        reference = np.min(E) - np.ptp(E)
         E = E - reference
         # Perform a guess on the parameters
         p0 = self.guess(V, E)
-- 
2.43.0


From 6d4195e9b53484b6c3e90a6e0e954bf8f5a0fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 37/82] fix: declare the unit of QHA isobaric heat capacities

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 90432a3..17a8d06 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1299,7 +1299,7 @@ pressure and temperature.
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
-                if prop == 'Cv' or prop == 'S':
+                if prop in ['Cv', 'S', 'Cp', 'Cp-Cv']:
                     dset.attrs['unit'] = 'm'+self._eunit
                 elif prop == 'VT':
                     dset.attrs['unit'] = self._vunit
-- 
2.43.0


From 76a2d3714075136c12d8c88d396714d5a85719af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 38/82] fix: print the volume unit in use in QHA reports

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 17a8d06..c9becd8 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1224,7 +1224,7 @@ class QHACalculator(BasicCalculator):
             self.echo(
                 '{0: ^7} {1: ^14} {2: ^16} {3: ^9} {4: ^9} {5: ^16}'.format(
                     'T ({})'.format(self._tunit),
-                    'V(T) (A^3)',
+                    'V(T) ({}^3)'.format(self._vunit),
                     'a_V (K^-1)',
                     'KT ({})'.format(self._punit),
                     'KS ({})'.format(self._punit),
-- 
2.43.0


From a29fff2ff62673ecfdffac37aa77f81ea34aa178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 39/82] fix: store the job title in QHA result files

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index c9becd8..a83d2b8 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1263,7 +1263,7 @@ calculations performed with the following settings:
 
 Thermodynamics and mechanical properties were calculated as a function of
 pressure and temperature.
-""".format(self.input.job if hasattr(self.input, 'job') else 'Unknown',
+""".format(self.input.jobname,
            self._eunit, self._vunit, self._funit, self._tunit, self._punit,
            'frequency' if self.frequency_interpolation.is_on() else 'thermodynamic',
            'polynomial' if self.polynomial_minimization.is_on() else 'EoS'
-- 
2.43.0


From f018d72eebeee6145ba7ef330a9de51ecc602eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 40/82] fix: correct the integrand of Kieffer's entropy

---
 quantas/qha/utils/kieffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index c4c38fe..434bc65 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -211,7 +211,7 @@ class Kieffer(object):
             # Calculate the first addendum
             num = np.power(np.arcsin(x/xi), 2.) *x
             den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            den *= np.exp(x) - 1.
             first_term = num / den
 
             # Calculate the second addendum
-- 
2.43.0


From 2fc0dd0cccc49313511b8181423889975661d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 41/82] fix: integrate Kieffer's functions over the whole
 acoustic branch

---
 quantas/qha/utils/kieffer.py | 90 ++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 49 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index 434bc65..54ec432 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -84,22 +84,47 @@ class Kieffer(object):
             value += self._helmholtz_integral(temperature, acofreq)
         return value
 
+    def _integrate(self, function, xi):
+        """ Integrate a function of x = hv/(k_B T) over the sinusoidal
+        dispersion of an acoustic branch.
+
+        The integral over x contains the density of states
+        arcsin(x/xi)^2 / (xi^2 - x^2)^(1/2), which is singular at the cut-off
+        xi. The substitution x = xi*sin(q) removes the singularity.
+
+        Parameters
+        ----------
+
+        function: function
+            Function of x to be integrated.
+        xi: float
+            Maximum value of the term hv_i/(k_B T).
+
+        Return
+        ------
+        integral: float
+            Value of the integral.
+        """
+        def integrand(q):
+            return np.power(q, 2.) * function(xi * np.sin(q))
+
+        # The functions are different from zero up to x = 50, at most
+        qmax = np.pi / 2.
+        if xi > 50.:
+            qmax = np.arcsin(50. / xi)
+        integral, err = quad(integrand, 0., qmax, epsabs=0.,
+                             epsrel=self.cutoff)
+        return integral
+
     def _helmholtz_integral(self, temperature, xnti):
         """
         """
-        def helmholtz_function(x, temperature, xnti):
-            xi = xnti / temperature
-            num = np.power((np.arcsin(x/xi)),2)*np.log(1-np.exp(-x))
-            den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            value = num / den
-            return value
+        def helmholtz_function(x):
+            return np.log(-np.expm1(-x))
 
         if temperature == 0.:
             return 0.
-        wmin = 1.e-6
-        wmax = xnti/temperature
-        function  = lambda x: helmholtz_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
+        integral = self._integrate(helmholtz_function, xnti/temperature)
         factor = 3 * temperature * NA * kb * np.power(2./np.pi, 3.)
 
         return integral * factor
@@ -128,7 +153,7 @@ class Kieffer(object):
     def _heat_capacity_integral(self, temperature, xnti):
         """
         """
-        def heat_capacity_function(x, temperature, xnti):
+        def heat_capacity_function(x):
             """ Function for the acoustic contribution to the heat
             capacity according to the Kieffer's model.
 
@@ -137,30 +162,17 @@ class Kieffer(object):
 
             x: float
                 Current value of the term hv_i/(k_B T).
-            temperature: float
-                Temperature value (in K).
-            xnti: float
-                Maximum value of the term hv_i/(k_B T).
 
             Return
             ------
             value: float
                 Heat capacity value.
             """
-            xi = xnti / temperature
-            num = np.power(np.arcsin(x/xi), 2.) * np.power(x, 2.)
-            num *= np.exp(x)
-            den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
-            value = num / den
-            return value
+            return np.power(x, 2.) * np.exp(x) / np.power(np.expm1(x), 2.)
 
         if temperature == 0.:
             return 0.
-        wmin = 1.e-6
-        wmax = xnti/temperature
-        function  = lambda x: heat_capacity_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
+        integral = self._integrate(heat_capacity_function, xnti/temperature)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
@@ -188,7 +200,7 @@ class Kieffer(object):
     def _entropy_integral(self, temperature, xnti):
         """
         """
-        def entropy_function(x, temperature, xnti):
+        def entropy_function(x):
             """ Function for the acoustic contribution to the entropy
             according to the Kieffer's model.
 
@@ -197,37 +209,17 @@ class Kieffer(object):
 
             x: float
                 Current value of the term hv_i/(k_B T).
-            temperature: float
-                Temperature value (in K).
-            xnti: float
-                Maximum value of the term hv_i/(k_B T).
 
             Return
             ------
             value: float
                 Entropy value.
             """
-            xi = xnti / temperature
-            # Calculate the first addendum
-            num = np.power(np.arcsin(x/xi), 2.) *x
-            den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.exp(x) - 1.
-            first_term = num / den
-
-            # Calculate the second addendum
-            num = np.power(np.arcsin(x/xi), 2.)
-            den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            second_term = num * np.log(1. - np.exp(-x)) / den
-
-            value = first_term - second_term
-            return value
+            return x / np.expm1(x) - np.log(-np.expm1(-x))
 
         if temperature == 0.:
             return 0.
-        wmin = 1.e-6
-        wmax = xnti/temperature
-        function  = lambda x: entropy_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, 0.999*wmax, epsrel=self.cutoff)
+        integral = self._integrate(entropy_function, xnti/temperature)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
-- 
2.43.0


From 06dcfe990853963e776021ccb3b274272875990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 42/82] fix: report missing acoustic frequencies instead of
 raising AttributeError

---
 quantas/qha/qha.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index a83d2b8..e31c44b 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -257,9 +257,10 @@ class QHACalculator(BasicCalculator):
         Returns
         -------
         ndarray(dtype=float, ndim=2)
-            Array containing the acoustic frequency values at each volume.
+            Array containing the acoustic frequency values at each volume, or
+            None if the input does not provide them.
         """
-        return self.input.acoustic_kieffer
+        return getattr(self.input, 'acoustic_kieffer', None)
 
     @property
     def pressure(self):
-- 
2.43.0


From 6ebb79776c03a1279f62079a3f0c4935ea3af2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 43/82] fix: take the polynomial minimum among the sampled
 volumes

---
 quantas/qha/qha.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index e31c44b..ee61f2c 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1070,7 +1070,9 @@ class QHACalculator(BasicCalculator):
             if len(minima) == 0:
                 # The function has no minimum at these conditions
                 return np.nan, np.nan, np.nan
-            return minima[0], 0., 0.
+            # The polynomial could have other minima, far from the data
+            closest = np.argmin(np.abs(minima - np.mean(volume)))
+            return minima[closest], 0., 0.
         elif self.eos_minimization.is_on():
             eos_pars, _ = self.find_eos_minimum(volume, free_energy, pressure)
             eos_pars[1] = energy_to_pressure(eos_pars[1], self._eunit,
-- 
2.43.0


From aa392ae90b7a9c87a368098fc6ac6a3b8fcb2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 44/82] fix: return contiguous coefficients from polyfit

---
 quantas/utils/math/polynomials.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/utils/math/polynomials.py b/quantas/utils/math/polynomials.py
index 7c6071e..dc657e9 100644
--- a/quantas/utils/math/polynomials.py
+++ b/quantas/utils/math/polynomials.py
@@ -20,7 +20,8 @@ def polyfit(X, Y, degree):
     if len(Y.shape) == 1:
         return np.polynomial.polynomial.polyfit(X, Y, degree)
     else:
-        return np.polynomial.polynomial.polyfit(X, Y.T, degree).T
+        return np.ascontiguousarray(
+            np.polynomial.polynomial.polyfit(X, Y.T, degree).T)
 
 def single_R_squared(X, Y, pars):
     """ Calculates the R-squared values related to a polynomial fit """
-- 
2.43.0


From 11b4bdbaaf32069dc2b743cfa6e0f21edefd0411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 45/82] fix: return the matrix of cofactors

---
 quantas/utils/math/fast_math.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/utils/math/fast_math.pyx b/quantas/utils/math/fast_math.pyx
index 8c259f3..38034d9 100644
--- a/quantas/utils/math/fast_math.pyx
+++ b/quantas/utils/math/fast_math.pyx
@@ -129,5 +129,5 @@ cpdef cofactor(double[:,::1] mat):
     c[2][0] = m[0][1]*m[1][2] - m[0][2]*m[1][1]
     c[2][1] = m[0][2]*m[1][0] - m[0][0]*m[1][2]
     c[2][2] = m[0][0]*m[1][1] - m[0][1]*m[1][0]
-    return
+    return cof
 
-- 
2.43.0


From 400cd593660afd2e42600d6b8f5b473d0ffed1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 46/82] fix: keep the data of each exported file apart

---
 quantas/harmonic/utils/export.py | 5 +++++
 quantas/qha/utils/export.py      | 5 +++++
 quantas/seismic/utils/export.py  | 3 +++
 quantas/soec/utils/export.py     | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 7017dcb..bdb6dfd 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -33,6 +33,11 @@ class QuantasHarmonicExport(object):
         '''
         '''
         self.basename = os.path.splitext(filename)[0]
+        # Each file has its own data
+        self.x = {}
+        self.y = {}
+        self.data = {}
+        self.error = None
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index d383a46..19e9462 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -33,6 +33,11 @@ class QuantasQHAExport(object):
         """
         """
         self.basename = os.path.splitext(filename)[0]
+        # Each file has its own data
+        self.x = {}
+        self.y = {}
+        self.data = {}
+        self.error = None
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index 69329a2..44a996f 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -37,6 +37,9 @@ class QuantasSeismicExport(object):
 
         """
         self.basename = os.path.splitext(filename)[0]
+        # Each file has its own data
+        self.data = {}
+        self.error = None
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 0d4498a..3f85ca0 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -32,6 +32,9 @@ class QuantasSOECExport(object):
         """
         """
         self.basename = os.path.splitext(filename)[0]
+        # Each file has its own data
+        self.data = {}
+        self.error = None
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
-- 
2.43.0


From 263acfa338076a5828d5eca2b960fdb42b4d7acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 47/82] fix: report files that are not HDF5 when exporting
 results

---
 quantas/harmonic/utils/export.py | 7 ++++++-
 quantas/qha/utils/export.py      | 7 ++++++-
 quantas/seismic/utils/export.py  | 7 ++++++-
 quantas/soec/utils/export.py     | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index bdb6dfd..21ae0b5 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -38,7 +38,12 @@ class QuantasHarmonicExport(object):
         self.y = {}
         self.data = {}
         self.error = None
-        with h5py.File(filename, 'r') as f:
+        try:
+            h5file = h5py.File(filename, 'r')
+        except OSError:
+            self.error = 'This does not appear to be a Quantas output file'
+            return
+        with h5file as f:
             try:
                 self.info = f.attrs['info']
             except KeyError:
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index 19e9462..2c47da4 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -38,7 +38,12 @@ class QuantasQHAExport(object):
         self.y = {}
         self.data = {}
         self.error = None
-        with h5py.File(filename, 'r') as f:
+        try:
+            h5file = h5py.File(filename, 'r')
+        except OSError:
+            self.error = 'This does not appear to be a Quantas output file'
+            return
+        with h5file as f:
             try:
                 self.info = f.attrs['info']
             except KeyError:
diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index 44a996f..e41c34b 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -40,7 +40,12 @@ class QuantasSeismicExport(object):
         # Each file has its own data
         self.data = {}
         self.error = None
-        with h5py.File(filename, 'r') as f:
+        try:
+            h5file = h5py.File(filename, 'r')
+        except OSError:
+            self.error = 'This does not appear to be a Quantas output file'
+            return
+        with h5file as f:
             try:
                 self.info = f.attrs['info']
             except KeyError:
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 3f85ca0..1c7cf7e 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -35,7 +35,12 @@ class QuantasSOECExport(object):
         # Each file has its own data
         self.data = {}
         self.error = None
-        with h5py.File(filename, 'r') as f:
+        try:
+            h5file = h5py.File(filename, 'r')
+        except OSError:
+            self.error = 'This does not appear to be a Quantas output file'
+            return
+        with h5file as f:
             try:
                 self.info = f.attrs['info']
             except KeyError:
-- 
2.43.0


From 3715b834ba8f8db197c26d2b0aae484f32da2741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 48/82] fix: report SOEC results without polar properties to
 export

---
 quantas/soec/utils/export.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 1c7cf7e..8128829 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -64,6 +64,9 @@ class QuantasSOECExport(object):
                     self.data[key] = {}
                     self.data[key]['values'] = f[key][:]
                     self.data[key]['unit'] = f[key].attrs['unit']
+
+            if not self.data:
+                self.error = 'No polar properties are stored in this file'
         return
 
     def run(self):
-- 
2.43.0


From 8c2a6870cb4711f6444d769fa35044b7818fe5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 49/82] fix: export harmonic quantities that do not depend on
 temperature

---
 quantas/harmonic/utils/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/harmonic/utils/table.py b/quantas/harmonic/utils/table.py
index 650117d..ba72d10 100644
--- a/quantas/harmonic/utils/table.py
+++ b/quantas/harmonic/utils/table.py
@@ -8,6 +8,8 @@
 # For further information on the license, see the LICENSE file               #
 ##############################################################################
 
+import numpy as np
+
 # ---------------------------------------------------------------------------#
 # Formatting constants
 # ---------------------------------------------------------------------------#
@@ -135,6 +137,8 @@ class QHATableFile():
               ):
         with open(outfile, 'wt', encoding='utf8') as f:
             totw, dataw = calc_space(len(y))
+            # Some quantities do not depend on x
+            z = np.broadcast_to(z, (len(x), len(y)))
             # Write the header
             f.write(fileHeader)
             f.write(nl)
-- 
2.43.0


From 7b7c55ee95cf29745e1639cf3ca13fc45c203f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 50/82] fix: report missing data when reading result files

---
 quantas/IO/hdf5_export.py | 2 +-
 quantas/IO/hdf5_reader.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantas/IO/hdf5_export.py b/quantas/IO/hdf5_export.py
index 5677555..91e6fce 100644
--- a/quantas/IO/hdf5_export.py
+++ b/quantas/IO/hdf5_export.py
@@ -42,7 +42,7 @@ class QuantasHDF5Export(object):
             elif var.lower() == 'quit':
                 stop = True
                 continue
-            elif not self._reader.has_data(var):
+            elif self._reader.has_data(var) != True:
                 print('Error: {}'.format(self._reader.has_data(var)))
                 continue
             else:
diff --git a/quantas/IO/hdf5_reader.py b/quantas/IO/hdf5_reader.py
index b77784b..1cef18c 100644
--- a/quantas/IO/hdf5_reader.py
+++ b/quantas/IO/hdf5_reader.py
@@ -55,7 +55,7 @@ class QuantasHDF5Reader(object):
             try:
                 with h5py.File(self.settings['input'],'r') as f:
                     return f[key][:,column]
-            except ValueError:
+            except (IndexError, ValueError):
                 return 'Index {0} not available'.format(column)
 
     def get_data_row(self, key, row):
@@ -65,13 +65,13 @@ class QuantasHDF5Reader(object):
             try:
                 with h5py.File(self.settings['input'],'r') as f:
                     return f[key][row]
-            except ValueError:
+            except (IndexError, ValueError):
                 return 'Index {0} not available'.format(row)
 
     def get_attribute(self, key, attribute):
-        if not self.__has_dataset(key):
+        if self.__has_dataset(key) != True:
             return self.__has_dataset(key)
-        elif not self.__has_attribute(key, attribute):
+        elif self.__has_attribute(key, attribute) != True:
             return self.__has_attribute(key, attribute)
         else:
             with h5py.File(self.settings['input'], 'r') as f:
-- 
2.43.0


From fa970dad6b69bde9be782fa98abf1b0512603320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 51/82] fix: export harmonic quantities that do not depend on
 temperature with QuantasHDF5Export

---
 quantas/IO/hdf5_export.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantas/IO/hdf5_export.py b/quantas/IO/hdf5_export.py
index 91e6fce..d2694d1 100644
--- a/quantas/IO/hdf5_export.py
+++ b/quantas/IO/hdf5_export.py
@@ -17,6 +17,7 @@ different file formats.
 """
 
 import os
+import numpy as np
 from quantas.IO.hdf5_reader import QuantasHDF5Reader
 
 
@@ -264,6 +265,8 @@ class QHATableFile():
     def write(self):
         f = open(self.outfile, 'wt', encoding='utf8')
         totw, dataw = calc_space(len(self.y))
+        # Some quantities do not depend on x
+        self.z = np.broadcast_to(self.z, (len(self.x), len(self.y)))
         # Write the header
         f.write(fileHeader)
         f.write(nl)
-- 
2.43.0


From 22373605e3895b50af7f0cd02ec974030b741a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 52/82] fix: do not store polar properties that were not
 calculated

---
 quantas/soec/soec.py | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 65990b0..6d22def 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -126,29 +126,7 @@ class SOECCalculator(BasicCalculator):
         results_dict = {
             'avgs': None,
             'eigv': None,
-            'polar': {
-                'xy': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'xz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'yz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    }
-                },
+            'polar': {},
             }
         return results_dict
 
-- 
2.43.0


From 5f31ed920123241a34b0f3f86fa849ff3bed7c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 53/82] fix: keep the digits of thermal expansion coefficients
 in QuantasHDF5Export

---
 quantas/IO/hdf5_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/hdf5_export.py b/quantas/IO/hdf5_export.py
index d2694d1..7c1071a 100644
--- a/quantas/IO/hdf5_export.py
+++ b/quantas/IO/hdf5_export.py
@@ -251,7 +251,7 @@ class QHATableFile():
         if name == 'Temperature':
             style = ttype
             label = 'T (' + unit + ')'
-        elif 'volume' in name.lower():
+        elif 'volume' in name.lower().split():
             style = vtype
             label = 'Volume (' + unit + ')'
         elif 'bulk modulus' in name.lower() or name == 'Pressure':
-- 
2.43.0


From d113c2e3ae6b2182af868db0d3d66bb8620403b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 54/82] fix: keep the elastic moduli of each ab initio output
 apart

---
 quantas/interfaces/crystal.py | 10 +++++-----
 quantas/interfaces/vasp.py    | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 2027ef0..6e5b2b5 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1420,14 +1420,14 @@ class CrystalSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, crystal_soec_output):
         """
         """
+        # Each output has its own data
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
         BasicReader.__init__(self, crystal_soec_output)
         return
 
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index de57fb1..2970902 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -20,14 +20,14 @@ class VASPSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, vasp_outcar):
         """
         """
+        # Each output has its own data
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
         BasicReader.__init__(self, vasp_outcar)
         return
 
-- 
2.43.0


From 5f7ed207a0a522d4072aa6d2c598a9896c1d2c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 55/82] fix: reorder all the shear components of VASP elastic
 moduli

---
 quantas/interfaces/vasp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index 2970902..9d79f33 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -56,8 +56,9 @@ class VASPSOECReader(BasicReader):
                     self.error += 'Please, check the OUTCAR file'
                     return
 
-        self._data['stiffness'][[3, 5]] = self._data['stiffness'][[5, 3]]
-        self._data['stiffness'][:, [3, 5]] = self._data['stiffness'][:, [5, 3]]
+        # From XX, YY, ZZ, XY, YZ, ZX to XX, YY, ZZ, YZ, XZ, XY (Voigt)
+        order = [0, 1, 2, 4, 5, 3]
+        self._data['stiffness'] = self._data['stiffness'][order][:, order]
 
         self.completed = True
         return
-- 
2.43.0


From 6a79760a5e14b2dee7ee0f1d3fe1895185cadb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 56/82] fix: count every line of the OUTCAR file when looking
 for elastic moduli

---
 quantas/interfaces/vasp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index 9d79f33..3e14a9c 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -134,8 +134,7 @@ class VASPSOECReader(BasicReader):
                 if soec_relaxed in line:
                     relaxed = True
                     relaxed_line = counter + 3
-                else:
-                    counter += 1
+                counter += 1
         if relaxed:
             return relaxed_line
         else:
-- 
2.43.0


From f2b0ba422e18ba47d5798442dc3d2a488807a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 57/82] fix: report incomplete elastic moduli in ab initio
 outputs

---
 quantas/interfaces/crystal.py | 8 +++++---
 quantas/interfaces/vasp.py    | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 6e5b2b5..7872844 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1452,11 +1452,13 @@ class CrystalSOECReader(BasicReader):
             data = f.readlines()
 
         for i in range(6):
-            line = data[i+sline].replace('|','').split()
             for j in range(6-i):
                 try:
-                    self._data['stiffness'][i, j+i] = float(line[j])
-                except ValueError:
+                    value = float(data[i+sline].replace('|','').split()[j])
+                    if not np.isfinite(value):
+                        raise ValueError
+                    self._data['stiffness'][i, j+i] = value
+                except (IndexError, ValueError):
                     self.error = 'Problem in collecting the SOEC matrix '
                     self.error += 'element {} {}\n'.format(i+1, j+i+1)
                     self.error += 'Please, check the CRYSTAL output file'
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index 3e14a9c..c4180e2 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -46,11 +46,13 @@ class VASPSOECReader(BasicReader):
             data = f.readlines()
 
         for i in range(6):
-            line = data[i+sline].split()
             for j in range(6):
                 try:
-                    self._data['stiffness'][i, j] = float(line[j+1]) / 10.
-                except ValueError:
+                    value = float(data[i+sline].split()[j+1]) / 10.
+                    if not np.isfinite(value):
+                        raise ValueError
+                    self._data['stiffness'][i, j] = value
+                except (IndexError, ValueError):
                     self.error = 'Problem in collecting the SOEC matrix '
                     self.error += 'element {} {}\n'.format(i+1, j+1)
                     self.error += 'Please, check the OUTCAR file'
-- 
2.43.0


From 4fbf1831cbf9ede87dc766d41cf1778b65f0a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 58/82] fix: do not share data between phonon input generators

---
 quantas/IO/qha_writer.py      |  3 +++
 quantas/interfaces/crystal.py | 29 +++++++++++++++--------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index e715339..d979fb7 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -38,6 +38,8 @@ class QHAInputCreator(object):
         """
         """
         self.interface_flag = interface
+        # Each generator has its own data
+        self.phondata = []
         return
 
     def read(self, filename, is_list, reference=0, use_symm=False):
@@ -48,6 +50,7 @@ class QHAInputCreator(object):
             return False, error
 
         c = 0
+        self.phondata = []
 
         if is_list:
             file_list = self.get_files_from_list(filename)
diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 7872844..8f3a887 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -791,22 +791,23 @@ class CrystalQHAReader(BasicReader):
     _is_supercell = False
     _is_restarted = False
 
-    _data = {
-        'points': 0.,
-        'unitcell': [],
-        'supercell': [],
-        'expansion': np.identity(3, dtype=int),
-        'energy': 0.,
-        'kpoints': 1,
-        'qpoints': 1,
-        'qcoords': {},
-        'nphonon': 0,
-        'phonons': {},
-        'weights': {},
-        'shrinkf': np.ones(3, dtype=int)
-        }
 
     def __init__(self, crystal_output):
+        # Each output has its own data
+        self._data = {
+            'points': 0.,
+            'unitcell': [],
+            'supercell': [],
+            'expansion': np.identity(3, dtype=int),
+            'energy': 0.,
+            'kpoints': 1,
+            'qpoints': 1,
+            'qcoords': {},
+            'nphonon': 0,
+            'phonons': {},
+            'weights': {},
+            'shrinkf': np.ones(3, dtype=int)
+            }
         BasicReader.__init__(self, crystal_output)
         return
 
-- 
2.43.0


From 686c00073df6dc74cb8d97bc61c44f688683371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 59/82] fix: write any job title in generated phonon inputs

---
 quantas/IO/qha_writer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index d979fb7..cf8942c 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -12,6 +12,7 @@ import os
 import numpy as np
 from copy import deepcopy
 
+import yaml
 from click import echo
 from quantas.interfaces.crystal import CrystalPhononReader
 from quantas.interfaces.crystal import CrystalQHAReader
@@ -105,6 +106,19 @@ class QHAInputCreator(object):
             self.write_from_multiple_files(outfile, jobname, ref)
         return
 
+    @staticmethod
+    def get_title(jobname):
+        """ Return the line of the job title, in quotes if needed by YAML. """
+        title = jobname.strip()
+        try:
+            quote = yaml.safe_load('job: ' + title)['job'] != title
+        except (yaml.YAMLError, TypeError, ValueError):
+            quote = True
+        if quote:
+            title = yaml.safe_dump(title, default_style='"',
+                                   width=float('inf')).rstrip()
+        return 'job: ' + title
+
     def write_from_multiple_files(self, outfile, jobname, ref=0):
         """
         """
@@ -112,7 +126,7 @@ class QHAInputCreator(object):
         reference = self.phondata[ref]
         data = []
         
-        data.append('job: {}'.format(jobname))
+        data.append(self.get_title(jobname))
         data.append('natom:   %-7d' % reference.natom)
         data.append('supercell:')
         for i in range(3):
@@ -164,7 +178,7 @@ class QHAInputCreator(object):
         """
         n = self.phondata.points
         data = []
-        data.append('job: {}'.format(jobname))
+        data.append(self.get_title(jobname))
         data.append('natom:   %-7d' % self.phondata.natom)
         data.append('supercell:')
         for i in range(3):
-- 
2.43.0


From 53622a159f56a115f9edaab0bd54e1ccb6d311a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 60/82] fix: accept left-handed cells in ab initio phonon
 outputs

---
 quantas/interfaces/crystal.py | 18 ++++++++++--------
 quantas/interfaces/phonopy.py |  4 ++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 8f3a887..d500601 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -100,7 +100,7 @@ class CrystalPhononReader(BasicReader):
             self.unitcell = self.set_init_cell(file)
             self.dim = self.set_expansion(file)
             self._data['unitcell']['lattice'] = np.dot(
-                self._data['supercell']['lattice'], np.linalg.inv(self.dim))
+                np.linalg.inv(self.dim), self._data['supercell']['lattice'])
             self.qpoints, self.qcoords, self.weights, self.shrinkf = \
                           self.set_q_mesh(file)
 
@@ -301,11 +301,12 @@ class CrystalPhononReader(BasicReader):
         """
         if self.supercell_on:
             if self.scelphono_on:
-                return np.linalg.det(self._data['unitcell']['lattice'])
+                lattice = self._data['unitcell']['lattice']
             else:
-                return np.linalg.det(self._data['supercell']['lattice'])
+                lattice = self._data['supercell']['lattice']
         else:
-            return np.linalg.det(self._data['unitcell']['lattice'])
+            lattice = self._data['unitcell']['lattice']
+        return np.abs(np.linalg.det(lattice))
 
     @property
     def energy(self):
@@ -403,7 +404,7 @@ class CrystalPhononReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(np.abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def qpoints(self):
@@ -1013,7 +1014,7 @@ class CrystalQHAReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(np.abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def energy(self):
@@ -1030,7 +1031,8 @@ class CrystalQHAReader(BasicReader):
         """
         volumes = np.zeros(self.points, dtype=float)
         for i in range(self.points):
-            volumes[i] = np.linalg.det(self._data['unitcell'][i]['lattice'])
+            volumes[i] = np.abs(
+                np.linalg.det(self._data['unitcell'][i]['lattice']))
         return volumes / self.kpoints
 
     @property
@@ -1306,7 +1308,7 @@ class CrystalQHAReader(BasicReader):
         """
         indexes = []
         for i in range(len(cells)):
-            volume = np.linalg.det(cells[i]['lattice'])
+            volume = np.abs(np.linalg.det(cells[i]['lattice']))
             for j in range(len(cells)):
                 if np.isclose(volume, ordered_volumes[j]):
                     indexes.append(j)
diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30d130e..30324b4 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -168,7 +168,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def volume(self):
-        return np.linalg.det(self._data['unitcell']['lattice'])
+        return np.abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -176,7 +176,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(np.abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def qpoints(self):
-- 
2.43.0


From 9c1ed95d343e3f32f0103d6c042116eab00a09ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 61/82] fix: keep the weights of q-points that are not integers

---
 quantas/IO/qha_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index cf8942c..b34e523 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -153,7 +153,7 @@ class QHAInputCreator(object):
         for i in range(reference.qpoints):
             data.append('- q-position: [ %12.7f, %12.7f, %12.7f ]'
                         % tuple(reference.qcoords[i]/reference.shrinkf))
-            data.append('  weight: %-5d' % reference.weights[i])
+            data.append('  weight: %-5.10g' % reference.weights[i])
             data.append('  band:')
             for j in range(reference.nphonon):
                 data.append('  - # {0}'.format(j+1))
@@ -206,7 +206,7 @@ class QHAInputCreator(object):
             data.append(
                 '- q-position: [ %12.7f, %12.7f, %12.7f ]'
                 % tuple(self.phondata.qcoords[i]/self.phondata.shrinkf))
-            data.append('  weight: %-5d' % self.phondata.weights[i])
+            data.append('  weight: %-5.10g' % self.phondata.weights[i])
             data.append('  band:')
             for j in range(self.phondata.nphonon):
                 data.append('  - # {0}'.format(j+1))
-- 
2.43.0


From 227bf5de5a13e767f0bc964c41acc07facddbce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 62/82] fix: read CRYSTAL frequencies of supercells at the
 gamma point

---
 quantas/interfaces/crystal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index d500601..70c59f4 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -101,12 +101,14 @@ class CrystalPhononReader(BasicReader):
             self.dim = self.set_expansion(file)
             self._data['unitcell']['lattice'] = np.dot(
                 np.linalg.inv(self.dim), self._data['supercell']['lattice'])
-            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
-                          self.set_q_mesh(file)
-
+            if self.scelphono_on:
+                self.qpoints, self.qcoords, self.weights, self.shrinkf = \
+                              self.set_q_mesh(file)
         else:
             self.unitcell = self.set_wf_cell(file)
             self.supercell = self.set_wf_cell(file)
+        if not self.scelphono_on:
+            # Only the frequencies at the gamma point were calculated
             self.qcoords = [[0., 0., 0.]]
             self.weights = [1]
         # Collect energy values and phonons
-- 
2.43.0


From 1942c64e03e0da64aa9d8000bbb8508b55f10718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 63/82] fix: report incomplete phonon data in CRYSTAL outputs

---
 quantas/interfaces/crystal.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 70c59f4..e7443cd 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -130,6 +130,9 @@ class CrystalPhononReader(BasicReader):
         if not bool(self.phonons):
             self.error = 'No phonon data in {0}'.format(file)
             return
+        if len(self.phonons) != self.qpoints:
+            self.error = 'Incomplete phonon data in {0}'.format(file)
+            return
         self.completed = True
         return
 
@@ -730,27 +733,21 @@ class CrystalPhononReader(BasicReader):
 
             if frequency_header in data[i]:
 
-                finished = False
                 band = np.zeros(self.nphonon, dtype=float)
-                line_counter = 0
                 freq_counter = 0
-
-                while not finished or freq_counter != self.nphonon:
-                    line = data[i + line_counter + 2].split()
-
+                for line in data[i + 2:]:
+                    line = line.split()
                     if len(line) == 0:
-                        finished = True
-                        continue
-
+                        break
                     mode_n1 = int(line[0][:-1])
                     mode_n2 = int(line[1])
 
                     for j in range(mode_n2 - mode_n1 + 1):
                         band[freq_counter] = float(line[3])
                         freq_counter += 1
-
-                    line_counter += 1
-
+                if freq_counter != self.nphonon:
+                    # Some of the modes are missing
+                    return {}
                 phonons[band_counter] = band
                 band_counter +=1
 
-- 
2.43.0


From 374d0df1ff423fbe68aa199bc3602bae9f4a8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 64/82] fix: match the cells and the sorted volumes of CRYSTAL
 QHA outputs

---
 quantas/interfaces/crystal.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index e7443cd..2d62cde 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1147,8 +1147,8 @@ class CrystalQHAReader(BasicReader):
             data = f.readlines()
 
         points = 0
-        for i in range(sline, sline+100):
-            if len(data[i].split()) != 2:
+        for line in data[sline:]:
+            if len(line.split()) != 2:
                 break
             else:
                 points += 1
@@ -1305,18 +1305,14 @@ class CrystalQHAReader(BasicReader):
             List of ordered unit cell data by increasing unit cell volume.
 
         """
-        indexes = []
-        for i in range(len(cells)):
-            volume = np.abs(np.linalg.det(cells[i]['lattice']))
-            for j in range(len(cells)):
-                if np.isclose(volume, ordered_volumes[j]):
-                    indexes.append(j)
-
-        ordered_cells = []
-        for i in range(len(cells)):
-            ordered_cells.append(cells[indexes.index(i)])
-
-        return ordered_cells
+        volumes = np.array([np.abs(np.linalg.det(cell['lattice']))
+                            for cell in cells])
+        # Both lists hold the same volumes, each in its own order
+        indexes = np.zeros(len(cells), dtype=int)
+        indexes[np.argsort(ordered_volumes)] = np.argsort(volumes)
+        if not np.allclose(volumes[indexes], ordered_volumes):
+            raise ValueError('the cells do not have the sorted volumes')
+        return [cells[i] for i in indexes]
 
     def set_optimized_cell(self, file, idx: int):
         """
-- 
2.43.0


From 757e0ffb9e8238655a2294baa2953521ea4c9a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 65/82] fix: report damaged ab initio phonon outputs

---
 quantas/IO/qha_writer.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index b34e523..f262f58 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -60,17 +60,30 @@ class QHAInputCreator(object):
             
         for file in file_list:
 
-            if not os.path.exists(file):
+            if not os.path.isfile(file):
                 error = 'File {} does not exists'.format(file)
                 return False, error
             echo('  - {} ...'.format(file), nl='')
 
             interface = self.interface_filter[self.interface_flag]
-            data = interface(file)
+            try:
+                data = interface(file)
+                usable = data.completed and self.is_finite(data)
+            except UnicodeDecodeError:
+                raise
+            except (LookupError, TypeError, ValueError, AttributeError,
+                    ArithmeticError, SyntaxError):
+                # SyntaxError is raised by the XML parser
+                error = "File '{}' is incomplete or damaged".format(file)
+                return False, error
 
             if not data.completed:
                 return False, data.error
 
+            if not usable:
+                error = "File '{}' has missing or wrong values".format(file)
+                return False, error
+
             if self.interface_flag == 'crystal-qha':
                 self.phondata = data
             else:
@@ -85,6 +98,16 @@ class QHAInputCreator(object):
 
         return True, None
 
+    @staticmethod
+    def is_finite(data):
+        """ Check that all the values read from a file are usable. """
+        values = [data.volume, data.energy, data.dim, data.shrinkf]
+        for i in range(data.qpoints):
+            values += [data.qcoords[i], data.weights[i], data.phonons[i]]
+        return np.shape(data.dim) == (3, 3) and \
+            all(np.isfinite(value).all() for value in values) \
+            and bool(np.all(data.volume)) and bool(np.all(data.shrinkf))
+
     def get_files_from_list(self, file_list):
         """
         """
-- 
2.43.0


From 052fb3f2d0e74954d317592fdbf222fc2371f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 66/82] fix: report phonon outputs that do not agree with each
 other

---
 quantas/IO/qha_writer.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index f262f58..4836d0a 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -87,6 +87,10 @@ class QHAInputCreator(object):
             if self.interface_flag == 'crystal-qha':
                 self.phondata = data
             else:
+                if len(self.phondata) > 0 and not self.is_same_mesh(data):
+                    error = "File '{}' does not agree with ".format(file)
+                    error += 'the previous ones'
+                    return False, error
                 self.phondata.append(data)
 
             if c == reference and self.interface_flag != 'crystal-qha':
@@ -96,6 +100,9 @@ class QHAInputCreator(object):
 
             c += 1
 
+        if c == 0:
+            error = 'No file name in {}'.format(filename)
+            return False, error
         return True, None
 
     @staticmethod
@@ -108,6 +115,23 @@ class QHAInputCreator(object):
             all(np.isfinite(value).all() for value in values) \
             and bool(np.all(data.volume)) and bool(np.all(data.shrinkf))
 
+    def is_same_mesh(self, data):
+        """
+        Check that a file has the same atoms, supercell and q-points of the
+        first one.
+        """
+        first = self.phondata[0]
+        if data.natom != first.natom or data.qpoints != first.qpoints or \
+                not np.allclose(data.dim, first.dim):
+            return False
+        for i in range(data.qpoints):
+            if not np.isclose(data.weights[i], first.weights[i]) or \
+                    not np.allclose(data.qcoords[i]/data.shrinkf,
+                                    first.qcoords[i]/first.shrinkf,
+                                    atol=1.e-6):
+                return False
+        return True
+
     def get_files_from_list(self, file_list):
         """
         """
-- 
2.43.0


From 4f7f4eed2475e3e79437ea4a21152034d2de631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 67/82] fix: report any reference file that does not exist

---
 quantas/harmonic/commands/cmd_inpgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 78b49c3..7547251 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -91,7 +91,7 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
 
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
-        if ref > len(generator.phondata):
+        if not 0 <= ref < len(generator.phondata):
             echo_error(quantas_error(), bold=True)
             echo_error('Invalid reference provided')
             return
-- 
2.43.0


From 9e43ba398cbcadc20457c210d29f05d68738e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 68/82] fix: report phonopy files that are not YAML

---
 quantas/interfaces/phonopy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30324b4..e1ef1c4 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -104,7 +104,7 @@ class PhonopyReader(BasicReader):
                 self.error = exception
                 return
         else:
-            self.error = ' File not found!'.format(file)
+            self.error = 'File {0} not found!'.format(file)
             return
 
         self.unitcell = self.set_unit_cell(idata)
@@ -209,8 +209,10 @@ class PhonopyReader(BasicReader):
         with open(file, 'r') as stream:
             try:
                 idata = yaml.safe_load(stream)
-            except yaml.YAMLError as exception:
+            except yaml.YAMLError as exc:
                 error = True
+                exception = 'Error in parsing YAML file {0}:\n{1}'.format(
+                    file, exc)
             return error, exception, idata
 
     def set_displacements(self, idata):
-- 
2.43.0


From d65be815edbb9d8577bade3b53f93bc4d65b058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 69/82] fix: report cells without volume in phonon outputs

---
 quantas/IO/qha_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 4836d0a..4117de8 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -113,7 +113,8 @@ class QHAInputCreator(object):
             values += [data.qcoords[i], data.weights[i], data.phonons[i]]
         return np.shape(data.dim) == (3, 3) and \
             all(np.isfinite(value).all() for value in values) \
-            and bool(np.all(data.volume)) and bool(np.all(data.shrinkf))
+            and bool(np.all(np.around(data.volume, 8))) \
+            and bool(np.all(data.shrinkf))
 
     def is_same_mesh(self, data):
         """
-- 
2.43.0


From 76dc11b31df4c6ec3937454b75fdde277ab171b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 70/82] fix: keep temperature and pressure ranges given in
 decreasing order

---
 quantas/harmonic/harmonic.py | 2 +-
 quantas/qha/qha.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index 447576d..ba4af8a 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -135,7 +135,7 @@ class HACalculator(BasicCalculator):
         '''
         values = np.arange(temp[0], temp[1]+temp[2], temp[2])
         # Values beyond the requested maximum are not part of the range
-        self._temperature = values[values <= temp[1] + 1.e-6*temp[2]]
+        self._temperature = values[(values - temp[1])/temp[2] <= 1.e-6]
         return
 
     def read_input(self, filename):
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index ee61f2c..424427d 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -287,7 +287,7 @@ class QHACalculator(BasicCalculator):
         """
         values = np.arange(press[0], press[1]+press[2], press[2])
         # Values beyond the requested maximum are not part of the range
-        self._pressure = values[values <= press[1] + 1.e-6*press[2]]
+        self._pressure = values[(values - press[1])/press[2] <= 1.e-6]
         return
 
     @property
@@ -315,7 +315,7 @@ class QHACalculator(BasicCalculator):
         """
         values = np.arange(temp[0], temp[1]+temp[2], temp[2])
         # Values beyond the requested maximum are not part of the range
-        self._temperature = values[values <= temp[1] + 1.e-6*temp[2]]
+        self._temperature = values[(values - temp[1])/temp[2] <= 1.e-6]
         return
 
     def read_input(self, filename):
-- 
2.43.0


From d401a76321dfbf7478e931b704e6757f82cfdd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 71/82] fix: ask before overwriting any existing file when
 exporting results

---
 quantas/harmonic/utils/export.py | 4 ++--
 quantas/qha/utils/export.py      | 4 ++--
 quantas/seismic/utils/export.py  | 4 ++--
 quantas/soec/utils/export.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 21ae0b5..02b6252 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -82,9 +82,9 @@ class QuantasHarmonicExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index 2c47da4..f1c5840 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -82,9 +82,9 @@ class QuantasQHAExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index e41c34b..b256058 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -82,9 +82,9 @@ class QuantasSeismicExport(object):
                 if selection in key:
                     data = self.data[key]['values']
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 8128829..b62a51a 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -91,9 +91,9 @@ class QuantasSOECExport(object):
                     else:
                         data = np.hstack((data, self.data[key]['values'][:,1:]))
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
-- 
2.43.0


From 4d3da1653a509c022f248a35a2c9da6a8d02698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 72/82] fix: refuse temperature and pressure ranges that cannot
 be used

---
 quantas/cmdline/utils/general.py    | 30 +++++++++++++++++++++++++++++
 quantas/harmonic/commands/cmd_ha.py |  6 +++++-
 quantas/qha/commands/cmd_qha.py     |  8 ++++++--
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/quantas/cmdline/utils/general.py b/quantas/cmdline/utils/general.py
index 1bf1170..833e097 100644
--- a/quantas/cmdline/utils/general.py
+++ b/quantas/cmdline/utils/general.py
@@ -10,6 +10,8 @@
 
 import click
 import difflib
+import math
+import os
 
 from .messages import quantas_title
 from .messages import quantas_error
@@ -65,3 +67,31 @@ def print_version(ctx, param, value):
         return
     echo_highlight(quantas_title(), bold=True)
     ctx.exit()
+
+
+def check_range(ctx, param, value):
+    """
+    Check that a range provided as (min, max, step) contains some values.
+
+    Parameters
+    ----------
+
+    value: tuple
+        Minimum, maximum and step of the range.
+
+    Returns
+    -------
+
+    value: tuple
+        The same range, if it can be used.
+
+    """
+    if not all(math.isfinite(i) for i in value):
+        raise click.BadParameter('values must be finite numbers')
+    start, stop, step = value
+    if step == 0.:
+        raise click.BadParameter('step cannot be zero')
+    if start != stop and (stop > start) != (step > 0.):
+        raise click.BadParameter(
+            'max cannot be reached from min with the provided step')
+    return value
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index d61461b..71a67f0 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_range
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -38,7 +39,7 @@ from ..harmonic import HACalculator
               'without extension.', default=None, metavar='out_file',
               show_default='Input file base name')
 @click.option('-T', '--temperature', nargs=3, type=float,
-              metavar='min max step',
+              metavar='min max step', callback=check_range,
               help='Temperature range provided as a tuple.',
               default=(298.15, 298.15, 1.), show_default='(298.15, 298.15, 1.)')
 @click.option('--eunit', help='Measurement unit for energy values.',
@@ -66,6 +67,9 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     input data for the calculations.
     """
     
+    if min(temperature[:2]) < (-273.15 if tunit == 'C' else 0.):
+        raise click.UsageError('temperatures cannot be below absolute zero')
+
     outbase = os.path.splitext(filename)[0]
     if isinstance(outfile, type(None)):
         outfile = outbase + '_HA.hdf5'
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 23b161d..4e58fd2 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_range
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -66,11 +67,11 @@ eos_functions = {
               help="Enable Kieffer's method for acoustic modes.",
               default=False)
 @click.option('-T', '--temperature', nargs=3, type=float,
-              metavar='min max step',
+              metavar='min max step', callback=check_range,
               help='Temperature range provided as a tuple.',
               default=(298.15, 298.15, 1.), show_default='(298.15, 298.15, 1.)')
 @click.option('-P', '--pressure', nargs=3, type=float,
-              metavar='min max step',
+              metavar='min max step', callback=check_range,
               help='Pressure range provided as a tuple.',
               default=(0., 0., 1.), show_default='(0., 0., 1.)')
 @click.option('--fdeg', help='Set the degree of the polynomials used to fit'
@@ -110,6 +111,9 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
     This command requires a file (FILENAME) that will be read to provide the
     input data for the calculations.
     """
+    if min(temperature[:2]) < (-273.15 if tunit == 'C' else 0.):
+        raise click.UsageError('temperatures cannot be below absolute zero')
+
     outbase = os.path.splitext(filename)[0]
     if isinstance(outfile, type(None)):
         outfile = outbase + '_QHA.hdf5'
-- 
2.43.0


From 18637e72449d0fdcfa6b6fdaf0635d54477e4258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 73/82] fix: refuse output files that would overwrite the input

---
 quantas/cmdline/utils/general.py        | 31 +++++++++++++++++++++++++
 quantas/eosfit/commands/cmd_eosfit.py   |  6 +++++
 quantas/harmonic/commands/cmd_ha.py     |  6 +++++
 quantas/harmonic/commands/cmd_inpgen.py |  7 ++++++
 quantas/qha/commands/cmd_qha.py         |  6 +++++
 quantas/soec/commands/cmd_inpgen.py     |  7 ++++++
 quantas/soec/commands/cmd_soec.py       |  6 +++++
 7 files changed, 69 insertions(+)

diff --git a/quantas/cmdline/utils/general.py b/quantas/cmdline/utils/general.py
index 833e097..456dc7c 100644
--- a/quantas/cmdline/utils/general.py
+++ b/quantas/cmdline/utils/general.py
@@ -95,3 +95,34 @@ def check_range(ctx, param, value):
         raise click.BadParameter(
             'max cannot be reached from min with the provided step')
     return value
+
+
+def check_outputs(filename, *outfiles):
+    """
+    Check that output files can be written without touching the input file.
+
+    Parameters
+    ----------
+
+    filename: str
+        Path to the input file.
+
+    outfiles: str
+        Paths to the output files.
+
+    Returns
+    -------
+
+    error: str
+        Reason why an output file cannot be used, or None.
+
+    """
+    for outfile in outfiles:
+        folder = os.path.dirname(outfile) or os.curdir
+        if not os.path.isdir(folder):
+            return "Output folder '{}' does not exist".format(folder)
+        if os.path.isdir(outfile):
+            return "Output file '{}' is a folder".format(outfile)
+        if os.path.exists(outfile) and os.path.samefile(outfile, filename):
+            return "Output file '{}' is the input file".format(outfile)
+    return None
diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 8ef4da9..fdb2428 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -54,6 +55,11 @@ def eos_calculation(filename, outfile, punit, vunit):
         logfile = outbase + '.log'
     else:
         logfile = outfile + '.log'
+    error = check_outputs(filename, logfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index 71a67f0..b4afee2 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -16,6 +16,7 @@ import click
 import numpy as np
 
 from quantas.cmdline.utils.general import check_range
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -76,6 +77,11 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    error = check_outputs(filename, outfile, logfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 7547251..d23ac8e 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -69,6 +70,12 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
         echo_error("'{}' is not a file".format(filename))
         return
 
+    error = check_outputs(filename, outfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
+
     generator = QHAInputCreator(interface)
 
     try:
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 4e58fd2..28de236 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -16,6 +16,7 @@ import click
 import numpy as np
 
 from quantas.cmdline.utils.general import check_range
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -120,6 +121,11 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    error = check_outputs(filename, outfile, logfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/soec/commands/cmd_inpgen.py b/quantas/soec/commands/cmd_inpgen.py
index d6bac18..2604002 100644
--- a/quantas/soec/commands/cmd_inpgen.py
+++ b/quantas/soec/commands/cmd_inpgen.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -64,6 +65,12 @@ def soec_inpgen(filename, outfile, interface):
         echo_error('{} is not a file'.format(filename))
         return
 
+    error = check_outputs(filename, outfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
+
     generator = SOECInputCreator(interface)
 
     try:
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 26982f4..586c3d9 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -64,6 +65,11 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    error = check_outputs(filename, outfile, logfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
-- 
2.43.0


From 04b34d0385a2186bcb6720606549eb3b57b1d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 74/82] fix: report elastic and equation of state inputs that
 are not text

---
 quantas/IO/eos_reader.py  | 9 +++++++--
 quantas/IO/soec_reader.py | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index eec7ba7..3e8e8be 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -169,8 +169,13 @@ class EoSInputFileReader(BasicReader):
             Path to the EoS input file.
 
         """
-        with open(eos_input, 'r') as f:
-            data = f.readlines()
+        try:
+            with open(eos_input, 'r') as f:
+                data = f.readlines()
+        except UnicodeDecodeError:
+            self.error = 'The provided input is not a text file'
+            self.completed = False
+            return
 
         title = None
         for i in range(len(data)):
diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 16f85d6..ae15c37 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -100,8 +100,12 @@ class SOECInputFileReader(BasicReader):
 
         """
 
-        with open(filename, 'r') as f:
-            data = f.readlines()
+        try:
+            with open(filename, 'r') as f:
+                data = f.readlines()
+        except UnicodeDecodeError:
+            self.error = 'The provided input is not a text file'
+            return
 
         if len(data) < 6:
             self.error = 'File length is too short to contain '
-- 
2.43.0


From 5b8247834bb3b981b3c92b9820655f56ba85d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 75/82] fix: report several weights given to one q-point

---
 quantas/IO/qha_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 4c63298..42abc04 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -137,7 +137,8 @@ class QHAInputFileReader(BasicReader):
                 bands = [band['frequency'] for band in q['band']]
             except wrong:
                 return 'Missing weight or band frequencies ' + where
-            if not self._is_numeric(weight) or np.size(weight) != 1 \
+            if not self._is_numeric(weight) \
+                    or np.size(self._get_float(weight)) != 1 \
                     or self._get_float(weight) < 0.:
                 return 'Wrong weight ' + where
             if len(bands) != 3 * self.natoms:
-- 
2.43.0


From 2f0a5d6baf045c5ebc4320a388004647dc719bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 76/82] fix: report elastic inputs that start with an empty
 line

---
 quantas/soec/soec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6d22def..950c6f7 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -149,7 +149,10 @@ class SOECCalculator(BasicCalculator):
         
         self.echo('Reading input file: {0}'.format(filename))
         self.echo_debug('Instantiate file reader')
-        reader = SOECInputFileReader(filename)
+        try:
+            reader = SOECInputFileReader(filename)
+        except IndexError:
+            return 'The input file starts with an empty line'
         if not reader.completed:
             return reader.error
         else:
-- 
2.43.0


From 55fd154eb047a7ad6b478b8c9e67601b6da1ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 77/82] fix: report data of EoS files that are not finite
 numbers

---
 quantas/IO/eos_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 3e8e8be..cfcc95d 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -306,7 +306,10 @@ class EoSInputFileReader(BasicReader):
 
             try:
                 for quantity, n in self._format.items():
-                    data[quantity].append(float(values[n]))
+                    value = float(values[n])
+                    if not np.isfinite(value):
+                        raise ValueError('not a finite number')
+                    data[quantity].append(value)
             except (IndexError, ValueError):
                 self.error = "Wrong data in line {0} of the input file".format(
                     idx + 1)
-- 
2.43.0


From f911a688d00a5d5626405ec3fab70e6a81207ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 78/82] fix: refuse EoS data that are too few for a fit

---
 quantas/eosfit/eosfit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantas/eosfit/eosfit.py b/quantas/eosfit/eosfit.py
index 2297145..45f656f 100644
--- a/quantas/eosfit/eosfit.py
+++ b/quantas/eosfit/eosfit.py
@@ -85,6 +85,9 @@ class EoSFitCalculator(BasicCalculator):
             error = 'No structural data provided in input file'
             return error
 
+        if len(data.pressure) < 4:
+            return 'At least four data are required to fit an EoS'
+
         self.input = data
         return
 
-- 
2.43.0


From 9defdf69966f4197dc7081ce11dd74ba68527a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 79/82] fix: keep the whole curves inside compressibility and
 Poisson figures

---
 quantas/soec/utils/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/soec/utils/plotting.py b/quantas/soec/utils/plotting.py
index c10e6f9..0f8a151 100644
--- a/quantas/soec/utils/plotting.py
+++ b/quantas/soec/utils/plotting.py
@@ -135,17 +135,17 @@ def compressibility_polar_plot(xy, xz, yz):
     fig, ax1, ax2, ax3 = make_polar_figure()
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 1]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 1]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 1]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Positive", "Negative"), fontsize=12)
@@ -230,19 +230,19 @@ def poisson_polar_plot(xy, xz, yz):
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], "--", color='blue', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 3], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 3]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], "--", color='blue', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 3], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 3]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], "--", color='blue', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 3], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 3]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Negative", "Minimum", "Maximum"), fontsize=12)
-- 
2.43.0


From 672ea3830bd8f8553dbe48e4e5404e88aef3fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 80/82] fix: keep the fractional coordinates of atoms read from
 phonopy files

---
 quantas/interfaces/phonopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index e1ef1c4..49a799b 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -222,7 +222,7 @@ class PhonopyReader(BasicReader):
 
         natom = len(idata['supercell']['points'])
         numbers = np.zeros(natom, dtype=int)
-        positions = np.zeros((natom, 3), dtype=int)
+        positions = np.zeros((natom, 3), dtype=float)
         lattice = idata['supercell']['lattice']
 
         for i in range(natom):
@@ -237,7 +237,7 @@ class PhonopyReader(BasicReader):
         """
         natom = idata['natom']
         numbers = np.zeros(natom, dtype=int)
-        positions = np.zeros((natom, 3), dtype=int)
+        positions = np.zeros((natom, 3), dtype=float)
         lattice = idata['lattice']
 
         for i in range(natom):
-- 
2.43.0


From ae76c3f73de29cd5d3f77bd30db585fef70c7924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:15 +0000
Subject: [PATCH 81/82] fix: keep the digits of the EoS parameters in the qha
 report

---
 quantas/qha/qha.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 424427d..20d0912 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -414,13 +414,10 @@ class QHACalculator(BasicCalculator):
                     else:
                         magnitude = int(magnitude)
                     red_err = err*np.power(10., magnitude)
-                    if np.log10(int(np.round(red_err,0))) >= 1.:
+                    if magnitude > 0 and int(np.round(red_err,0)) >= 10:
                         magnitude -= 1
                         red_err = err*np.power(10., magnitude)
-                    if magnitude > 0:
-                        red_val = np.round(val, magnitude)
-                    else:
-                        red_val = int(np.round(val, magnitude))
+                    red_val = '{:.{}f}'.format(val, magnitude)
                     red_err = int(np.round(red_err,0))
                     self.echo('{} = {}({})'.format(label, red_val, red_err))
                 except (OverflowError, ValueError):
-- 
2.43.0


From 6423121e98fba889cf1aa1ae51e808308d553787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:15 +0000
Subject: [PATCH 82/82] fix: count the k-points of left-handed supercells

---
 quantas/IO/qha_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 42abc04..7e20de8 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -215,7 +215,8 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['supercell']),0))
+        return int(np.around(np.abs(
+            np.linalg.det(self._data['supercell'])), 0))
 
     @property
     def qpoints(self):
-- 
2.43.0

