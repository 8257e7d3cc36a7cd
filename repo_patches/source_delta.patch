From 44ff0f641bea069a8d75cc6ccc0ac5c5ca2d8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 01/79] fix: sum the E1 series to convergence for negative
 arguments

---
 src/fisx_math.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 7d3724a..f4002c8 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -52,15 +52,18 @@ double Math::E1(const double & x)
         //
         //
         // Euler's gamma = 0.577215664901532860;
-        // I decide to evaluate just 10 terms of the series
-        //
-        // TODO: Unroll the loop with n * factorial(n) already computed.
-        double result;
-        double factorial[11] = {1.0, 1.0, 2.0, 6.0, 24., 120.0, 720., 5040., 40320., 362880., 3628800.};
+        // All the terms of the sum are negative: sum until they do not count
+        double result, term;
         result = -0.577215664901532860;
-        for(int n = 10; n > 0; --n)
+        term = 1.0;
+        for(int n = 1; n < 2000; ++n)
         {
-            result -= pow(-x, n) /(n * factorial[n]);
+            term *= -x / n;
+            result -= term / n;
+            if ((n > -x) && ((term / n) < (1.0e-17 * std::fabs(result))))
+            {
+                break;
+            }
         }
         return result - std::log(-x);
     }
-- 
2.43.0


From 04e6719a35a8e5d17320ea831fb76d85f80d84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 02/79] fix: evaluate exp(x)*E1(x) for large negative x without
 overflow

---
 src/fisx_math.cpp | 26 ++++++++++++++++++++++++--
 src/fisx_math.h   |  5 +++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index f4002c8..9250b38 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -171,7 +171,7 @@ double Math::deBoerD(const double & x)
     double limit0, limit1;
     if (x < 0)
     {
-        return std::exp(x) * E1(x);
+        return Math::_negativeDeBoerD(x);
     }
     if (x > 1)
     {
@@ -195,7 +195,7 @@ double Math::deBoerD(const double & x)
 #else
     if (x < 0)
     {
-        return std::exp(x) * E1(x);
+        return Math::_negativeDeBoerD(x);
     }
     if (x > 1)
     {
@@ -207,6 +207,28 @@ double Math::deBoerD(const double & x)
 }
 
 
+double Math::_negativeDeBoerD(const double & x)
+{
+    // Evaluate exp(x) * E1(x) for x < 0
+    if (x > -50)
+    {
+        return std::exp(x) * Math::E1(x);
+    }
+    // AS 5.1.51 (the product exp(x) * E1(x) would involve under and overflows)
+    //
+    // exp(x) * E1(x) = (1 - 1!/x + 2!/x**2 - 3!/x**3 + ...) / x
+    //
+    double result, term;
+    result = 1.0;
+    term = 1.0;
+    for (int n = 1; n < 50; ++n)
+    {
+        term *= -n / x;
+        result += term;
+    }
+    return result / x;
+}
+
 double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj, \
                                const double & density, const double & thickness)
 {
diff --git a/src/fisx_math.h b/src/fisx_math.h
index ba07d89..5d9ebee 100644
--- a/src/fisx_math.h
+++ b/src/fisx_math.h
@@ -176,6 +176,11 @@ class Math
         static double _deBoerD(const double &x, \
                         const double & epsilon = 1.0e-7, \
                         const int & maxIter = 100);
+
+        /*!
+        Evaluate exp(x) * E1(x) for x < 0
+        */
+        static double _negativeDeBoerD(const double & x);
 };
 
 } // namespace fisx
-- 
2.43.0


From d980c70b97167802ab97a6fa3c5d25cb152d4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 03/79] fix: E1(1) is defined

---
 src/fisx_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 9250b38..bd66d79 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -67,7 +67,7 @@ double Math::E1(const double & x)
         }
         return result - std::log(-x);
     }
-    if(x < 1)
+    if(x <= 1)
     {
         return Math::AS_5_1_53(x) - std::log(x);
     }
-- 
2.43.0


From ded5aa05fc027bed26200abb7852f0bf3e6821a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 04/79] fix: reject beam descriptions with less values than
 energies

---
 src/fisx_beam.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fisx_beam.cpp b/src/fisx_beam.cpp
index cc5095a..39dc5cf 100644
--- a/src/fisx_beam.cpp
+++ b/src/fisx_beam.cpp
@@ -26,6 +26,7 @@
 #
 #############################################################################*/
 #include "fisx_beam.h"
+#include <stdexcept>
 #include <algorithm>
 
 namespace fisx
@@ -47,6 +48,14 @@ void Beam::setBeam(const std::vector<double> & energy, \
     int defaultCharacteristic;
     double defaultDivergency;
 
+    // a list with more than one item has to provide one item per energy
+    if (((weight.size() > 1) && (weight.size() < energy.size())) ||
+        ((characteristic.size() > 1) && (characteristic.size() < energy.size())) ||
+        ((divergency.size() > 1) && (divergency.size() < energy.size())))
+    {
+        throw std::invalid_argument("Beam::setBeam. Less values than energies supplied");
+    }
+
     this->normalized = false;
 
     if(energy.size() > 0)
-- 
2.43.0


From 2a64bd03ba52aee53b4c6b93109e75f386cd42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 05/79] fix: accept beams given as arrays without
 characteristic flags

---
 src/fisx_beam.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fisx_beam.cpp b/src/fisx_beam.cpp
index 39dc5cf..de4aa00 100644
--- a/src/fisx_beam.cpp
+++ b/src/fisx_beam.cpp
@@ -186,6 +186,12 @@ void Beam::setBeam(const int & nValues, const double *energy, const double *weig
     int i;
     std::vector<int> flags;
 
+    if ((characteristic == NULL) || (nValues < 1))
+    {
+        this->setBeam(nValues, energy, weight, (const int *) NULL, divergency);
+        return;
+    }
+
     flags.resize(nValues);
     for (i = 0; i < nValues; i++)
     {
-- 
2.43.0


From 647de2d9de68e806e741c9df061cb2f31153e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 06/79] fix: reject shell transitions with different number of
 labels and values

---
 src/fisx_shell.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 3790d33..e231eae 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -145,6 +145,10 @@ void Shell::setNonradiativeTransitions(std::vector<std::string> labels, std::vec
 {
     std::vector<int>::size_type i;
 
+    if (labels.size() != values.size())
+    {
+        throw std::invalid_argument("Number of labels does not match number of values");
+    }
     if (this->nonradiativeTransitions.size() > 0)
     {
         // empty current list
@@ -194,6 +198,10 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
 {
     std::string tmpString;
     std::vector<int>::size_type i;
+    if (labels.size() != values.size())
+    {
+        throw std::invalid_argument("Number of labels does not match number of values");
+    }
     if (this->radiativeTransitions.size() > 0)
     {
         // empty current list
-- 
2.43.0


From c3eec49f66b88f3a68571dfbd3f032993f27ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 07/79] fix: do not read before the start of short transition
 labels

---
 src/fisx_shell.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index e231eae..186ff23 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -570,7 +570,8 @@ std::map<std::string, double> Shell::getDirectVacancyTransferRatios(const std::s
     // Auger pattern Origin-AnyDestination
     for (it = this->augerRatios.begin(); it != this->augerRatios.end(); ++it)
     {
-        if (std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
+        if ((it->first.size() >= destination.size()) &&
+            std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
         {
             output["auger"] += it->second;
         }
@@ -597,7 +598,8 @@ std::map<std::string, double> Shell::getDirectVacancyTransferRatios(const std::s
         // Coster-Kronig pattern Origin-AnyDestination
         for (it = ck_it->second.begin(); it != ck_it->second.end(); ++it)
         {
-            if (std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
+            if ((it->first.size() >= destination.size()) &&
+                std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
             {
                 output[ck_it->first] += it->second;
             }
-- 
2.43.0


From e330b8a3fc7d386aee844e03793e5abc4ace1790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 08/79] fix: nonradiative transitions given as arrays replace
 the previous ones

---
 src/fisx_shell.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 186ff23..24511e2 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -186,12 +186,17 @@ void Shell::setNonradiativeTransitions(std::map<std::string, double> inputMap)
 
 void Shell::setNonradiativeTransitions(const char *c_strings[], const double *values, int nValues)
 {
+    std::vector<std::string> labels;
+    std::vector<double> vValues;
     int i;
+
     for(i=0; i < nValues; i++)
     {
-        this->nonradiativeTransitions[this->toUpperCaseString(std::string(c_strings[i]))] = values[i];
+        labels.push_back(std::string(c_strings[i]));
+        vValues.push_back(values[i]);
     }
-    this->_updateNonradiativeRatios();
+    // replace the current list, as the other ways to supply the transitions do
+    this->setNonradiativeTransitions(labels, vValues);
 }
 
 void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector<double> values)
-- 
2.43.0


From 827daa43377df09ef5ec1aea5c955755881fdf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 09/79] fix: a rejected set of shell transitions or constants
 leaves the shell as it was

---
 src/fisx_shell.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 24511e2..9aa3666 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -202,16 +202,12 @@ void Shell::setNonradiativeTransitions(const char *c_strings[], const double *va
 void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector<double> values)
 {
     std::string tmpString;
+    std::map<std::string, double> transitions;
     std::vector<int>::size_type i;
     if (labels.size() != values.size())
     {
         throw std::invalid_argument("Number of labels does not match number of values");
     }
-    if (this->radiativeTransitions.size() > 0)
-    {
-        // empty current list
-        this->radiativeTransitions.clear();
-    }
     for (i = 0; i != labels.size(); i++)
     {
         tmpString = this->toUpperCaseString(labels[i]);
@@ -235,7 +231,7 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
                 // energy will not be derived from the binding energies
                 // PyMca was deriving the energy skipping the last digit.
                 // std::cout << "setting key" << tmpString.substr(0, 4) << std::endl;
-                this->radiativeTransitions[tmpString.substr(0, 4)] = values[i];
+                transitions[tmpString.substr(0, 4)] = values[i];
                 // other alternative would be to generate two keys with half
                 // the rate as being closer to the real stuff. Nevertheless,
                 // both transitions would most likely be mixed due to the
@@ -252,13 +248,13 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
         {
             if (tmpString.substr(0, this->name.size()) == this->name)
             {
-                this->radiativeTransitions[tmpString] = values[i];
+                transitions[tmpString] = values[i];
             }
             else
             {
                 if(tmpString == "TOTAL")
                 {
-                    this->radiativeTransitions[tmpString] = values[i];
+                    transitions[tmpString] = values[i];
                 }
                 else
                 {
@@ -268,6 +264,8 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
             }
         }
     }
+    // everything was accepted, replace the current list
+    this->radiativeTransitions = transitions;
     this->_updateFluorescenceRatios();
 }
 
@@ -659,16 +657,16 @@ void Shell::setShellConstants(std::map<std::string, double> shellConstants)
 
     for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
     {
-        if(this->shellConstants.find(c_it->first) != this->shellConstants.end())
-        {
-            this->shellConstants[c_it->first] = c_it->second;
-        }
-        else
+        if(this->shellConstants.find(c_it->first) == this->shellConstants.end())
         {
             msg = "Invalid constant " + c_it->first + " for " + this->name +" shell";
             throw std::invalid_argument(msg);
         }
     }
+    for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
+    {
+        this->shellConstants[c_it->first] = c_it->second;
+    }
 }
 
 const std::map<std::string, double> & Shell::getShellConstants() const
-- 
2.43.0


From 1377a7339f369a213e32cfbc62ec1d62fcf0169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 10/79] fix: do not return references to the contents of a
 temporary shell

---
 src/fisx_element.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index b3292ba..a5f6ae5 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1087,15 +1087,13 @@ const std::map<std::string, double> & Element::getFluorescenceRatios(const std::
 
 const std::map<std::string, double> & Element::getAugerRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getAugerRatios();
 }
 
 const std::map<std::string, std::map<std::string, double> > & Element::getCosterKronigRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getCosterKronigRatios();
 }
 
-- 
2.43.0


From 29f1623fb483d079761a4752758311fe480f2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 11/79] fix: a rejected set of binding energies leaves the
 element as it was

---
 src/fisx_element.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index a5f6ae5..f4548ba 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -147,13 +147,10 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
     std::map<std::string, double>::iterator it;
     std::string tmpString;
 
-    // get rid of any shell definition
-    this->shellInstance.clear();
-    this->bindingEnergy.clear();
+    std::map<std::string, Shell> shells;
 
     for (it = bindingEnergies.begin(); it != bindingEnergies.end(); ++it)
     {
-        this->bindingEnergy[it->first] = it->second;
         tmpString = "";
         if (it->first.size())
         {
@@ -162,18 +159,22 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
         //std::cout << this->name << " " << it->first << " " << it->second << "tmp = " << tmpString << std::endl;
         if ((tmpString == "K") || (tmpString == "L") || (tmpString == "M"))
         {
-            if (this->shellInstance.find(it->first) == this->shellInstance.end())
+            if (shells.find(it->first) == shells.end())
             {
                 // instantiate the appropriate shell
                 // Shell constructor will take care of valid shells
                 // This uses default constructor ...
-                this->shellInstance[it->first] = Shell(it->first);
+                shells[it->first] = Shell(it->first);
                 /* This does not require default constructor, but MSVC still requires it
                  this->shellInstance.insert\
                     (std::map<std::string, Shell>::value_type(it->first, Shell::Shell(it->first))); */
             }
         }
     }
+
+    // everything was accepted, get rid of any previous shell definition
+    this->shellInstance = shells;
+    this->bindingEnergy = bindingEnergies;
 }
 
 void Element::setBindingEnergies(std::vector<std::string> labels, std::vector<double> bindingEnergies)
-- 
2.43.0


From 2f240862daa0b5cfc3799d675c798bcddf02620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 12/79] fix: empty the element caches when the data they derive
 from change

---
 src/fisx_element.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index f4548ba..00bd45a 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -175,6 +175,8 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
     // everything was accepted, get rid of any previous shell definition
     this->shellInstance = shells;
     this->bindingEnergy = bindingEnergies;
+    this->emptyCascadeCache();
+    this->clearCache();
 }
 
 void Element::setBindingEnergies(std::vector<std::string> labels, std::vector<double> bindingEnergies)
@@ -984,6 +986,8 @@ void Element::setRadiativeTransitions(std::string subshell, \
         throw std::invalid_argument(msg);
     }
     this->shellInstance[subshell].setRadiativeTransitions(labels, values);
+    this->emptyCascadeCache();
+    this->clearCache();
 }
 
 void Element::setRadiativeTransitions(std::string subshell, std::map<std::string, double> values)
@@ -1001,6 +1005,7 @@ void Element::setRadiativeTransitions(std::string subshell, std::map<std::string
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setRadiativeTransitions(values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
@@ -1030,6 +1035,7 @@ void Element::setNonradiativeTransitions(std::string subshell, std::vector<std::
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setNonradiativeTransitions(labels, values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
@@ -1048,6 +1054,7 @@ void Element::setNonradiativeTransitions(std::string subshell, std::map<std::str
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setNonradiativeTransitions(values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
-- 
2.43.0


From a26f8395efb84488e5b350d4ad99da78c7d5aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 13/79] fix: initialize the atomic mass of an element

---
 src/fisx_element.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 00bd45a..63e6a4e 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -46,6 +46,9 @@ Element::Element()
     // Undefined atomic number
     this->atomicNumber = 0;
 
+    // Unset atomic mass
+    this->atomicMass = 0.0;
+
     // Unset density
     this->density = 1.0;
 
@@ -70,6 +73,9 @@ Element::Element(std::string name, int z = 0)
     this->name = name;
     this->setAtomicNumber(z);
 
+    // Unset atomic mass
+    this->atomicMass = 0.0;
+
     // Give as long name the name as default
     this->longName = name;
 
-- 
2.43.0


From 7b5070ee0e120c727c39b459afa2f2eb34b8aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 14/79] fix: reject excitation factors requests with less
 weights than energies

---
 src/fisx_element.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 63e6a4e..de522d7 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1520,6 +1520,10 @@ std::vector<std::map<std::string, std::map<std::string, double> > >Element::getP
         result.clear();
         return result;
     }
+    if ((weights.size() > 1) && (weights.size() < energy.size()))
+    {
+        throw std::invalid_argument("Less weights than energies supplied");
+    }
     if (weights.size() == 1)
         weight = weights[0];
     else
-- 
2.43.0


From f7a4a4a7b7c286df5311190f79befd5ced5e0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 15/79] fix: do not read outside tables with a single energy

---
 src/fisx_element.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index de522d7..187df4e 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1584,6 +1584,18 @@ std::pair<long, long> Element::getInterpolationIndices(const std::vector<double>
     std::pair<long, long> result;
     std::vector<double>::const_iterator c_it;
 
+    if (vec.size() < 2)
+    {
+        if (vec.size() < 1)
+        {
+            throw std::runtime_error("Cannot interpolate in an empty table");
+        }
+        // a single point, nothing to interpolate
+        result.first = 0;
+        result.second = 0;
+        return result;
+    }
+
     c_it = std::lower_bound(vec.begin(), vec.end(), x);
 
     if (c_it == vec.end())
-- 
2.43.0


From 864e99e1ab8c2a5f3b14cb0d49ee663c7f2ed963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 16/79] fix: allow elements with undefined shells or partial
 photoelectric data

---
 src/fisx_element.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 187df4e..5ea33ab 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -718,6 +718,11 @@ std::map<std::string, double> \
         if (shell != "all other")
         {
             c_itSingle = this->bindingEnergy.find(shell);
+            if (c_itSingle == this->bindingEnergy.end())
+            {
+                // not defined shell
+                continue;
+            }
             if ((c_itSingle->second == 0.0) || (energy < c_itSingle->second))
             {
                 continue;
@@ -725,6 +730,11 @@ std::map<std::string, double> \
         }
         c_it = this->muPartialPhotoelectricEnergy.find(shell);
         y_it = this->muPartialPhotoelectricValue.find(shell);
+        if (c_it->second.size() < 1)
+        {
+            // no data supplied for this shell
+            continue;
+        }
         indices = this->getInterpolationIndices(c_it->second, energy);
         i1 = indices.first;
         i2 = indices.second;
-- 
2.43.0


From b350496bc9114597acedd872877312f789dcb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 17/79] fix: do not read after the end of the partial
 photoelectric data when extrapolating

---
 src/fisx_element.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 5ea33ab..5f338a4 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -794,11 +794,16 @@ std::map<std::string, double> \
                         // according to the binding energies, the shell is excited, but the
                         // respective mass attenuation is zero. We have to extrapolate
                         i1w = i1;
-                        while(y_it->second[i1w] <= 0.0)
+                        while((i1w < ((long) y_it->second.size())) && (y_it->second[i1w] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= ((long) y_it->second.size()))
+                        {
+                            // not enough positive values to extrapolate
+                            throw std::runtime_error("Cannot extrapolate partial photoelectric coefficient");
+                        }
                         y0 = y_it->second[i1w];
                         y1 = y_it->second[i2w];
                         x0w = c_it->second[i1w];
@@ -854,20 +859,22 @@ std::map<std::string, double> \
                     // respective mass attenuation is zero. We have to extrapolate
                     // std::cout << "case b2" << std::endl;
                     i1w = i1;
-                    while(y_it->second[i1w] <= 0.0)
+                    while((i1w < ((long) y_it->second.size())) && (y_it->second[i1w] <= 0.0))
                     {
                         i1w += 1;
                     }
                     i2w = i1w + 1;
-                    x0w = c_it->second[i1w];
-                    x1w = c_it->second[i2w];
                     // check for duplicates
-                    if ((x1w - x0w) < 1.0E-10)
+                    if ((i2w < ((long) y_it->second.size())) &&
+                        ((c_it->second[i2w] - c_it->second[i1w]) < 1.0E-10))
                     {
                         i1w += 1;
                         i2w += 1;
-                        x0w = c_it->second[i1w];
-                        x1w = c_it->second[i2w];
+                    }
+                    if (i2w >= ((long) y_it->second.size()))
+                    {
+                        // not enough positive values to extrapolate
+                        throw std::runtime_error("Cannot extrapolate partial photoelectric coefficient");
                     }
                     y0 = y_it->second[i1w];
                     y1 = y_it->second[i2w];
-- 
2.43.0


From 9b7997048da9d2a031cfdb0e8cfd55461086d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 18/79] fix: handle elements defining only some of the K, L and
 M shells

---
 src/fisx_element.cpp | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 5f338a4..9e6666a 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1282,8 +1282,13 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     std::map<std::string, double>::const_iterator bind_it;
 
     // get a complete initial distribution of vacancies
-    for (i = 0; i < this->shellInstance.size(); i++)
+    for (i = 0; i < 9; i++)
     {
+        if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+        {
+            // not defined shell
+            continue;
+        }
         c_it = distribution.find(keys[i]);
         if (c_it != distribution.end())
         {
@@ -1297,15 +1302,23 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     }
 
     // update the distribution due to the cascade
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
+        if (finalDistribution.find(keys[i]) == finalDistribution.end())
+        {
+            continue;
+        }
         if(finalDistribution[keys[i]] > 0.0)
         {
             // we have initial vacancies in shell i
             // propagate to all the higher shells j
             shell_it = this->shellInstance.find(keys[i]);
-            for (j = i + 1; j < finalDistribution.size(); j++)
+            for (j = i + 1; j < 9; j++)
             {
+                if (finalDistribution.find(keys[j]) == finalDistribution.end())
+                {
+                    continue;
+                }
                 rate = 0.0;
                 transferRatios.clear();
                 transferRatios = shell_it->second.getDirectVacancyTransferRatios(keys[j]);
@@ -1386,8 +1399,13 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     else
     {
         // get a complete initial distribution of vacancies
-        for (i = 0; i < this->shellInstance.size(); i++)
+        for (i = 0; i < 9; i++)
         {
+            if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+            {
+                // not defined shell
+                continue;
+            }
             c_it = distribution.find(keys[i]);
             if (c_it != distribution.end())
             {
@@ -1404,10 +1422,15 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     // we have the final vacancy distribution accounting for cascade
     // we just have to generate the dictionary of rates and energies
     // for each transition
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
         // get all the fluorescence transitions to that shell
         shell_it = this->shellInstance.find(keys[i]);
+        if (shell_it == this->shellInstance.end())
+        {
+            // not defined shell
+            continue;
+        }
         fluorescenceRatios = shell_it->second.getFluorescenceRatios();
         for (c_it = fluorescenceRatios.begin(); c_it != fluorescenceRatios.end(); c_it++)
         {
-- 
2.43.0


From a3a4924296cc8f989a4d4c98851acec1d1ba07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 19/79] fix: the cascade cache gives the same answers as the
 calculation

---
 src/fisx_element.cpp | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 9e6666a..f3f6d87 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1371,10 +1371,8 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
                 cacheKey = cascadeCache.find(c_it->first);
                 if (cacheKey == cascadeCache.end())
                 {
-                    std::cout << this->name << " Error processing vacancy on shell " << c_it->first << std::endl;
-                    throw std::runtime_error("Vacancy in a shell not present in the cache!");
-                    // the above is not good, there can be no emission following a vacancy (rate too low)
-                    // it seems to be triggered by As L1 vacancies
+                    // there is no emission following a vacancy in a shell that is not defined
+                    continue;
                 }
                 for(std::map<std::string, std::map<std::string, double> >::const_iterator rayIt = \
                     cacheKey->second.begin(); rayIt != cacheKey->second.end(); ++rayIt)
@@ -1682,25 +1680,18 @@ void Element::setCascadeCacheEnabled(const int & flag)
 void Element::fillCascadeCache()
 {
     std::map<std::string, Shell>::const_iterator shellIterator;
-    bool oldFlag;
+    std::map<std::string, std::map<std::string, std::map<std::string, double> > > newCache;
+
+    // an empty cache is not used to calculate the values to be stored in it
     this->cascadeCache.clear();
-    // std::cout << "filling cache for element " << this->name << std::endl;
     for (shellIterator = shellInstance.begin(); shellIterator != shellInstance.end(); ++shellIterator)
     {
         std::string subshell = shellIterator->first;
         std::map<std::string, double> tmpDistribution;
-        tmpDistribution.clear();
         tmpDistribution[subshell] = 1.0;
-        oldFlag = this->cascadeCacheEnabledFlag;
-        if (oldFlag)
-        {
-            // this is needed because otherways it uses the cache when filling the cache :-)
-            this->cascadeCacheEnabledFlag = false;
-        }
-        this->cascadeCache[subshell] = this->getXRayLinesFromVacancyDistribution(tmpDistribution, 1, 1);
-        this->cascadeCacheEnabledFlag = oldFlag;
+        newCache[subshell] = this->getXRayLinesFromVacancyDistribution(tmpDistribution, 1, 1);
     }
-    //std::cout << "cache filled for element " << this->name << std::endl;
+    this->cascadeCache = newCache;
 }
 
 void Element::emptyCascadeCache()
-- 
2.43.0


From 55e12247b9ec0ef82b25d4bbc4b13a0c0a0bfaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 20/79] fix: looking for absorption edges does not define
 binding energies

---
 src/fisx_element.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index f3f6d87..f2b4e27 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -502,7 +502,7 @@ std::map<std::string, std::vector<double> > Element::getMassAttenuationCoefficie
 
 std::map<std::string, std::pair<double, int> > Element::extractEdgeEnergiesFromMassAttenuationCoefficients()
 {
-    if(this->mu["photoelectric"].size() < 1)
+    if(this->mu.find("photoelectric") == this->mu.end())
     {
         throw std::runtime_error("Photoelectric mass attenuation coefficients not initialized");
     }
@@ -551,6 +551,7 @@ std::map<std::string, std::pair<double, int> > \
     {
         throw std::runtime_error("Binding energies not initialized");
     }
+    std::map<std::string, double>::const_iterator bind_it;
 
     for(i = 0; i < (muPhotoelectric.size() - 1); i++)
     {
@@ -574,10 +575,11 @@ std::map<std::string, std::pair<double, int> > \
             --c_it;
             energy = c_it->first;
             key = shellList[shellIndex];
-            if (this->bindingEnergy[key] > 0.0)
+            bind_it = this->bindingEnergy.find(key);
+            if ((bind_it != this->bindingEnergy.end()) && (bind_it->second > 0.0))
                 {
                 // check the energy is correct within 100 eV
-                if(fabs(energy - this->bindingEnergy[key]) < 0.100)
+                if(fabs(energy - bind_it->second) < 0.100)
                 {
                     result[key].first = energy;
                     result[key].second = (int) c_it->second;
@@ -667,9 +669,14 @@ void Element::setPartialPhotoelectricMassAttenuationCoefficients(const std::stri
     this->muPartialPhotoelectricValue[shell] = std::vector<double>(partialPhotoelectric);
     if (shell != "all other")
     {
+        double shellEnergy = 0.0;
+        if (this->bindingEnergy.find(shell) != this->bindingEnergy.end())
+        {
+            shellEnergy = this->bindingEnergy[shell];
+        }
         for (i = 1; i < length; i++)
         {
-            if (this->muPartialPhotoelectricEnergy[shell][i] < this->bindingEnergy[shell])
+            if (this->muPartialPhotoelectricEnergy[shell][i] < shellEnergy)
             {
                 this->muPartialPhotoelectricValue[shell][i] = 0.0;
             }
-- 
2.43.0


From 7a2466704b5a5fd6c7c9c463213a81442e5baa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 21/79] fix: EPDL97 interpolation does not depend on previous
 calls

---
 src/fisx_epdl97.cpp | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index b19f6d9..4f26f65 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -777,36 +777,19 @@ std::string EPDL97::toUpperCaseString(const std::string & str) const
 
 std::pair<long, long> EPDL97::getInterpolationIndices(const std::vector<double> & vec, const double & x) const
 {
-    static long lastI0 = 0L;
+    long lastI0;
     std::vector<double>::size_type length, iMin, iMax, distance;
     int counter;
     std::pair<long, long> result;
 
-    // try if last point is of any use
+    // the answer must not depend on previous calls
     length = vec.size();
-    if (lastI0 >= (int) length)
+    if (length < 1)
     {
-        lastI0 = (long) (length - 1);
-    }
-    if (x < vec[lastI0])
-    {
-        iMax = lastI0;
-        iMin = 0;
-    }
-    else
-    {
-        iMin = lastI0;
-        iMax = length - 1;
-        // try a point that is close?
-        if ((length - iMin) > 21)
-        {
-            lastI0 = (long) (iMin + 20);
-            if (x < vec[lastI0])
-            {
-                iMax = lastI0;
-            }
-        }
+        throw std::runtime_error("EPDL97 Cannot interpolate in an empty table");
     }
+    iMin = 0;
+    iMax = length - 1;
 
     counter = 0;
     distance = iMax - iMin;
-- 
2.43.0


From 4f05f6e40fe1557968fa89cca9512ad97e2893a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 22/79] fix: report missing EPDL97 data instead of reading
 outside the tables

---
 src/fisx_epdl97.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 4f26f65..a53f55d 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -134,6 +134,10 @@ void EPDL97::loadBindingEnergies(std::string fileName)
     tmpLabels = sf.getScanLabels(0);
     tmpValues = sf.getScanData(0);
     nLabels = tmpLabels.size();
+    if (tmpValues.size() < 1)
+    {
+        throw std::ios_base::failure("EPDL97: No binding energies in file " + fileName);
+    }
     if (tmpValues[0].size() != nLabels)
     {
         std::cout << fileName;
@@ -339,6 +343,10 @@ void EPDL97::setBindingEnergies(const int & z, const std::map<std::string, doubl
     {
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
+    if(z > (int) this->bindingEnergy.size())
+    {
+        throw std::runtime_error("EPDL97 No binding energies available for that atomic number");
+    }
 
     this->bindingEnergy[z - 1].clear();
     this->bindingEnergy[z - 1] = bindingEnergies;
@@ -350,6 +358,10 @@ const std::map<std::string, double> & EPDL97::getBindingEnergies(const int & z)
     {
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
+    if (this->bindingEnergy.size() < 1)
+    {
+        throw std::runtime_error("EPDL97 Binding energies not initialized");
+    }
     if (z >= (int) this->bindingEnergy.size())
     {
         // Repeat for the elements beyond the last one
@@ -374,7 +386,7 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
     std::map<std::string, double>::const_iterator cStrDoubleIt;
     const std::vector<std::vector<double> > *pVector;
 
-    if(!this->initialized)
+    if((!this->initialized) || (this->muEnergy.size() < 1) || (this->bindingEnergy.size() < 1))
     {
         throw std::runtime_error("EPDL97 Mass attenuation coefficients not initialized");
     }
@@ -623,7 +635,7 @@ std::map< std::string, std::vector<double> > EPDL97::getMassAttenuationCoefficie
     std::vector<double>  tmpPhotoelectricVector;
     std::vector<double>  nonPhotoelectricVector;
 
-    if(!this->initialized)
+    if((!this->initialized) || (this->muEnergy.size() < 1) || (this->bindingEnergy.size() < 1))
     {
         throw std::runtime_error("EPDL97 Mass attenuation coefficients not initialized");
     }
-- 
2.43.0


From a4f144098ea7e2a3526711a63d10e5816c74a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 23/79] fix: reject cross section tables with less values than
 labels

---
 src/fisx_epdl97.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index a53f55d..6fd3caf 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -200,6 +200,10 @@ void EPDL97::loadCrossSections(std::string fileName)
                                     "K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"};
     std::vector<double>    *pVec;
 
+    // forget any previous cross section
+    this->muInputValues.clear();
+    this->muEnergy.clear();
+
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (nScans < 99)
@@ -265,8 +269,10 @@ void EPDL97::loadCrossSections(std::string fileName)
     }
 
     // we have got all the mapping, now read the needed data
-    this->muInputValues.resize(nScans);
-    this->muEnergy.resize(nScans);
+    std::vector<std::vector<std::vector<double> > > inputValues;
+    std::vector<std::vector<double> > inputEnergy;
+    inputValues.resize(nScans);
+    inputEnergy.resize(nScans);
 
     for (i = 0; i < nScans; i++)
     {
@@ -286,12 +292,16 @@ void EPDL97::loadCrossSections(std::string fileName)
             }
         }
         // read the data
-        this->muInputValues[i] = sf.getScanData(i);
-        this->muEnergy[i].resize(this->muInputValues[i].size());
-        for (j = 0; j < this->muInputValues[i].size(); j++)
+        inputValues[i] = sf.getScanData(i);
+        if ((inputValues[i].size() > 0) && (inputValues[i][0].size() < nLabels))
+        {
+            throw std::ios_base::failure("EPDL97: Number of values does not match number of labels");
+        }
+        inputEnergy[i].resize(inputValues[i].size());
+        for (j = 0; j < inputValues[i].size(); j++)
         {
-            pVec = &(this->muInputValues[i][j]);
-            this->muEnergy[i][j] = (*pVec)[this->muLabelToIndex["energy"]];
+            pVec = &(inputValues[i][j]);
+            inputEnergy[i][j] = (*pVec)[this->muLabelToIndex["energy"]];
             // recalculate the photoelectric effect of the non considered shells
             (*pVec)[this->muLabelToIndex["photoelectric"]] = (*pVec)[this->muLabelToIndex["total"]]-\
                                          (*pVec)[this->muLabelToIndex["compton"]]-\
@@ -331,6 +341,9 @@ void EPDL97::loadCrossSections(std::string fileName)
             }
         }
     }
+    // everything was accepted
+    this->muInputValues = inputValues;
+    this->muEnergy = inputEnergy;
     this->crossSectionsFile = fileName;
 }
 
-- 
2.43.0


From a09c81f2b77d5ed46caf9b3c0da1c445dba98f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 24/79] fix: do not read outside the EPDL97 tables when
 extrapolating

---
 src/fisx_epdl97.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 6fd3caf..61fe84e 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -418,6 +418,10 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
     }
 
 
+    // Repeat the binding energies for the elements beyond the last one
+    const std::map<std::string, double> & binding = \
+        (zHelp < (int) this->bindingEnergy.size()) ? this->bindingEnergy[zHelp] : this->bindingEnergy.back();
+
     indices = this->getInterpolationIndices(this->muEnergy[zHelp], energy);
 
     i1 = indices.first;
@@ -468,8 +472,8 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                 {
                     // we are dealing with a shell
                     result[key] = 0.0;
-                    cStrDoubleIt = this->bindingEnergy[zHelp].find(key);
-                    if (cStrDoubleIt == this->bindingEnergy[zHelp].end())
+                    cStrDoubleIt = binding.find(key);
+                    if (cStrDoubleIt == binding.end())
                     {
                         std::cout << "Key not found " << key << std::endl;
                         throw std::runtime_error("Key not found");
@@ -493,11 +497,16 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                                 // according to the binding energies, the shell is excited, but the
                                 // respective mass attenuation is zero. We have to extrapolate
                                 i1w = i1;
-                                while((*pVector)[i1w][idx] <= 0.0)
+                                while((i1w < ((long) pVector->size())) && ((*pVector)[i1w][idx] <= 0.0))
                                 {
                                     i1w += 1;
                                 }
                                 i2w = i1w + 1;
+                                if (i2w >= ((long) pVector->size()))
+                                {
+                                    // not enough positive values to extrapolate
+                                    throw std::runtime_error("EPDL97 Cannot extrapolate shell coefficient");
+                                }
                                 y0 = (*pVector)[i1w][idx];
                                 y1 = (*pVector)[i2w][idx];
                                 x0w = this->muEnergy[zHelp][i1w];
@@ -556,8 +565,8 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
             {
                 // we are dealing with a shell
                 result[key] = 0.0;
-                cStrDoubleIt = this->bindingEnergy[zHelp].find(key);
-                if (cStrDoubleIt == this->bindingEnergy[zHelp].end())
+                cStrDoubleIt = binding.find(key);
+                if (cStrDoubleIt == binding.end())
                 {
                     std::cout << "Key not found " << key << std::endl;
                     throw std::runtime_error("Key not found");
@@ -581,11 +590,16 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                         // extrapolation case
                         // We are forcing EPDL97 to respect a given set of binding energies
                         i1w = i1;
-                        while((*pVector)[i1w][idx] <= 0.0)
+                        while((i1w < ((long) pVector->size())) && ((*pVector)[i1w][idx] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= ((long) pVector->size()))
+                        {
+                            // not enough positive values to extrapolate
+                            throw std::runtime_error("EPDL97 Cannot extrapolate shell coefficient");
+                        }
                         y0 = (*pVector)[i1w][idx];
                         y1 = (*pVector)[i2w][idx];
                         x0w = this->muEnergy[zHelp][i1w];
-- 
2.43.0


From 467167be130b7de3da0a585ef7124d7cf3e3a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 25/79] fix: do not lose the data of a scan directly followed
 by another one

---
 src/fisx_simplespecfile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index e54bd53..975616e 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -69,6 +69,11 @@ void SimpleSpecfile::setFileName(std::string fileName)
         {
             if (line.substr(0, 2) == "#S")
             {
+                if (startLine >= 0)
+                {
+                    // there was no empty line after the previous scan
+                    this->scanFilePositions.back().second = numberOfLines;
+                }
                 startLine = numberOfLines;
                 this->scanFilePositions.push_back(std::make_pair(startLine, startLine));
                 endLine = -1;
-- 
2.43.0


From 181d8578bfbbb5e444f99862d36f45ad9468b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 26/79] fix: do not append a null character in place of the
 comments of INI files

---
 src/fisx_simpleini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 9758f6d..8b396c3 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -156,7 +156,8 @@ void SimpleIni::readFileName(std::string fileName)
                 {
                     if ((trimmedLine[i] == '#') || (trimmedLine[i] == ';'))
                     {
-                        i = trimmedLine.size();
+                        // the rest of the line is a comment
+                        break;
                     }
                     if (equalPosition == 0)
                     {
-- 
2.43.0


From 222648bccdf709a20f5c5061a4fdc41f98f87fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 27/79] fix: case insensitive reading of INI sections returns
 the matching one

---
 src/fisx_simpleini.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 8b396c3..869e65f 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -319,7 +319,7 @@ const std::map<std::string, std::string > & SimpleIni::readSection(const std::st
                             break;
                         }
                     }
-                    if (j < inputKey.size())
+                    if (j == inputKey.size())
                     {
                         return this->sectionContents[tmpKey];
                     }
-- 
2.43.0


From bd4e6ee8158e5c2ba93c79fcf5c86e6b61924e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 28/79] fix: case sensitive search of INI subsections finds
 them

---
 src/fisx_simpleini.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 869e65f..c7208ef 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -260,7 +260,7 @@ void SimpleIni::getSubsections(const std::string & parent, \
         targetString = parent + ".";
         for (i = 0; i < this->sections.size(); i++)
         {
-            if (this->sections[i].size() == targetString.size())
+            if (this->sections[i].size() >= targetString.size())
             {
                 if (this->sections[i].substr(0, targetString.size()) == targetString)
                 {
-- 
2.43.0


From c4a9b64d939cfad759c94881911cbb30245d35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 29/79] fix: forget the contents of the previous INI file when
 reading a new one

---
 src/fisx_simpleini.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index c7208ef..c1c0a19 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -73,6 +73,7 @@ void SimpleIni::readFileName(std::string fileName)
     }
     this->sections.clear();
     this->sectionPositions.clear();
+    this->sectionContents.clear();
     p0 = 0;
     position = 0;
     numberOfLines = -1;
-- 
2.43.0


From 2eda46aebda71b1f2469297367998850e1ba8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 30/79] fix: the keys of an INI section do not continue in the
 next section

---
 src/fisx_simpleini.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index c1c0a19..831c664 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -133,6 +133,8 @@ void SimpleIni::readFileName(std::string fileName)
                 mainKey = trimmedLine.substr(p0 + 1, length);
                 this->sections.push_back(mainKey);
                 this->sectionPositions[mainKey] = numberOfLines;
+                // continuation lines do not cross sections
+                key = "";
                 continue;
             }
 
-- 
2.43.0


From 33847227ce242d94b205a11ffc83c47565287dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 31/79] fix: the reference layer is always one of the layers of
 the sample

---
 src/fisx_xrfconfig.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6689670..7551b9f 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -37,6 +37,7 @@ namespace fisx
 XRFConfig::XRFConfig()
 {
     this->setGeometry(45.0, 45.0, 90.);
+    this->referenceLayer = 0;
 }
 
 void XRFConfig::setGeometry(const double & alphaIn, const double & alphaOut, const double & scatteringAngle)
@@ -547,6 +548,10 @@ void XRFConfig::setUserBeamFilters(const std::vector<TransmissionTable> & transm
 
 void XRFConfig::setSample(const std::vector<Layer> & layers, const int & referenceLayer)
 {
+    if (referenceLayer < 0)
+    {
+        throw std::invalid_argument("Reference layer cannot be negative");
+    }
     if (referenceLayer >= (int) layers.size())
     {
         throw std::invalid_argument("Reference layer must be smaller than number of layers");
-- 
2.43.0


From ece4e6f8a3b3b01643c0a52f7c979706e03a5634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 32/79] fix: report incomplete configuration files instead of
 reading outside the supplied values

---
 src/fisx_xrfconfig.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 7551b9f..bdc87a3 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -144,6 +144,16 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         std::fill(flagVector.begin(), flagVector.end(), 1);
     }
 
+    if ((mapDoubles["weight"].size() < mapDoubles["energy"].size()) ||
+        (intVector.size() < mapDoubles["energy"].size()))
+    {
+        throw std::invalid_argument("Incomplete description of the excitation beam");
+    }
+    if (flagVector.size() > mapDoubles["energy"].size())
+    {
+        flagVector.resize(mapDoubles["energy"].size());
+    }
+
     counter = 0;
     iIntVector = flagVector.size();
     while(iIntVector > 0)
@@ -199,6 +209,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            if (splitString.size() < 2)
+            {
+                throw std::invalid_argument("Invalid section name <" + stringVector[iStringVector] + ">");
+            }
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -256,6 +270,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            if (splitString.size() < 2)
+            {
+                throw std::invalid_argument("Invalid section name <" + stringVector[iStringVector] + ">");
+            }
             useFlag = 0.0;
             comment = "";
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
@@ -312,6 +330,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            if (splitString.size() < 2)
+            {
+                throw std::invalid_argument("Invalid section name <" + stringVector[iStringVector] + ">");
+            }
             useFlag = 0.0;
             comment = "";
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
@@ -372,6 +394,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         }
         if (doubleVector[0] > 0.0)
         {
+            if (doubleVector.size() < 5)
+            {
+                throw std::invalid_argument("Incomplete line in attenuators section: " + c_it->first);
+            }
             if (c_it->first.substr(0, c_it->first.size() - 1) == "BeamFilter")
             {
                 // BeamFilter0 = 0, -, 0.0, 0.0, 1.0
@@ -478,6 +504,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             }
             if (doubleVector[0] > 0.0)
             {
+                    if (doubleVector.size() < 4)
+                    {
+                        throw std::invalid_argument("Incomplete line in multilayer section: " + c_it->first);
+                    }
                     //BeamFilter0 = 0, -, 0.0, 0.0, 1.0
                     layer = Layer(c_it->first, doubleVector[2], doubleVector[3]);
                     layer.setMaterial(stringVector[1]);
-- 
2.43.0


From 0782652d132b7e0c854ce61fe4333f871ff79e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 33/79] fix: materials and tables read from a configuration
 file are independent of each other

---
 src/fisx_xrfconfig.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index bdc87a3..9865e2a 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -213,6 +213,12 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             {
                 throw std::invalid_argument("Invalid section name <" + stringVector[iStringVector] + ">");
             }
+            // do not reuse the values of the previous material
+            density = 1.0;
+            thickness = 1.0;
+            comment = "";
+            compoundList.clear();
+            compoundFractions.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -276,6 +282,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             }
             useFlag = 0.0;
             comment = "";
+            energyList.clear();
+            transmissionList.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -336,6 +344,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             }
             useFlag = 0.0;
             comment = "";
+            energyList.clear();
+            transmissionList.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
-- 
2.43.0


From 833bf74a45d05b3107e4672da3533080f72570e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 34/79] fix: reject fluorescence requests with less families or
 layers than elements

---
 src/fisx_multilayer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 1db398e..5fbcc62 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -48,6 +48,14 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                const double & secondaryCalculationLimit, \
                                                const Beam & overwritingBeam) const
 {
+    if (familyList.size() < elementList.size())
+    {
+        throw std::invalid_argument("Less families than elements supplied");
+    }
+    if ((elementList.size() > 0) && (layerList.size() != 1) && (layerList.size() < elementList.size()))
+    {
+        throw std::invalid_argument("Less layers than elements supplied");
+    }
     // get all the needed configuration
     std::vector<std::vector<double> >actualRays = overwritingBeam.getBeamAsDoubleVectors();
     if (actualRays[0].size() < 1)
-- 
2.43.0


From fcdb748935e959e15f0e6da8ff4656af46d8a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 35/79] fix: reject sample layer indices beyond the last layer

---
 src/fisx_xrf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fisx_xrf.cpp b/src/fisx_xrf.cpp
index ca652ab..4750c79 100644
--- a/src/fisx_xrf.cpp
+++ b/src/fisx_xrf.cpp
@@ -167,6 +167,10 @@ double XRF::getGeometricEfficiency(const int & sampleLayerIndex) const
         std::cout << "Negative sample layer index in getGeometricEfficiency " << sampleLayerIndex << std::endl;
         throw std::invalid_argument("Negative sample layer index in getGeometricEfficiency");
     }
+    if (sampleLayerIndex >= (int) sample.size())
+    {
+        throw std::invalid_argument("Sample layer index out of range in getGeometricEfficiency");
+    }
     if (sampleLayerIndex != referenceLayerIndex)
     {
         if (sampleLayerIndex > referenceLayerIndex)
-- 
2.43.0


From b4fa08f823d403e6b77ffa8de1385cfd1f90b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 36/79] fix: a layer without density takes the default one of
 its material

---
 src/fisx_layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_layer.cpp b/src/fisx_layer.cpp
index 16b509f..d54a25f 100644
--- a/src/fisx_layer.cpp
+++ b/src/fisx_layer.cpp
@@ -71,7 +71,7 @@ void Layer::setMaterial(const std::string & materialName)
 void Layer::setMaterial(const Material & material)
 {
     this->material = material;
-    if (this->density < 0.0)
+    if (this->density <= 0.0)
     {
         this->density = this->material.getDefaultDensity();
     }
-- 
2.43.0


From 061202314b39d6cbac690885cf2a9fcf94394f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 37/79] fix: amounts of substances given more than once are
 added

---
 src/fisx_material.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_material.cpp b/src/fisx_material.cpp
index f531107..4f15a49 100644
--- a/src/fisx_material.cpp
+++ b/src/fisx_material.cpp
@@ -140,7 +140,8 @@ void Material::setComposition(const std::vector<std::string> & names, const std:
 
     for (i = 0; i < amounts.size(); ++i)
     {
-        this->composition[names[i]] = amounts[i] / total;
+        // the same substance can be given more than once
+        this->composition[names[i]] += amounts[i] / total;
     }
 
 }
-- 
2.43.0


From 625f844c7615356808fed8541a7f3ca45709df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 38/79] fix: shell data files with missing or too many rows or
 values are rejected

---
 src/fisx_elements.cpp | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 420d198..fef889e 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -382,11 +382,19 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if (tmpValues.size() > this->elementList.size())
         {
-            msg = "Number of values does not match number of labels in " + fileName;
+            msg = "More rows than defined elements in " + fileName;
             throw std::ios_base::failure(msg);
         }
+        for (n = 0; n < tmpValues.size(); n++)
+        {
+            if (tmpValues[n].size() != nLabels)
+            {
+                msg = "Number of values does not match number of labels in " + fileName;
+                throw std::ios_base::failure(msg);
+            }
+        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
@@ -490,11 +498,19 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if (tmpValues.size() > this->elementList.size())
         {
-            msg = "Number of values does not match number of labels in " + fileName;
+            msg = "More rows than defined elements in " + fileName;
             throw std::ios_base::failure(msg);
         }
+        for (n = 0; n < tmpValues.size(); n++)
+        {
+            if (tmpValues[n].size() != nLabels)
+            {
+                msg = "Number of values does not match number of labels in " + fileName;
+                throw std::ios_base::failure(msg);
+            }
+        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
@@ -586,11 +602,19 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if (tmpValues.size() > this->elementList.size())
         {
-            msg = "Number of values does not match number of labels in " + fileName;
+            msg = "More rows than defined elements in " + fileName;
             throw std::ios_base::failure(msg);
         }
+        for (n = 0; n < tmpValues.size(); n++)
+        {
+            if (tmpValues[n].size() != nLabels)
+            {
+                msg = "Number of values does not match number of labels in " + fileName;
+                throw std::ios_base::failure(msg);
+            }
+        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
-- 
2.43.0


From b7c53d9a41584ffb4187cc4df69bfcffd5ee2965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 39/79] fix: mass attenuation files with missing values or too
 many scans are rejected

---
 src/fisx_elements.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index fef889e..8a7d640 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -657,11 +657,22 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
     {
         throw std::ios_base::failure("No scans found in file!");
     }
+    if (nScans > (int) this->elementList.size())
+    {
+        throw std::ios_base::failure("More scans than defined elements in " + fileName);
+    }
 
     for (n = 0; n < nScans; n++)
     {
         labels = sf.getScanLabels(n);
         data = sf.getScanData(n);
+        for (j = 0; j < data.size(); j++)
+        {
+            if (data[j].size() < labels.size())
+            {
+                throw std::ios_base::failure("Number of values does not match number of labels in " + fileName);
+            }
+        }
         muEnergy.clear();
         muPhotoelectric.clear();
         muCoherent.clear();
-- 
2.43.0


From 5d81e5b868e05422dbf2a09b55fbdd491417dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 40/79] fix: inconsistent user supplied mass attenuation
 coefficients are rejected leaving the element unchanged

---
 src/fisx_elements.cpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 8a7d640..ea8c4b8 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -753,8 +753,9 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                                               const std::vector<double> & photoelectric,
                                               const std::vector<double> & coherent,
                                               const std::vector<double> & compton,
-                                              const std::vector<double> & pair)
+                                              const std::vector<double> & inputPair)
 {
+    std::vector<double> pair(inputPair);
     std::map<std::string, std::vector<double> > massAttenuationCoefficients;
     std::map<std::string, std::vector<double> >::iterator it;
     std::map<std::string, std::pair<double, int> > extractedEdgeEnergies;
@@ -776,6 +777,25 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
         throw std::invalid_argument(msg);
     }
 
+    if (pair.size() == 0)
+    {
+        // pair production is optional
+        pair.resize(energy.size(), 0.0);
+    }
+    if ((energy.size() < 1) || (photoelectric.size() != energy.size()) || \
+        (coherent.size() != energy.size()) || (compton.size() != energy.size()) || \
+        (pair.size() != energy.size()))
+    {
+        msg = "Empty or inconsistent mass attenuation coefficients of element " + name;
+        throw std::invalid_argument(msg);
+    }
+    for (i = 1; i < energy.size(); i++)
+    {
+        if (energy[i] < energy[i - 1])
+        {
+            throw std::invalid_argument("Energies have to be supplied in ascending order");
+        }
+    }
 
     // we have to make sure the partial mass attenuation photoelectric coefficients and the total
     // photoelectric mass attenuation coefficients are self-consistent
@@ -783,7 +803,9 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // is EPDL97
 
     // we reset the mass attenuation coefficients of the element to the EPDL97 values
-    element = &(this->elementList[this->elementDict[name]]);
+    // (working on a copy, the element must not change if the supplied values cannot be used)
+    Element newElement = this->elementList[this->elementDict[name]];
+    element = &newElement;
     atomicNumber = this->elementList[this->elementDict[name]].getAtomicNumber();
     massAttenuationCoefficients = epdl97.getMassAttenuationCoefficients(atomicNumber);
 
@@ -806,10 +828,16 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // first calculate the appropriate energy grid
 
     j = 0;
-    while(massAttenuationCoefficients["energy"][j] < energy[0])
+    while((j < massAttenuationCoefficients["energy"].size()) && \
+          (massAttenuationCoefficients["energy"][j] < energy[0]))
     {
         j++;
     }
+    if (j == massAttenuationCoefficients["energy"].size())
+    {
+        msg = "Supplied energies beyond the tabulated ones for element " + name;
+        throw std::invalid_argument(msg);
+    }
     if (j > 0)
     {
         j--;
@@ -1010,6 +1038,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                                             massAttenuationCoefficients["energy"], \
                                             massAttenuationCoefficients[shell]);
     }
+    this->elementList[this->elementDict[name]] = newElement;
 }
 
 
-- 
2.43.0


From 84550323c53364b206b904b37ad409bc21ae0b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 41/79] fix: mass attenuation of a composition containing an
 undefined element is rejected

---
 src/fisx_elements.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index ea8c4b8..de44677 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1215,6 +1215,11 @@ std::map<std::string, std::vector<double> > Elements::getMassAttenuationCoeffici
             massFraction = c_it->second / total;
             element = c_it->first;
             mapIterator = this->elementDict.find(element);
+            if (mapIterator == this->elementDict.end())
+            {
+                msg = "Name " + element + " not among defined elements";
+                throw std::invalid_argument(msg);
+            }
             tmpResult = this->elementList[mapIterator->second].getMassAttenuationCoefficients(energy[n]);
             result["coherent"][n] += tmpResult["coherent"] * massFraction;
             result["compton"][n] += tmpResult["compton"] * massFraction;
-- 
2.43.0


From 03610c03ea76e13e8681a09e253222094f6413d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 42/79] fix: a rejected replacement does not remove the already
 existing material

---
 src/fisx_elements.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index de44677..64c5a17 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1266,12 +1266,13 @@ void Elements::addMaterial(const std::string & name, const double & density, \
             msg = "Elements::createMaterial. Already existing material: " +  name;
             throw std::invalid_argument(msg);
         }
-        else
-        {
-            this->removeMaterial(name);
-        }
     }
+    // this can be rejected, it has to be done prior to removing anything
     material.initialize(name, density, thickness, comment);
+    if (this->getMaterialIndexFromName(name) < this->materialList.size())
+    {
+        this->removeMaterial(name);
+    }
     this->materialList.push_back(material);
 
     // Try to set the composition from the name
-- 
2.43.0


From 69f80bdb792501a0c064360377bdb32bf58fb959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 43/79] fix: materials defined in terms of themselves are
 rejected and unknown names give an empty composition

---
 src/fisx_elements.cpp | 32 ++++++++++++++++++++++++++++----
 src/fisx_elements.h   |  7 +++++++
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 64c5a17..ffec83f 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1396,6 +1396,12 @@ void Elements::removeMaterials()
 }
 
 std::map<std::string, double> Elements::getComposition(const std::string & name) const
+{
+    return this->getNestedComposition(name, 0);
+}
+
+std::map<std::string, double> Elements::getNestedComposition(const std::string & name, \
+                                                 const std::vector<Material>::size_type & depth) const
 {
     std::string msg;
     std::map<std::string, double> result;
@@ -1420,6 +1426,11 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
         // result at this point must be empty, we can send it back.
         return result;
     }
+    if (depth >= this->materialList.size())
+    {
+        msg = "Material " + name + " is defined in terms of itself";
+        throw std::invalid_argument(msg);
+    }
 
     // make sure we give back the elemental material composition
     tmpResult = this->materialList[i].getComposition();
@@ -1444,7 +1455,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
     // now, a material can be made of formulas, elements or other materials.
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first);
+        composition = this->getNestedComposition(c_it->first, depth + 1);
         if (composition.size() < 1)
         {
             return composition;
@@ -1501,6 +1512,13 @@ std::map<std::string, double> Elements::getComposition(const std::map<std::strin
 
 std::map<std::string, double> Elements::getComposition(const std::string & name, \
                                                  const std::vector<Material> & additionalMaterials) const
+{
+    return this->getNestedComposition(name, additionalMaterials, 0);
+}
+
+std::map<std::string, double> Elements::getNestedComposition(const std::string & name, \
+                                                 const std::vector<Material> & additionalMaterials, \
+                                                 const std::vector<Material>::size_type & depth) const
 {
     std::vector<Material>::size_type i;
     std::map<std::string, double> result;
@@ -1534,10 +1552,17 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     if (i == additionalMaterials.size())
     {
         // The additional materials not needed in this iteration
-        tmpResult =  this->getComposition(name);
+        // (the elemental composition, or an empty map if the name is not known)
+        return this->getComposition(name);
     }
     else
     {
+        if (depth >= additionalMaterials.size())
+        {
+            std::string msg;
+            msg = "Material " + name + " is defined in terms of itself";
+            throw std::invalid_argument(msg);
+        }
         tmpResult =  additionalMaterials[i].getComposition();
     }
     if (tmpResult.size() < 1)
@@ -1551,7 +1576,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     // supplied list and a material can be made of formulas, elements or other materials.
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first, additionalMaterials);
+        composition = this->getNestedComposition(c_it->first, additionalMaterials, depth + 1);
         if (composition.size() < 1)
         {
             return composition;
@@ -1571,7 +1596,6 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     {
         total += c_it->second;
     }
-    std::cout << "total = " << total << std::endl;
     for (c_it = result.begin(); c_it != result.end(); ++c_it)
     {
         result[c_it->first] /= total;
diff --git a/src/fisx_elements.h b/src/fisx_elements.h
index 73e590d..42d1daa 100644
--- a/src/fisx_elements.h
+++ b/src/fisx_elements.h
@@ -591,6 +591,13 @@ private:
     // Utility function
     const std::vector<Material>::size_type getMaterialIndexFromName(const std::string & name) const;
 
+    // Composition of a material, materials containing themselves are rejected when depth is too large
+    std::map<std::string, double> getNestedComposition(const std::string & name, \
+                                                 const std::vector<Material>::size_type & depth) const;
+    std::map<std::string, double> getNestedComposition(const std::string & name, \
+                                                 const std::vector<Material> & materials, \
+                                                 const std::vector<Material>::size_type & depth) const;
+
     // The files used for configuring the library
     std::map<std::string, std::string> shellConstantsFile;
     std::map<std::string, std::string> shellRadiativeTransitionsFile;
-- 
2.43.0


From 9f338ddad5417accb6b05f9750441444e23ea80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 44/79] fix: formulas with groups: keep what follows the group,
 accept groups without number, do not round the amounts

---
 src/fisx_elements.cpp | 45 ++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index ffec83f..7c34189 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1769,20 +1769,18 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
     nParenthesis = openParenthesis.size();
     if ( nParenthesis > 0)
     {
-        if (nParenthesis > 1)
+        p2 = closeParenthesis[0];
+        p1 = openParenthesis[0];
+        if (p1 > p2)
         {
-            p1 = 0;
-            for (i = 0; i < nParenthesis; ++i)
-            {
-                if (openParenthesis[i] < closeParenthesis[0])
-                    p1 = openParenthesis[i];
-            }
+            // closed prior to being opened
+            return composition;
         }
-        else
+        for (i = 0; i < nParenthesis; ++i)
         {
-            p1 = openParenthesis[0];
+            if (openParenthesis[i] < p2)
+                p1 = openParenthesis[i];
         }
-        p2 = closeParenthesis[0];
         length = p2 - p1 - 1;
         if(length < 1)
         {
@@ -1795,22 +1793,22 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             return tmpComposition;
         }
         // get the numbers assoiated to the parenthesis
-        if ((p2+1) == formula.size())
+        i = p2 + 1;
+        while( i < formula.size())
+        {
+            if (isupper(formula[i]) || islower(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
+            {
+                break;
+            }
+            i += 1;
+        }
+        if (i == (p2 + 1))
         {
             // the number associated  to that parenthesis is 1
             factor = 1.0;
         }
         else
         {
-            i = p2 + 1;
-            while( i < formula.size())
-            {
-                if (isupper(formula[i]) || islower(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
-                {
-                    break;
-                }
-                i += 1;
-            }
             if (!this->stringToDouble(formula.substr(p2+1, i - (p2+1)), factor))
             {
                 return composition;
@@ -1832,9 +1830,12 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         }
         for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
         {
-            newFormula += it->first + this->toString(it->second * factor);
+            std::ostringstream amount;
+            amount.precision(17);
+            amount << std::fixed << it->second * factor;
+            newFormula += it->first + amount.str();
         }
-        if (i < (formula.size()-1))
+        if (i < formula.size())
         {
             newFormula += formula.substr(i, formula.size() - i);
         }
-- 
2.43.0


From ae53219025b1fefd96e82e95570fc9047d35b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 45/79] fix: malformed amounts in formulas are not accepted

---
 src/fisx_elements.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 7c34189..aa5f560 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1634,6 +1634,11 @@ std::map<std::string, double> Elements::getCompositionFromFormula(const std::str
         parsedFormula[name] *= this->elementList[matIterator->second].getAtomicMass();
         total += parsedFormula[name];
     }
+    if (total <= 0.0)
+    {
+        // nothing of anything
+        parsedFormula.clear();
+    }
     for (it = parsedFormula.begin(); it != parsedFormula.end(); ++it)
     {
         parsedFormula[it->first] /= total;
@@ -1760,6 +1765,13 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         return composition;
     }
 
+    if (formula.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.()") != \
+        std::string::npos)
+    {
+        // neither a symbol, nor a number, nor a parenthesis
+        return composition;
+    }
+
     if (spacesPresent)
     {
         //std::cout << "RECEIVED Formula NOT passed spaces check" << std::endl;
@@ -1878,6 +1890,11 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             {
                 if (islower(formula[i]))
                 {
+                    if (lastNumber.size() > 0)
+                    {
+                        // a symbol does not continue after a number
+                        return composition;
+                    }
                     lastKey += formula.substr(i, 1);
                 }
                 else
@@ -2066,6 +2083,11 @@ bool Elements::stringToDouble(const std::string& str, double& number)
         // Number conversion failed
         return false;
     }
+    if (i.peek() != std::istringstream::traits_type::eof())
+    {
+        // something else follows the number
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From 6f99ddf040d1df5be738e55a452dbf2168e325b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 46/79] fix: initialize the state of the escape cache

---
 src/fisx_elements.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index aa5f560..d6eb18e 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -155,6 +155,13 @@ void Elements::initialize(std::string epdl97Directory, std::string bindingEnergi
     std::string joinSymbol;
     std::string filename;
 
+    this->escapeCacheEnabled = 0;
+    this->detectorEnergyThresholdUsedInCache = 0.0;
+    this->detectorIntensityThresholdUsedInCache = 0.0;
+    this->detectorNThresholdUsedInCache = 0;
+    this->detectorAlphaInUsedInCache = 0.0;
+    this->detectorThicknessUsedInCache = 0.0;
+
     // Indicate we are going to configure everything
     this->shellConstantsFile["K"] = "";
     this->shellConstantsFile["L"] = "";
-- 
2.43.0


From 840cba8c8036c86fe9a0e51e0d0efa5ce5f45d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 47/79] fix: clear the escape cache when the data it was
 calculated with change

---
 src/fisx_elements.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index d6eb18e..6674414 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -309,6 +309,7 @@ void Elements::addElement(const Element & element)
 {
     std::string name;
     name = element.getName();
+    this->clearEscapeCache();
 
     if (this->elementDict.find(name) != this->elementDict.end())
     {
@@ -433,6 +434,7 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         }
     }
     this->shellConstantsFile[mainShellName] = fileName;
+    this->clearEscapeCache();
 }
 
 void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShellName, \
@@ -537,6 +539,7 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         }
     }
     this->shellNonradiativeTransitionsFile[mainShellName] = fileName;
+    this->clearEscapeCache();
 }
 
 void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellName, \
@@ -641,6 +644,7 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         }
     }
     this->shellRadiativeTransitionsFile[mainShellName] = fileName;
+    this->clearEscapeCache();
 }
 
 // Mass attenuation handling
@@ -1046,6 +1050,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                                             massAttenuationCoefficients[shell]);
     }
     this->elementList[this->elementDict[name]] = newElement;
+    this->clearEscapeCache();
 }
 
 
-- 
2.43.0


From 99ae649b9429275ea115b9ec9bf7bd4785ae6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 48/79] fix: emitted lines do not depend on all the inner
 shells being defined

---
 src/fisx_element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index f2b4e27..7c35b39 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1169,8 +1169,8 @@ std::map<std::string, double> Element::getEmittedXRayLines(const double & energy
         shell_it = this->shellInstance.find(keys[i]);
         if(shell_it == this->shellInstance.end())
         {
-            // shell is not defined, we are done
-            return result;
+            // shell is not defined
+            continue;
         }
 
         c_it = this->bindingEnergy.find(keys[i]);
-- 
2.43.0


From 19da42647d54181296a4d128f429a992d5828ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 49/79] fix: a rejected shell or mass attenuation file leaves
 the elements as they were

---
 src/fisx_elements.cpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 6674414..78c6659 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -38,6 +38,35 @@
 namespace fisx
 {
 
+namespace
+{
+
+// Gives a set of elements its previous state back unless told to keep the changes.
+class RestoreElements
+{
+public:
+    explicit RestoreElements(std::vector<Element> & elements) : target(elements), previous(elements), restore(true) {};
+    ~RestoreElements()
+    {
+        if (this->restore)
+        {
+            for (std::vector<Element>::size_type i = 0; i < this->previous.size(); i++)
+            {
+                this->target[i] = this->previous[i];
+            }
+        }
+    };
+    void keep() { this->restore = false; };
+private:
+    std::vector<Element> & target;
+    std::vector<Element> previous;
+    bool restore;
+    RestoreElements(const RestoreElements &);
+    RestoreElements & operator=(const RestoreElements &);
+};
+
+} // anonymous namespace
+
 
 const std::string Elements::defaultDataDir()
 {
@@ -385,6 +414,7 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         subShells.push_back("M5");
     }
 
+    RestoreElements guard(this->elementList);
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
@@ -433,6 +463,7 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
             this->elementList[n].setShellConstants(subShells[i], tmpDict);
         }
     }
+    guard.keep();
     this->shellConstantsFile[mainShellName] = fileName;
     this->clearEscapeCache();
 }
@@ -502,6 +533,7 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         subShells.push_back("M5");
     }
 
+    RestoreElements guard(this->elementList);
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
@@ -538,6 +570,7 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
             }
         }
     }
+    guard.keep();
     this->shellNonradiativeTransitionsFile[mainShellName] = fileName;
     this->clearEscapeCache();
 }
@@ -607,6 +640,7 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         subShells.push_back("M5");
     }
 
+    RestoreElements guard(this->elementList);
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
@@ -643,6 +677,7 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
             }
         }
     }
+    guard.keep();
     this->shellRadiativeTransitionsFile[mainShellName] = fileName;
     this->clearEscapeCache();
 }
@@ -673,6 +708,7 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
         throw std::ios_base::failure("More scans than defined elements in " + fileName);
     }
 
+    RestoreElements guard(this->elementList);
     for (n = 0; n < nScans; n++)
     {
         labels = sf.getScanLabels(n);
@@ -757,6 +793,7 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
                                              muCompton, \
                                              muPair);
     }
+    guard.keep();
 }
 
 void Elements::setMassAttenuationCoefficients(const std::string & name,
-- 
2.43.0


From 95acd7fff8157e74e1badc519865e8805a61a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 50/79] fix: a layer without mass thickness is refused at
 grazing angle too

---
 src/fisx_layer.cpp | 4 ++--
 src/fisx_xrf.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_layer.cpp b/src/fisx_layer.cpp
index d54a25f..10f09dc 100644
--- a/src/fisx_layer.cpp
+++ b/src/fisx_layer.cpp
@@ -143,7 +143,7 @@ double Layer::getTransmission(const double & energy, const Elements & elements,
         }
         tmpDouble = (this->density * this->thickness) / tmpDouble;
     }
-    if(tmpDouble <= 0.0)
+    if(!(tmpDouble > 0.0))
     {
         std::string msg;
         msg = "Layer " + this->name + " thickness is " + elements.toString(tmpDouble) + " g/cm2";
@@ -174,7 +174,7 @@ std::vector<double> Layer::getTransmission(const std::vector<double> & energy, c
         tmpDouble = this->density * this->thickness / tmpDouble;
     }
 
-    if(tmpDouble <= 0.0)
+    if(!(tmpDouble > 0.0))
     {
         std::string msg;
         msg = "Layer " + this->name + " thickness is " + elements.toString(tmpDouble) + " g/cm2";
diff --git a/src/fisx_xrf.cpp b/src/fisx_xrf.cpp
index 4750c79..4d09a9f 100644
--- a/src/fisx_xrf.cpp
+++ b/src/fisx_xrf.cpp
@@ -351,7 +351,7 @@ std::vector<double> XRF::getLayerTransmission(const Layer & layer,
         tmpDouble = layer.getDensity() * layer.getThickness() / tmpDouble;
     }
 
-    if(tmpDouble <= 0.0)
+    if(!(tmpDouble > 0.0))
     {
         std::string msg;
         msg = "Layer " + layer.getName() + " thickness is " + elements.toString(tmpDouble) + " g/cm2";
-- 
2.43.0


From 1ecebad51348e06f3eb7ba2ac6c213e57e4817b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 51/79] fix: secondary excitation by a layer opaque to the beam

The emission of such a layer towards the ones below it overflowed the
exponentials and made the whole calculation fail with error5.
---
 src/fisx_multilayer.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 5fbcc62..c806c6b 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -905,7 +905,6 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                             {
                                 // interlayer case b)
                                 double layerFactor;
-                                layerFactor = std::exp(-mu_2_lambda * density_2 * thickness_2/sinAlphaIn);
                                 /*
                                 This test has been removed in favour of the one dealing with the relative
                                 weights of each layer. Indeed, the relative amount of secondary excitation
@@ -982,7 +981,16 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
                                         mu_2_j = sampleLayerMuTotal[jLayer][iLambda];
                                         bLayer = jLayer + 1;
-                                        mu_b_j_d_t = 0.0;
+                                        double massThickness_2;
+                                        massThickness_2 = density_2 * thickness_2;
+                                        tmpDouble = mu_2_lambda/sinAlphaIn - mu_2_j;
+                                        if ((tmpDouble * massThickness_2) > 500.0)
+                                        {
+                                            // only the uppermost part of such a layer matters,
+                                            // the rest of it just attenuates
+                                            massThickness_2 = 500.0 / tmpDouble;
+                                        }
+                                        mu_b_j_d_t = mu_2_j * (density_2 * thickness_2 - massThickness_2);
                                         while (bLayer < iLayer)
                                         {
                                             if (cacheIndex >= 0)
@@ -1003,12 +1011,13 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
                                             bLayer++;
                                         }
+                                        layerFactor = std::exp(-mu_2_lambda * massThickness_2/sinAlphaIn);
                                         tmpDouble = layerFactor * sampleLayerRates[jLayer][iLambda];
                                         if ((mu_2_lambda/sinAlphaIn) == mu_2_j)
                                             tmpDouble *= Math::deBoerX(-mu_2_lambda/(0.99999*sinAlphaIn), \
                                                                   -mu_1_i/sinAlphaOut, \
                                                                   density_1 * thickness_1, \
-                                                                  density_2 * thickness_2, \
+                                                                  massThickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
                                                                   mu_b_j_d_t);
@@ -1016,7 +1025,7 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                             tmpDouble *= Math::deBoerX(-mu_2_lambda/sinAlphaIn, \
                                                                   -mu_1_i/sinAlphaOut, \
                                                                   density_1 * thickness_1, \
-                                                                  density_2 * thickness_2, \
+                                                                  massThickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
                                                                   mu_b_j_d_t);
-- 
2.43.0


From 372bac3e3e72a36950d6dddb5f5c30fdd113ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 52/79] fix: a specfile line of a single character does not end
 the scan

---
 src/fisx_simplespecfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index 975616e..86b9788 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -65,7 +65,7 @@ void SimpleSpecfile::setFileName(std::string fileName)
     {
         //std::cout << line << std::endl;
         ++numberOfLines;
-        if(line.size() > 1)
+        if((line.size() > 1) || ((line.size() == 1) && !isspace((unsigned char) line[0])))
         {
             if (line.substr(0, 2) == "#S")
             {
-- 
2.43.0


From 56073c54b66cb7c0a4fb8bee44249a742eb5c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 53/79] fix: specfile labels do not start with spaces

---
 src/fisx_simplespecfile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index 86b9788..8920c37 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -182,6 +182,10 @@ std::vector<std::string> SimpleSpecfile::getScanLabels(int scanIndex)
 
     // trim leading and trailing spaces
     iStart = line.find_first_of(" ") + 1;
+    while ((iStart > 0) && (iStart < line.size()) && (line[iStart] == ' '))
+    {
+        iStart++;
+    }
     iEnd = line.find_last_not_of(" ");
     line = line.substr(iStart, 1 + iEnd - iStart);
 
-- 
2.43.0


From ab5d38dbb9f89f6c8b2b29f933eb98a7c75a376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:52 +0000
Subject: [PATCH 54/79] fix: strings with spaces in INI lists are not cut

---
 src/fisx_simpleini.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fisx_simpleini.h b/src/fisx_simpleini.h
index f8ad2d3..9c50984 100644
--- a/src/fisx_simpleini.h
+++ b/src/fisx_simpleini.h
@@ -134,6 +134,18 @@ public:
         return true;
     };
 
+    // strings can contain spaces, only the surrounding ones are not part of them
+    static bool stringConverter(const std::string& str, std::string & result)
+    {
+        std::string::size_type first = str.find_first_not_of(" \t\r\n");
+        if (first == str.npos)
+        {
+            return false;
+        }
+        result = str.substr(first, 1 + str.find_last_not_of(" \t\r\n") - first);
+        return true;
+    };
+
     /*!
     Utility function (from Kleist in stackoverflow) to check if a string starts with testString
     */
-- 
2.43.0


From dad0d1027e4479cfe9020bddb7f73bb7a6f5d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 55/79] fix: a rejected configuration file leaves the setup as
 it was, an accepted one replaces all of it

---
 src/fisx_xrf.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fisx_xrf.cpp b/src/fisx_xrf.cpp
index 4d09a9f..42a8998 100644
--- a/src/fisx_xrf.cpp
+++ b/src/fisx_xrf.cpp
@@ -54,8 +54,11 @@ XRF::XRF(const std::string & fileName)
 
 void XRF::readConfigurationFromFile(const std::string & fileName)
 {
+    // nothing of the previous configuration is kept and a rejected file leaves it as it was
+    XRFConfig newConfiguration;
+    newConfiguration.readConfigurationFromFile(fileName);
+    this->configuration = newConfiguration;
     this->recentBeam = true;
-    this->configuration.readConfigurationFromFile(fileName);
 }
 
 void XRF::setGeometry(const double & alphaIn, const double & alphaOut, const double & scatteringAngle)
-- 
2.43.0


From 9a93934c576bad645278adce2d101a9791a97c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 56/79] fix: a rejected filling of the coefficients cache
 leaves it as it was

---
 src/fisx_element.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 7c35b39..00d258e 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1741,8 +1741,8 @@ void Element::fillCache(const std::vector<double> & energy)
 {
     std::vector<double>::size_type i, maxSize;
     int status;
-
-    this->clearCache();
+    std::map<double, std::map<std::string, double> > newMuCache;
+    std::map<double, std::map<std::string, std::map<std::string, double> > > newExcitationFactorsCache;
 
     if (energy.size() < this->cacheMaximumSize)
     {
@@ -1760,10 +1760,13 @@ void Element::fillCache(const std::vector<double> & energy)
         this->setCacheEnabled(0);
         for (i = 0; i < maxSize; i++)
         {
-            this->muCache[energy[i]] = this->getMassAttenuationCoefficients(energy[i]);
-            this->excitationFactorsCache[energy[i]] = this->getPhotoelectricExcitationFactors(energy[i], 1.0);
+            newMuCache[energy[i]] = this->getMassAttenuationCoefficients(energy[i]);
+            newExcitationFactorsCache[energy[i]] = this->getPhotoelectricExcitationFactors(energy[i], 1.0);
         }
         this->setCacheEnabled(status);
+        // nothing changes if any of the energies is rejected
+        this->muCache.swap(newMuCache);
+        this->excitationFactorsCache.swap(newExcitationFactorsCache);
     }
     catch(...)
     {
@@ -1776,6 +1779,8 @@ void Element::updateCache(const std::vector< double> & energy)
 {
     std::vector<double>::size_type i, eSize;
     int status;
+    std::map<double, std::map<std::string, double> > newMuCache;
+    std::map<double, std::map<std::string, std::map<std::string, double> > > newExcitationFactorsCache;
 
     // This is necessary because clang pushes return value optimization to the limit
     // and creates the key into muCache prior to call getMassAttenuationCoefficients
@@ -1786,19 +1791,22 @@ void Element::updateCache(const std::vector< double> & energy)
     {
         for (i = 0; i < eSize; i++)
         {
-            if (this->muCache.size() < this->cacheMaximumSize)
+            if ((this->muCache.size() + newMuCache.size()) < this->cacheMaximumSize)
             {
                 if (this->muCache.find(energy[i]) == this->muCache.end())
                 {
-                    this->muCache[energy[i]] = this->getMassAttenuationCoefficients(energy[i]);
+                    newMuCache[energy[i]] = this->getMassAttenuationCoefficients(energy[i]);
                 }
                 if (this->excitationFactorsCache.find(energy[i]) == this->excitationFactorsCache.end())
                 {
-                    this->excitationFactorsCache[energy[i]] = this->getPhotoelectricExcitationFactors(energy[i], 1.0);
+                    newExcitationFactorsCache[energy[i]] = this->getPhotoelectricExcitationFactors(energy[i], 1.0);
                 }
             }
         }
         this->setCacheEnabled(status);
+        // nothing changes if any of the energies is rejected
+        this->muCache.insert(newMuCache.begin(), newMuCache.end());
+        this->excitationFactorsCache.insert(newExcitationFactorsCache.begin(), newExcitationFactorsCache.end());
     }
     catch(...)
     {
-- 
2.43.0


From 399048999d84b69ac93ed4ca92f8183a825fee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 57/79] fix: Math::En does not exhaust the stack for large
 orders

---
 src/fisx_math.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index bd66d79..e96a429 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -87,6 +87,10 @@ double Math::E1(const double & x)
 
 double Math::En(const int & n, const double & x)
 {
+    double result;
+    double expMinusX;
+    int i;
+
     if (n < 1)
     {
         throw std::runtime_error("Math::En(n, x). n Must be greater or equal to 1");
@@ -109,7 +113,13 @@ double Math::En(const int & n, const double & x)
             // E(n+1, z) = ---- ( exp (-z) - z * E(n, z))
             //              n
             //
-            return (std::exp(-x) - x * Math::En(n - 1, x)) / (n - 1);
+            result = Math::E1(x);
+            expMinusX = std::exp(-x);
+            for (i = 1; i < n; i++)
+            {
+                result = (expMinusX - x * result) / i;
+            }
+            return result;
         }
     }
 }
-- 
2.43.0


From 8b789104eb1c27d89fe53a0d83285071a81ea291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:48 +0000
Subject: [PATCH 58/79] fix: Element can be given back its own mass attenuation
 coefficients

---
 src/fisx_element.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 00d258e..84a8a35 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -230,7 +230,7 @@ void Element::setMassAttenuationCoefficients(const std::vector<double> & energie
     std::string msg;
     std::vector<double>::const_iterator c_it;
     std::vector<double>::size_type length, i, pairLength;
-    std::map<std::string, std::vector<double> >::iterator mu_it;
+    std::map<std::string, std::vector<double> > previousMu;
 
     // energies are expected in keV and ordered
     length = energies.size();
@@ -278,14 +278,8 @@ void Element::setMassAttenuationCoefficients(const std::vector<double> & energie
     }
     this->clearCache();
 
-    if (this->mu.size() > 0)
-    {
-        for (mu_it = this->mu.begin(); mu_it != this->mu.end(); ++mu_it)
-        {
-            this->mu[mu_it->first].clear();
-        }
-        this->mu.clear();
-    }
+    // the supplied values can belong to the previous table
+    this->mu.swap(previousMu);
 
     this->mu["coherent"] = std::vector<double> (coherent);
     this->mu["compton"] = std::vector<double> (compton);
-- 
2.43.0


From 1bae93977c93baf739d442fb54490148d4825ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 59/79] fix: EPDL97 does not overflow on the most negative
 atomic number

---
 src/fisx_epdl97.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 61fe84e..fd31d8f 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -667,13 +667,13 @@ std::map< std::string, std::vector<double> > EPDL97::getMassAttenuationCoefficie
         throw std::runtime_error("EPDL97 Mass attenuation coefficients not initialized");
     }
 
-    idx = z - 1;
-
-    if(idx < 0)
+    if(z < 1)
     {
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
 
+    idx = z - 1;
+
     if(idx >= (int) this->muEnergy.size())
     {
         // return the information of last available element
-- 
2.43.0


From cec1345d58658690368e9523e9bcb7cf3a4f3b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 60/79] fix: EPDL97 can be given back its own binding energies

---
 src/fisx_epdl97.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index fd31d8f..a477952 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -361,7 +361,6 @@ void EPDL97::setBindingEnergies(const int & z, const std::map<std::string, doubl
         throw std::runtime_error("EPDL97 No binding energies available for that atomic number");
     }
 
-    this->bindingEnergy[z - 1].clear();
     this->bindingEnergy[z - 1] = bindingEnergies;
 }
 
-- 
2.43.0


From cd1420e5a5953bd6520517603000f5509900dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:18 +0000
Subject: [PATCH 61/79] fix: setGeometry accepts the current angles in a
 different order

---
 src/fisx_xrfconfig.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 9865e2a..6365806 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -42,9 +42,13 @@ XRFConfig::XRFConfig()
 
 void XRFConfig::setGeometry(const double & alphaIn, const double & alphaOut, const double & scatteringAngle)
 {
+    // the arguments can be the current angles in a different order
+    const double newAlphaOut = alphaOut;
+    const double newScatteringAngle = scatteringAngle;
+
     this->alphaIn = alphaIn;
-    this->alphaOut = alphaOut;
-    this->scatteringAngle = scatteringAngle;
+    this->alphaOut = newAlphaOut;
+    this->scatteringAngle = newScatteringAngle;
 }
 
 void XRFConfig::readConfigurationFromFile(const std::string & fileName)
-- 
2.43.0


From 4e6522f207589e0b3887bb0bf5c1a9b11cca08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 62/79] fix: errors raised by layers and tables reach Python as
 exceptions

---
 python/cython/EPDL97.pxd            | 2 +-
 python/cython/Layer.pxd             | 8 ++++----
 python/cython/TransmissionTable.pxd | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/cython/EPDL97.pxd b/python/cython/EPDL97.pxd
index ac0f035..dfe933a 100644
--- a/python/cython/EPDL97.pxd
+++ b/python/cython/EPDL97.pxd
@@ -38,7 +38,7 @@ cdef extern from "fisx_epdl97.h" namespace "fisx":
         EPDL97(std_string) except +
         void setDataDirectory(std_string) except +        
         void setBindingEnergies(int, std_map[std_string, double])  except +
-        std_map[std_string, double] & getBindingEnergies(int)
+        std_map[std_string, double] & getBindingEnergies(int) except +
                                                 
         std_map[std_string, std_vector[double]] getMassAttenuationCoefficients(int) except +
         std_map[std_string, double] getMassAttenuationCoefficients(int, double) except +
diff --git a/python/cython/Layer.pxd b/python/cython/Layer.pxd
index f40c34c..2a4cc94 100644
--- a/python/cython/Layer.pxd
+++ b/python/cython/Layer.pxd
@@ -39,12 +39,12 @@ from Material cimport *
 
 cdef extern from "fisx_layer.h" namespace "fisx":
     cdef cppclass Layer:
-        Layer(std_string, double, double, double)
+        Layer(std_string, double, double, double) except +
 
-        std_map[std_string, double] getComposition(Elements)
+        std_map[std_string, double] getComposition(Elements) except +
 
-        std_vector[double] getTransmission(std_vector[double], Elements, double)
+        std_vector[double] getTransmission(std_vector[double], Elements, double) except +
 
-        void setMaterial(Material)
+        void setMaterial(Material) except +
 
         std_vector[std_pair[std_string, double]] getPeakFamilies(double, Elements) except +
diff --git a/python/cython/TransmissionTable.pxd b/python/cython/TransmissionTable.pxd
index f18cc09..547c674 100644
--- a/python/cython/TransmissionTable.pxd
+++ b/python/cython/TransmissionTable.pxd
@@ -40,8 +40,8 @@ cdef extern from "fisx_transmissiontable.h" namespace "fisx":
         std_string getName()
         void setComment(std_string)
         void setName(std_string)
-        std_vector[double] getTransmission(std_vector[double])
-        double getTransmission(double)
+        std_vector[double] getTransmission(std_vector[double]) except +
+        double getTransmission(double) except +
         std_map[double, double] getTransmissionTable()
         void setTransmissionTable(std_map[double, double],
                                   std_string,
-- 
2.43.0


From 5ffa475c238993480f735d9038131d5a307f70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 63/79] fix: the Python methods that only took bytes accept
 text

---
 python/cython/PyEPDL97.pyx   |  4 ++--
 python/cython/PyElement.pyx  | 20 ++++++++++----------
 python/cython/PyElements.pyx |  8 ++++----
 python/cython/PyXRF.pyx      |  6 +++---
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/python/cython/PyEPDL97.pyx b/python/cython/PyEPDL97.pyx
index 3ef487b..2a2a5d0 100644
--- a/python/cython/PyEPDL97.pyx
+++ b/python/cython/PyEPDL97.pyx
@@ -50,8 +50,8 @@ cdef class PyEPDL97:
     def setDataDirectory(self, name):
         self.thisptr.setDataDirectory(toBytes(name))
 
-    def setBindingEnergies(self, int z, std_map[std_string, double] energies):
-        self.thisptr.setBindingEnergies(z, energies)
+    def setBindingEnergies(self, int z, energies):
+        self.thisptr.setBindingEnergies(z, toBytesKeys(energies))
 
     def getBindingEnergies(self, int z):
         return toStringKeys(self.thisptr.getBindingEnergies(z))
diff --git a/python/cython/PyElement.pyx b/python/cython/PyElement.pyx
index 5328eb9..4865c63 100644
--- a/python/cython/PyElement.pyx
+++ b/python/cython/PyElement.pyx
@@ -51,8 +51,8 @@ cdef class PyElement:
     def getAtomicNumber(self):
         return self.thisptr.getAtomicNumber()
 
-    def setBindingEnergies(self, std_map[std_string, double] energies):
-        self.thisptr.setBindingEnergies(energies)
+    def setBindingEnergies(self, energies):
+        self.thisptr.setBindingEnergies(toBytesKeys(energies))
 
     def getBindingEnergies(self):
         return self.thisptr.getBindingEnergies()
@@ -87,24 +87,24 @@ cdef class PyElement:
         return self.thisptr.getMassAttenuationCoefficients(energy)
                                        
     def setRadiativeTransitions(self, shell,
-                                std_vector[std_string] labels,
+                                labels,
                                 std_vector[double] values):
-        self.thisptr.setRadiativeTransitions(toBytes(shell), labels, values)
+        self.thisptr.setRadiativeTransitions(toBytes(shell), [toBytes(x) for x in labels], values)
 
     def getRadiativeTransitions(self, shell):
         return self.thisptr.getRadiativeTransitions(toBytes(shell))
 
     def setNonradiativeTransitions(self, shell,
-                                   std_vector[std_string] labels,
+                                   labels,
                                    std_vector[double] values):
-        self.thisptr.setNonradiativeTransitions(toBytes(shell), labels, values)
+        self.thisptr.setNonradiativeTransitions(toBytes(shell), [toBytes(x) for x in labels], values)
 
     def getNonradiativeTransitions(self, shell):
         return self.thisptr.getNonradiativeTransitions(toBytes(shell))
 
     def setShellConstants(self, shell,
-                          std_map[std_string, double] valuesDict):
-        self.thisptr.setShellConstants(toBytes(shell), valuesDict)
+                          valuesDict):
+        self.thisptr.setShellConstants(toBytes(shell), toBytesKeys(valuesDict))
 
     def getShellConstants(self, shell):
         return self.thisptr.getShellConstants(toBytes(shell))
@@ -113,7 +113,7 @@ cdef class PyElement:
     #    return self.thisptr.getXRayLines(shell)
                           
     def getXRayLinesFromVacancyDistribution(self,
-                            std_map[std_string, double] vacancyDict):
+                            vacancyDict):
         return self.thisptr.getXRayLinesFromVacancyDistribution(\
-                                vacancyDict)
+                                toBytesKeys(vacancyDict))
 
diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 548974e..fc243d6 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -141,7 +141,7 @@ cdef class PyElements:
     def getColumn(self, element):
         return self.thisptr.getColumn(toBytes(element))
 
-    def getRow(self, std_string element):
+    def getRow(self, element):
         return self.thisptr.getRow(toBytes(element))
 
     def getMaterialNames(self):
@@ -191,13 +191,13 @@ cdef class PyElements:
             return toString(self.thisptr.getShellNonradiativeTransitionsFile(toBytes(mainShellName)))
 
     def setMassAttenuationCoefficients(self,
-                                       std_string element,
+                                       element,
                                        std_vector[double] energies,
                                        std_vector[double] photo,
                                        std_vector[double] coherent,
                                        std_vector[double] compton,
                                        std_vector[double] pair):
-        self.thisptr.setMassAttenuationCoefficients(element,
+        self.thisptr.setMassAttenuationCoefficients(toBytes(element),
                                                     energies,
                                                     photo,
                                                     coherent,
@@ -250,7 +250,7 @@ cdef class PyElements:
         calculated values via log-log interpolation in the internal table.
         """
         if hasattr(name, "keys"):
-            return self._getMaterialMassAttenuationCoefficients(toBytes(name), energy)
+            return self._getMaterialMassAttenuationCoefficients(toBytesKeys(name), energy)
         elif energy is None:
             return self._getElementDefaultMassAttenuationCoefficients(toBytes(name))
         elif hasattr(energy, "__len__"):
diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index ba9c190..046c68c 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -42,9 +42,9 @@ from Beam cimport *
 cdef class PyXRF:
     cdef XRF *thisptr
 
-    def __cinit__(self, std_string configurationFile=""):
+    def __cinit__(self, configurationFile=""):
         if len(configurationFile):
-            self.thisptr = new XRF(configurationFile)
+            self.thisptr = new XRF(toBytes(configurationFile))
         else:
             self.thisptr = new XRF()
 
@@ -129,7 +129,7 @@ cdef class PyXRF:
                 comment = item.getComment()
                 table = item.getTransmissionTable()
                 t = TransmissionTable()
-                t.setTransmissionTable(table, name, comment)
+                t.setTransmissionTable(table, toBytes(name), toBytes(comment))
                 container.push_back(t)
         else:
             for item in pyTransmissionTableList:
-- 
2.43.0


From 2ffcc526913f5238e35eaee23726742f9cf5fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 64/79] fix: the Python methods that returned bytes return text

---
 python/cython/PyElement.pyx   | 18 +++++++++---------
 python/cython/PyElements.pyx  |  2 +-
 python/cython/PyShell.pyx     | 14 +++++++-------
 python/cython/PySimpleIni.pyx |  5 +++--
 4 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/python/cython/PyElement.pyx b/python/cython/PyElement.pyx
index 4865c63..8ff29d2 100644
--- a/python/cython/PyElement.pyx
+++ b/python/cython/PyElement.pyx
@@ -55,7 +55,7 @@ cdef class PyElement:
         self.thisptr.setBindingEnergies(toBytesKeys(energies))
 
     def getBindingEnergies(self):
-        return self.thisptr.getBindingEnergies()
+        return toStringKeys(self.thisptr.getBindingEnergies())
     
     def setMassAttenuationCoefficients(self,
                                        std_vector[double] energies,
@@ -70,10 +70,10 @@ cdef class PyElement:
                                                     pair)
     
     def _getDefaultMassAttenuationCoefficients(self):
-        return self.thisptr.getMassAttenuationCoefficients()
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients())
 
     def _getSingleMassAttenuationCoefficients(self, double energy):
-        return self.thisptr.getMassAttenuationCoefficients(energy)
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients(energy))
 
     def getMassAttenuationCoefficients(self, energy=None):
         if energy is None:
@@ -84,7 +84,7 @@ cdef class PyElement:
             return self._getMultipleMassAttenuationCoefficients([energy])
 
     def _getMultipleMassAttenuationCoefficients(self, std_vector[double] energy):
-        return self.thisptr.getMassAttenuationCoefficients(energy)
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients(energy))
                                        
     def setRadiativeTransitions(self, shell,
                                 labels,
@@ -92,7 +92,7 @@ cdef class PyElement:
         self.thisptr.setRadiativeTransitions(toBytes(shell), [toBytes(x) for x in labels], values)
 
     def getRadiativeTransitions(self, shell):
-        return self.thisptr.getRadiativeTransitions(toBytes(shell))
+        return toStringKeys(self.thisptr.getRadiativeTransitions(toBytes(shell)))
 
     def setNonradiativeTransitions(self, shell,
                                    labels,
@@ -100,20 +100,20 @@ cdef class PyElement:
         self.thisptr.setNonradiativeTransitions(toBytes(shell), [toBytes(x) for x in labels], values)
 
     def getNonradiativeTransitions(self, shell):
-        return self.thisptr.getNonradiativeTransitions(toBytes(shell))
+        return toStringKeys(self.thisptr.getNonradiativeTransitions(toBytes(shell)))
 
     def setShellConstants(self, shell,
                           valuesDict):
         self.thisptr.setShellConstants(toBytes(shell), toBytesKeys(valuesDict))
 
     def getShellConstants(self, shell):
-        return self.thisptr.getShellConstants(toBytes(shell))
+        return toStringKeys(self.thisptr.getShellConstants(toBytes(shell)))
 
     #def getXRayLines(self, std_string shell):
     #    return self.thisptr.getXRayLines(shell)
                           
     def getXRayLinesFromVacancyDistribution(self,
                             vacancyDict):
-        return self.thisptr.getXRayLinesFromVacancyDistribution(\
-                                toBytesKeys(vacancyDict))
+        return toStringKeysAndValues(self.thisptr.getXRayLinesFromVacancyDistribution(\
+                                toBytesKeys(vacancyDict)))
 
diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index fc243d6..8956128 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -296,7 +296,7 @@ cdef class PyElements:
 
     def _getMassAttenuationCoefficients(self, std_map[std_string, double] elementDict,
                                               std_vector[double] energy):
-        return self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0)
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0))
 
     def _getExcitationFactors(self, std_string element,
                                    std_vector[double] energies,
diff --git a/python/cython/PyShell.pyx b/python/cython/PyShell.pyx
index b0eed12..ea9f1ca 100644
--- a/python/cython/PyShell.pyx
+++ b/python/cython/PyShell.pyx
@@ -55,22 +55,22 @@ cdef class PyShell:
         self.thisptr.setNonradiativeTransitions(transitions, values)
 
     def getAugerRatios(self):
-        return self.thisptr.getAugerRatios()
+        return toStringKeys(self.thisptr.getAugerRatios())
 
     def getCosterKronigRatios(self):
-        return self.thisptr.getCosterKronigRatios()
+        return toStringKeysAndValues(self.thisptr.getCosterKronigRatios())
 
     def getFluorescenceRatios(self):
-        return self.thisptr.getFluorescenceRatios()
+        return toStringKeys(self.thisptr.getFluorescenceRatios())
 
     def getRadiativeTransitions(self):
-        return self.thisptr.getRadiativeTransitions()
+        return toStringKeys(self.thisptr.getRadiativeTransitions())
 
     def getNonradiativeTransitions(self):
-        return self.thisptr.getNonradiativeTransitions()
+        return toStringKeys(self.thisptr.getNonradiativeTransitions())
 
     def getDirectVacancyTransferRatios(self, subshell):
-        return self.thisptr.getDirectVacancyTransferRatios(toBytes(subshell))
+        return toStringKeys(self.thisptr.getDirectVacancyTransferRatios(toBytes(subshell)))
 
     def setShellConstants(self, shellConstants):
         if sys.version > "3.0":
@@ -78,4 +78,4 @@ cdef class PyShell:
         self.thisptr.setShellConstants(shellConstants)
 
     def getShellConstants(self):
-        return self.thisptr.getShellConstants()
+        return toStringKeys(self.thisptr.getShellConstants())
diff --git a/python/cython/PySimpleIni.pyx b/python/cython/PySimpleIni.pyx
index 7d16335..866da1d 100644
--- a/python/cython/PySimpleIni.pyx
+++ b/python/cython/PySimpleIni.pyx
@@ -46,8 +46,9 @@ cdef class PySimpleIni:
         del self.thisptr
 
     def getKeys(self):
-        return self.thisptr.getSections()
+        return toStringList(self.thisptr.getSections())
 
     def readKey(self, key):
         key = toBytes(key)
-        return self.thisptr.readSection(key)
+        result = toStringKeys(self.thisptr.readSection(key))
+        return dict((x, toString(result[x])) for x in result)
-- 
2.43.0


From b832b8eff96bc748bd19a0c8c2adf4c6a358b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 65/79] fix: Beam.setBeam accepts the weights as an array or as
 zero

---
 python/cython/PyBeam.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/cython/PyBeam.pyx b/python/cython/PyBeam.pyx
index 98ed91c..f1d9622 100644
--- a/python/cython/PyBeam.pyx
+++ b/python/cython/PyBeam.pyx
@@ -54,7 +54,8 @@ cdef class PyBeam:
             energies = numpy.array([energies], dtype=numpy.float64)
         else:
             energies = numpy.asarray(energies, dtype=numpy.float64)
-        if weights:
+        if (weights is not None) and \
+           ((not hasattr(weights, "__len__")) or len(weights)):
             if not hasattr(weights, "__len__"):
                 weights = numpy.array([weights], numpy.float64)
             else:
-- 
2.43.0


From a2f27d63fe55e0c527f6102fc2ab8f4572387a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 66/79] fix: getExcitationFactors returns all the energies it
 is given

---
 python/cython/PyElements.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 8956128..ca887c6 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -269,14 +269,14 @@ cdef class PyElements:
         if hasattr(energy, "__len__"):
             if weight is None:
                 weight = [1.0] * len(energy)
-            return self._getExcitationFactors(toBytes(name), energy, weight)[0]
+            return self._getExcitationFactors(toBytes(name), energy, weight)
         else:
             energy = [energy]
             if weight is None:
                 weight = [1.0]
             else:
                 weight = [weight]
-            return self._getExcitationFactors(toBytes(name), energy, weight)
+            return self._getExcitationFactors(toBytes(name), energy, weight)[0]
 
     def _getMaterialMassAttenuationCoefficients(self, elementDict, energy):
         """
-- 
2.43.0


From 15c20dc5e80d61f8be018a8a7a74d893c38f0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 67/79] fix: getLayerPeakFamilies works from Python

---
 python/cython/PyXRF.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 046c68c..45f12d7 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -298,10 +298,11 @@ cdef class PyXRF:
                              PyElements elementsLibrary):
         cdef std_map[std_string, double] composition
         composition.clear()
-        return toStringKeys(self.thisptr.getLayerPeakFamilies( \
+        tmpResult = self.thisptr.getLayerPeakFamilies( \
                                     deref(layerInstance.thisptr), \
                                     energy, deref(elementsLibrary.thisptr), \
-                                    composition))
+                                    composition)
+        return [(toString(x[0]), x[1]) for x in sorted(tmpResult, key=itemgetter(1))]
 
     def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
-- 
2.43.0


From c53d6df6c8da8bf8849519efcfc17a39d485ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 68/79] fix: getFluorescence accepts a single element and a
 single peak family

---
 python/cython/PyXRF.pyx | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 45f12d7..6b14b0e 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -401,10 +401,7 @@ cdef class PyXRF:
         cdef std_vector[int] dummyIntVec
         cdef std_vector[double] dummyDoubleVec
 
-        if hasattr(elementNames[0], "__len__"):
-            # we have received a list of elements
-            pass
-        else:
+        if hasattr(elementNames, "encode") or hasattr(elementNames, "decode"):
             # we have a single element, convert to list
             elementNames = [elementNames]
 
@@ -415,11 +412,8 @@ cdef class PyXRF:
             # we should have received an integer, convert to list
             sampleLayer = [sampleLayer]
 
-        if len(lineFamily) and hasattr(lineFamily, "__len__"):
-            # we have received a list of peak families
-            pass
-        else:
-            # we should have a peak family, convert to list
+        if hasattr(lineFamily, "encode") or hasattr(lineFamily, "decode"):
+            # we have a single peak family, convert to list
             lineFamily = [lineFamily]
 
         # check the sizes match
-- 
2.43.0


From 6443ebf6adb603bf6d0fc537959966378450d17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 69/79] fix: a failed initializeAsPyMca does not free the
 library twice

---
 python/cython/PyElements.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index ca887c6..a7ed02a 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -87,8 +87,9 @@ cdef class PyElements:
         directoryName = DataDir.FISX_DATA_DIR
         bindingEnergies = getDataFile("BindingEnergies.dat")
         xcomFile = getDataFile("XCOM_CrossSections.dat")
+        cdef Elements *newptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
         del self.thisptr
-        self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
+        self.thisptr = newptr
         for shell in ["K", "L", "M"]:
             shellConstantsFile = getDataFile(shell+"ShellConstants.dat")
             self.thisptr.setShellConstantsFile(toBytes(shell),
@@ -113,8 +114,9 @@ cdef class PyElements:
             dataDir = directoryName
         bindingEnergies = os.path.join(dataDir, "BindingEnergies.dat")
         xcomFile = os.path.join(dataDir, "XCOM_CrossSections.dat")
+        cdef Elements *newptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
         del self.thisptr
-        self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
+        self.thisptr = newptr
         for shell in ["K", "L", "M"]:
             shellConstantsFile = os.path.join(dataDir, shell+"ShellConstants.dat")
             self.thisptr.setShellConstantsFile(toBytes(shell), toBytes(shellConstantsFile))
-- 
2.43.0


From 0a1f0bbf937d3299b7d6758736e2b28941783717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 70/79] fix: None given instead of an object does not end the
 interpreter

---
 python/cython/PyDetector.pyx |  6 ++---
 python/cython/PyElements.pyx |  2 +-
 python/cython/PyLayer.pyx    |  8 +++----
 python/cython/PyXRF.pyx      | 44 +++++++++++++++++++-----------------
 4 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/python/cython/PyDetector.pyx b/python/cython/PyDetector.pyx
index dd1ed0b..ad0bde4 100644
--- a/python/cython/PyDetector.pyx
+++ b/python/cython/PyDetector.pyx
@@ -47,7 +47,7 @@ cdef class PyDetector:
     def __dealloc__(self):
         del self.thisptr
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         if not hasattr(energies, "__len__"):
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
@@ -73,7 +73,7 @@ cdef class PyDetector:
     def setMaximumNumberOfEscapePeaks(self, int n):
         self.thisptr.setMaximumNumberOfEscapePeaks(n)
 
-    def getEscape(self, double energy, PyElements elementsLib, label="", int update=1):
+    def getEscape(self, double energy, PyElements elementsLib not None, label="", int update=1):
         label_ = toBytes(label)
         if sys.version < "3.0":
             if update:
@@ -104,7 +104,7 @@ cdef class PyDetector:
     def getDensity(self):
         return self.thisptr.getDensity()
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         if sys.version < "3.0":
             return self.thisptr.getComposition(deref(elementsLib.thisptr))
         else:
diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index a7ed02a..987cf11 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -158,7 +158,7 @@ cdef class PyElements:
     def __dealloc__(self):
         del self.thisptr
 
-    def addMaterial(self, PyMaterial material, int errorOnReplace=1):
+    def addMaterial(self, PyMaterial material not None, int errorOnReplace=1):
         self.thisptr.addMaterial(deref(material.thisptr), errorOnReplace)
 
     def setShellConstantsFile(self, mainShellName, fileName):
diff --git a/python/cython/PyLayer.pyx b/python/cython/PyLayer.pyx
index 5459820..2589304 100644
--- a/python/cython/PyLayer.pyx
+++ b/python/cython/PyLayer.pyx
@@ -49,7 +49,7 @@ cdef class PyLayer:
     def __dealloc__(self):
         del self.thisptr
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         """
         getComposition(elementsLib)
 
@@ -58,7 +58,7 @@ cdef class PyLayer:
         """
         return toStringKeys(self.thisptr.getComposition(deref(elementsLib.thisptr)))
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         """
         getTransmission(energies, ElementsLibraryInstance, angle=90.)
 
@@ -69,7 +69,7 @@ cdef class PyLayer:
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
 
-    def setMaterial(self, PyMaterial material):
+    def setMaterial(self, PyMaterial material not None):
         """
         setMaterial(MaterialInstance)
 
@@ -77,7 +77,7 @@ cdef class PyLayer:
         """
         self.thisptr.setMaterial(deref(material.thisptr))
 
-    def getPeakFamilies(self, double energy, PyElements elementsLib):
+    def getPeakFamilies(self, double energy, PyElements elementsLib not None):
         """
         getPeakFamilies(energy, ElementsLibraryInstance)
 
diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 6b14b0e..cd708eb 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -198,7 +198,9 @@ cdef class PyXRF:
                     container.push_back(Layer(toBytes(name), density, thickness, 1.0))
         return self.thisptr.setAttenuators(container)
 
-    cdef void _addLayerToLayerVector(self, PyLayer layer, std_vector[Layer]& container):
+    cdef void _addLayerToLayerVector(self, PyLayer layer, std_vector[Layer]& container) except *:
+        if layer is None:
+            raise TypeError("Layer expected instead of None")
         container.push_back(deref(layer.thisptr))
 
     def setUserAttenuators(self, pyTransmissionTableList):
@@ -211,7 +213,7 @@ cdef class PyXRF:
         """
         self._fillTransmissionTable(pyTransmissionTableList, "attenuator")
 
-    def setDetector(self, PyDetector detector):
+    def setDetector(self, PyDetector detector not None):
         self.thisptr.setDetector(deref(detector.thisptr))
 
     def setGeometry(self, double alphaIn, double alphaOut, double scatteringAngle = -90.0):
@@ -220,12 +222,12 @@ cdef class PyXRF:
         else:
             self.thisptr.setGeometry(alphaIn, alphaOut, scatteringAngle)
 
-    def getLayerComposition(self, PyLayer layerInstance, PyElements elementsLibrary):
+    def getLayerComposition(self, PyLayer layerInstance not None, PyElements elementsLibrary not None):
         return toStringKeys(self.thisptr.getLayerComposition(deref(layerInstance.thisptr),
                                                 deref(elementsLibrary.thisptr)))
 
-    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance, energies, \
-                                            PyElements elementsLibrary):
+    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance not None, energies, \
+                                            PyElements elementsLibrary not None):
         if not hasattr(energies, "__len__"):
             return toStringKeys(self._getLayerMassAttenuationCoefficientsSingle( \
                                     layerInstance, \
@@ -236,9 +238,9 @@ cdef class PyXRF:
                                     energies,
                                     elementsLibrary))
 
-    def _getLayerMassAttenuationCoefficientsSingle(self, PyLayer layerInstance, \
+    def _getLayerMassAttenuationCoefficientsSingle(self, PyLayer layerInstance not None, \
                                             double energy, \
-                                            PyElements elementsLibrary):
+                                            PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerMassAttenuationCoefficients( \
@@ -246,9 +248,9 @@ cdef class PyXRF:
                                     energy, deref(elementsLibrary.thisptr), \
                                     composition)
 
-    def _getLayerMassAttenuationCoefficientsMultiple(self, PyLayer layerInstance, \
+    def _getLayerMassAttenuationCoefficientsMultiple(self, PyLayer layerInstance not None, \
                                             std_vector[double] energies, \
-                                            PyElements elementsLibrary):
+                                            PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerMassAttenuationCoefficients( \
@@ -256,8 +258,8 @@ cdef class PyXRF:
                                     energies, deref(elementsLibrary.thisptr), \
                                     composition)
 
-    def getLayerTransmission(self, PyLayer layerInstance, energies, \
-                             PyElements elementsLibrary, angle=90.):
+    def getLayerTransmission(self, PyLayer layerInstance not None, energies, \
+                             PyElements elementsLibrary not None, angle=90.):
         if not hasattr(energies, "__len__"):
             return self._getLayerTransmissionSingle( \
                                     layerInstance, \
@@ -271,8 +273,8 @@ cdef class PyXRF:
                                     elementsLibrary, \
                                     angle)
 
-    def _getLayerTransmissionSingle(self, PyLayer layerInstance, double energy, \
-                             PyElements elementsLibrary, double angle):
+    def _getLayerTransmissionSingle(self, PyLayer layerInstance not None, double energy, \
+                             PyElements elementsLibrary not None, double angle):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerTransmission( \
@@ -282,9 +284,9 @@ cdef class PyXRF:
                                     angle, \
                                     composition)
 
-    def _getLayerTransmissionMultiple(self, PyLayer layerInstance, \
+    def _getLayerTransmissionMultiple(self, PyLayer layerInstance not None, \
                              std_vector[double] energies, \
-                             PyElements elementsLibrary, double angle):
+                             PyElements elementsLibrary not None, double angle):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerTransmission( \
@@ -294,8 +296,8 @@ cdef class PyXRF:
                                     angle, \
                                     composition)
 
-    def getLayerPeakFamilies(self, PyLayer layerInstance, double energy, \
-                             PyElements elementsLibrary):
+    def getLayerPeakFamilies(self, PyLayer layerInstance not None, double energy, \
+                             PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         tmpResult = self.thisptr.getLayerPeakFamilies( \
@@ -304,9 +306,9 @@ cdef class PyXRF:
                                     composition)
         return [(toString(x[0]), x[1]) for x in sorted(tmpResult, key=itemgetter(1))]
 
-    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary, \
+    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary not None, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
-                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam=PyBeam()):
+                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam not None=PyBeam()):
         """
         Input
         elementFamilyLayer - Vector of strings. Each string represents the information we are interested on.
@@ -353,11 +355,11 @@ cdef class PyXRF:
                             secondary, useGeometricEfficiency, \
                             useMassFractions, secondaryCalculationLimit, deref(overwritingBeam.thisptr))
 
-    def getFluorescence(self, elementNames, PyElements elementsLibrary, \
+    def getFluorescence(self, elementNames, PyElements elementsLibrary not None, \
                             sampleLayer = 0, lineFamily="K", int secondary = 0, \
                             int useGeometricEfficiency = 1, int useMassFractions = 0, \
                             double secondaryCalculationLimit = 0.0,
-                            PyBeam overwritingBeam=PyBeam()):
+                            PyBeam overwritingBeam not None=PyBeam()):
 
         """
         Input
-- 
2.43.0


From f49d25aad25954bdf714c391f9cc06d6c6431f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:15 +0000
Subject: [PATCH 71/79] fix: sample layers of configuration files are ordered
 by their number, Layer10 comes after Layer2

---
 src/fisx_xrfconfig.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6365806..e3c78d1 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -504,26 +504,34 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
     {
         sectionContents.clear();
         sectionContents = iniFile.readSection("multilayer", false);
+        // Layer10 comes after Layer2: shorter keys first, alphabetically among those of same length
+        std::map<std::pair<std::string::size_type, std::string>, std::string> layerContents;
+        std::map<std::pair<std::string::size_type, std::string>, std::string>::const_iterator layer_it;
         for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
         {
-            // std::cout << c_it->first << " " << c_it->second << std::endl;
-            content = c_it->second;
+            layerContents[std::make_pair(c_it->first.size(), c_it->first)] = c_it->second;
+        }
+        for (layer_it = layerContents.begin(); layer_it != layerContents.end(); ++layer_it)
+        {
+            const std::string & layerName = layer_it->first.second;
+            // std::cout << layerName << " " << layer_it->second << std::endl;
+            content = layer_it->second;
             iniFile.parseStringAsMultipleValues(content, doubleVector, -1.0);
             iniFile.parseStringAsMultipleValues(content, stringVector, std::string());
             if (doubleVector.size() == 0.0)
             {
                 std::cout << "WARNING: Empty line in multilayer section. Offending key is: "<< std::endl;
-                std::cout << "<" << c_it->first << ">" << std::endl;
+                std::cout << "<" << layerName << ">" << std::endl;
                 continue;
             }
             if (doubleVector[0] > 0.0)
             {
                     if (doubleVector.size() < 4)
                     {
-                        throw std::invalid_argument("Incomplete line in multilayer section: " + c_it->first);
+                        throw std::invalid_argument("Incomplete line in multilayer section: " + layerName);
                     }
                     //BeamFilter0 = 0, -, 0.0, 0.0, 1.0
-                    layer = Layer(c_it->first, doubleVector[2], doubleVector[3]);
+                    layer = Layer(layerName, doubleVector[2], doubleVector[3]);
                     layer.setMaterial(stringVector[1]);
                     for(iMaterial = 0; iMaterial < this->materials.size(); iMaterial++)
                     {
-- 
2.43.0


From d99f7cfdaf393a4a8895899f086c145fa215b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:16 +0000
Subject: [PATCH 72/79] fix: beam filters of configuration files can have
 numbers of several digits

---
 src/fisx_xrfconfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index e3c78d1..169d1dc 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -412,7 +412,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             {
                 throw std::invalid_argument("Incomplete line in attenuators section: " + c_it->first);
             }
-            if (c_it->first.substr(0, c_it->first.size() - 1) == "BeamFilter")
+            if ((c_it->first.size() > 10) && (c_it->first.substr(0, 10) == "BeamFilter"))
             {
                 // BeamFilter0 = 0, -, 0.0, 0.0, 1.0
                 // std::cout << "BEAMFILTER" << std::endl;
-- 
2.43.0


From 6ec6ba28314875f837f1066b6f78e2bc2cf48813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:16 +0000
Subject: [PATCH 73/79] fix: formulas with many groups do not exhaust the stack

---
 src/fisx_elements.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 78c6659..82ed59c 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1757,8 +1757,9 @@ Elements::getXRayLinesFromVacancyDistribution(const std::string & elementName,
 
 }
 
-std::map<std::string, double> Elements::parseFormula(const std::string & formula) const
+std::map<std::string, double> Elements::parseFormula(const std::string & inputFormula) const
 {
+    std::string formula = inputFormula;
     std::map<std::string, double> composition;
     std::map<std::string, double> tmpComposition;
     std::map<std::string, double>::iterator it;
@@ -1827,21 +1828,16 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         return composition;
     }
 
-    nParenthesis = openParenthesis.size();
-    if ( nParenthesis > 0)
+    // replace the groups, one by one, by the elements they contain
+    for (nParenthesis = openParenthesis.size(); nParenthesis > 0; --nParenthesis)
     {
-        p2 = closeParenthesis[0];
-        p1 = openParenthesis[0];
-        if (p1 > p2)
+        p2 = formula.find(')');
+        p1 = formula.rfind('(', p2);
+        if (p1 == std::string::npos)
         {
             // closed prior to being opened
             return composition;
         }
-        for (i = 0; i < nParenthesis; ++i)
-        {
-            if (openParenthesis[i] < p2)
-                p1 = openParenthesis[i];
-        }
         length = p2 - p1 - 1;
         if(length < 1)
         {
@@ -1900,9 +1896,9 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         {
             newFormula += formula.substr(i, formula.size() - i);
         }
-        return this->parseFormula(newFormula);
+        formula = newFormula;
     }
-    else
+
     {
         // when we arrive here we have a string without parenthesis
         if (!isupper(formula[0]))
-- 
2.43.0


From 311bc2b4e9fca070da1c958fe42be6d6b5ce24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:16 +0000
Subject: [PATCH 74/79] fix: compositions of deeply nested materials do not
 exhaust stack or time

---
 src/fisx_elements.cpp | 226 +++++++++++++++++++-----------------------
 src/fisx_elements.h   |   7 --
 2 files changed, 101 insertions(+), 132 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 82ed59c..8834245 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1445,78 +1445,66 @@ void Elements::removeMaterials()
 }
 
 std::map<std::string, double> Elements::getComposition(const std::string & name) const
-{
-    return this->getNestedComposition(name, 0);
-}
-
-std::map<std::string, double> Elements::getNestedComposition(const std::string & name, \
-                                                 const std::vector<Material>::size_type & depth) const
 {
     std::string msg;
     std::map<std::string, double> result;
-    std::map<std::string, double> tmpResult;
+    std::map<std::string, double> pending, next;
     std::map<std::string, double> composition;
     std::map<std::string, double>::const_iterator c_it, c_it2;
-    std::map<std::string , int>::const_iterator matIterator;
-    std::vector<Material>::size_type i;
+    std::vector<Material>::size_type i, depth;
     double total;
 
-    // check if name is a valid element or formula
-    result = this->getCompositionFromFormula(name);
-    if (result.size() > 0)
-    {
-        return result;
-    }
-
-    // check if it is a material
-    i = this->getMaterialIndexFromName(name);
-    if (i == this->materialList.size())
-    {
-        // result at this point must be empty, we can send it back.
-        return result;
-    }
-    if (depth >= this->materialList.size())
-    {
-        msg = "Material " + name + " is defined in terms of itself";
-        throw std::invalid_argument(msg);
-    }
-
-    // make sure we give back the elemental material composition
-    tmpResult = this->materialList[i].getComposition();
-    if (tmpResult.size() < 1)
+    // a material can be made of formulas, elements or other materials. Replace the materials by
+    // what they are made of, one level of nesting at a time, until only elements are left
+    pending[name] = 1.0;
+    for (depth = 0; pending.size() > 0; depth++)
     {
-        // throw an exception because we have an undefined material in the list of materials
-        msg = "Material " + name + " with empty or non-valid composition";
-        throw std::invalid_argument(msg);
-    }
+        next.clear();
+        for (c_it = pending.begin(); c_it != pending.end(); ++c_it)
+        {
+            // check if name is a valid element or formula
+            composition = this->getCompositionFromFormula(c_it->first);
+            if (composition.size() > 0)
+            {
+                for (c_it2 = composition.begin(); c_it2 != composition.end(); ++c_it2)
+                {
+                    result[c_it2->first] += c_it2->second * c_it->second;
+                }
+                continue;
+            }
 
-    // make sure (again ?) that material is normalized
-    total = 0;
-    for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
-    {
-        total += c_it->second;
-    }
-    for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
-    {
-        tmpResult[c_it->first] /= total;
-    }
+            // check if it is a material
+            i = this->getMaterialIndexFromName(c_it->first);
+            if (i == this->materialList.size())
+            {
+                // an unknown name has an empty composition
+                return composition;
+            }
+            if (depth >= this->materialList.size())
+            {
+                msg = "Material " + c_it->first + " is defined in terms of itself";
+                throw std::invalid_argument(msg);
+            }
+            composition = this->materialList[i].getComposition();
+            if (composition.size() < 1)
+            {
+                // throw an exception because we have an undefined material in the list of materials
+                msg = "Material " + c_it->first + " with empty or non-valid composition";
+                throw std::invalid_argument(msg);
+            }
 
-    // now, a material can be made of formulas, elements or other materials.
-    for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
-    {
-        composition = this->getNestedComposition(c_it->first, depth + 1);
-        if (composition.size() < 1)
-        {
-            return composition;
-        }
-        for (c_it2 = composition.begin(); c_it2 != composition.end(); ++c_it2)
-        {
-            if (result.find(c_it2->first) == result.end())
+            // make sure (again ?) that material is normalized
+            total = 0;
+            for (c_it2 = composition.begin(); c_it2 != composition.end(); ++c_it2)
             {
-                result[c_it2->first] = 0.0;
+                total += c_it2->second;
+            }
+            for (c_it2 = composition.begin(); c_it2 != composition.end(); ++c_it2)
+            {
+                next[c_it2->first] += (c_it2->second / total) * c_it->second;
             }
-            result[c_it2->first] += composition[c_it2->first] * tmpResult[c_it->first];
         }
+        pending.swap(next);
     }
     return result;
 }
@@ -1562,83 +1550,71 @@ std::map<std::string, double> Elements::getComposition(const std::map<std::strin
 std::map<std::string, double> Elements::getComposition(const std::string & name, \
                                                  const std::vector<Material> & additionalMaterials) const
 {
-    return this->getNestedComposition(name, additionalMaterials, 0);
-}
-
-std::map<std::string, double> Elements::getNestedComposition(const std::string & name, \
-                                                 const std::vector<Material> & additionalMaterials, \
-                                                 const std::vector<Material>::size_type & depth) const
-{
-    std::vector<Material>::size_type i;
+    std::string msg;
+    std::vector<Material>::size_type i, depth;
     std::map<std::string, double> result;
-    std::map<std::string, double> tmpResult;
+    std::map<std::string, double> pending, next;
     std::map<std::string, double> composition;
     std::map<std::string, double>::const_iterator c_it, c_it2;
     double total;
 
-    // check if name is a valid element or formula
-    result = this->getCompositionFromFormula(name);
-    if (result.size() > 0)
-    {
-        return result;
-    }
-
-    // We are dealing with a material
-    if (additionalMaterials.size() == 0)
-    {
-        // The additional materials are not going to be needed
-        return this->getComposition(name);
-    }
-
-    // check if it is a material of the supplied list
-    for (i = 0; i < additionalMaterials.size(); i++)
-    {
-        if(additionalMaterials[i].getName() == name)
-        {
-            break;
-        }
-    }
-    if (i == additionalMaterials.size())
+    // a material can be defined (or redefined) using the supplied list and it can be made of formulas,
+    // elements or other materials. Replace the materials of the list by what they are made of, one level
+    // of nesting at a time, until none is left
+    pending[name] = 1.0;
+    for (depth = 0; pending.size() > 0; depth++)
     {
-        // The additional materials not needed in this iteration
-        // (the elemental composition, or an empty map if the name is not known)
-        return this->getComposition(name);
-    }
-    else
-    {
-        if (depth >= additionalMaterials.size())
+        next.clear();
+        for (c_it = pending.begin(); c_it != pending.end(); ++c_it)
         {
-            std::string msg;
-            msg = "Material " + name + " is defined in terms of itself";
-            throw std::invalid_argument(msg);
-        }
-        tmpResult =  additionalMaterials[i].getComposition();
-    }
-    if (tmpResult.size() < 1)
-    {
-        // throw an exception because we have an undefined material in the list of materials
-        std::string msg;
-        msg = "Material " + name + " with empty or non-valid composition";
-        throw std::invalid_argument(msg);
-    }
-    // We are dealing with a material that can be defined (or redefined) using the
-    // supplied list and a material can be made of formulas, elements or other materials.
-    for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
-    {
-        composition = this->getNestedComposition(c_it->first, additionalMaterials, depth + 1);
-        if (composition.size() < 1)
-        {
-            return composition;
-        }
-        for (c_it2 = composition.begin(); c_it2 != composition.end(); ++c_it2)
-        {
-            if (result.find(c_it2->first) == result.end())
+            // check if name is a valid element or formula
+            composition = this->getCompositionFromFormula(c_it->first);
+            if (composition.size() < 1)
             {
-                result[c_it2->first] = 0.0;
+                // check if it is a material of the supplied list
+                for (i = 0; i < additionalMaterials.size(); i++)
+                {
+                    if(additionalMaterials[i].getName() == c_it->first)
+                    {
+                        break;
+                    }
+                }
+                if (i < additionalMaterials.size())
+                {
+                    if (depth >= additionalMaterials.size())
+                    {
+                        msg = "Material " + c_it->first + " is defined in terms of itself";
+                        throw std::invalid_argument(msg);
+                    }
+                    composition = additionalMaterials[i].getComposition();
+                    if (composition.size() < 1)
+                    {
+                        // throw an exception because we have an undefined material in the list of materials
+                        msg = "Material " + c_it->first + " with empty or non-valid composition";
+                        throw std::invalid_argument(msg);
+                    }
+                    for (c_it2 = composition.begin(); c_it2 != composition.end(); ++c_it2)
+                    {
+                        next[c_it2->first] += c_it2->second * c_it->second;
+                    }
+                    continue;
+                }
+                // The additional materials are not needed for this name
+                // (the elemental composition, or an empty map if the name is not known)
+                composition = this->getComposition(c_it->first);
+                if (composition.size() < 1)
+                {
+                    return composition;
+                }
+            }
+            for (c_it2 = composition.begin(); c_it2 != composition.end(); ++c_it2)
+            {
+                result[c_it2->first] += c_it2->second * c_it->second;
             }
-            result[c_it2->first] += composition[c_it2->first] * tmpResult[c_it->first];
         }
+        pending.swap(next);
     }
+
     // make sure (again ?) that material is normalized
     total = 0;
     for (c_it = result.begin(); c_it != result.end(); ++c_it)
diff --git a/src/fisx_elements.h b/src/fisx_elements.h
index 42d1daa..73e590d 100644
--- a/src/fisx_elements.h
+++ b/src/fisx_elements.h
@@ -591,13 +591,6 @@ private:
     // Utility function
     const std::vector<Material>::size_type getMaterialIndexFromName(const std::string & name) const;
 
-    // Composition of a material, materials containing themselves are rejected when depth is too large
-    std::map<std::string, double> getNestedComposition(const std::string & name, \
-                                                 const std::vector<Material>::size_type & depth) const;
-    std::map<std::string, double> getNestedComposition(const std::string & name, \
-                                                 const std::vector<Material> & materials, \
-                                                 const std::vector<Material>::size_type & depth) const;
-
     // The files used for configuring the library
     std::map<std::string, std::string> shellConstantsFile;
     std::map<std::string, std::string> shellRadiativeTransitionsFile;
-- 
2.43.0


From 5015f19e72474705715aaa1c99c69b461ac12696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:31 +0000
Subject: [PATCH 75/79] fix: thick target form of the enhancement only for
 layers thick for the exciting radiation as well

---
 src/fisx_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index e96a429..78c886a 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -270,7 +270,7 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
 
     // express the thickness in g/cm2
     d = thickness * density;
-    if (((mu1 + mu2) * d) > 10.)
+    if ((((mu1 + mu2) * d) > 10.) && (((mu1 + muj) * d) > 10.))
     {
         // thick target
         tmpDouble = (muj/mu1) * std::log(1 + mu1/muj) / ((mu1 + mu2) * muj);
-- 
2.43.0


From c80efda8ea5374b2cd28266f40e8c577822b87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:31 +0000
Subject: [PATCH 76/79] fix: photon energies of a mass attenuation file are not
 taken as photoelectric coefficients

---
 src/fisx_elements.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 8834245..8829fba 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -736,7 +736,8 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
                     muEnergy[j] = data[j][i];
                 }
             }
-            if (key.find("PHOTO") != std::string::npos)
+            // the energy may be labelled as photon energy
+            if ((key.find("PHOTO") != std::string::npos) && (key.find("ENERGY") == std::string::npos))
             {
                 muPhotoelectric.resize(data.size());
                 for (j = 0; j < data.size(); j++)
-- 
2.43.0


From 8ed6d50263a66f455cbee3b7161bef60bf0ab9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:05 +0000
Subject: [PATCH 77/79] fix: an enhancement lost in the rounding of its terms
 is none instead of an error

---
 src/fisx_math.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 78c886a..d2780a5 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -328,6 +328,16 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
     }
     if (tmpDouble < 0)
     {
+        // the terms cancel when the absorption of the emitted (or exciting) radiation is
+        // orders of magnitude higher than the others: what is left is their rounding
+        double terms;
+        terms = std::fabs(Math::deBoerD((muj - mu2) * d)) / (mu2 * (mu1 + mu2));
+        terms += std::fabs(Math::deBoerD(muj * d)) / (mu1 * mu2);
+        terms += std::fabs(Math::deBoerD((muj + mu1) * d)) / (mu1 * (mu1 + mu2));
+        if (-tmpDouble < (1.0e-6 * std::exp(-(mu1 + muj) * d) * terms))
+        {
+            return 0.0;
+        }
         std::cout << " Math::deBoerL0 CALCULATED = " << tmpDouble << std::endl;
         std::cout << " mu1 = " << mu1 << std::endl;
         std::cout << " mu2 = " << mu2 << std::endl;
-- 
2.43.0


From c8563c725b0fff0820a22db138f7864a54d16f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:38 +0000
Subject: [PATCH 78/79] fix: coefficients that start from zero are interpolated
 linearly

The logarithm of a zero coefficient was taken as zero, i.e. the coefficient as one: just above 1.022 MeV the pair production was about 1 cm2/g.
---
 src/fisx_element.cpp | 6 ++++--
 src/fisx_epdl97.cpp  | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 84a8a35..665b303 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -438,7 +438,8 @@ std::map<std::string, double> Element::getMassAttenuationCoefficients(const doub
                 {
                     if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
                     {
-                        result[key] = exp(B * log(y1));
+                        // the logarithm of zero cannot be used, linear interpolation
+                        result[key] = y1 * ((energy - x0) / (x1 - x0));
                     }
                     else
                     {
@@ -836,7 +837,8 @@ std::map<std::string, double> \
                 {
                     if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
                     {
-                        result[shell] = exp(B * log(y1));
+                        // the logarithm of zero cannot be used, linear interpolation
+                        result[shell] = y1 * ((energy - x0) / (x1 - x0));
                     }
                     else
                     {
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index a477952..f49af35 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -551,7 +551,8 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                 {
                     if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
                     {
-                        result[key] = exp(B * log(y1));
+                        // the logarithm of zero cannot be used, linear interpolation
+                        result[key] = y1 * ((energy - x0) / (x1 - x0));
                     }
                     else
                     {
-- 
2.43.0


From 0b633234fce5fc95a53c038a94656fcbae476722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:38 +0000
Subject: [PATCH 79/79] fix: strongly absorbed lines are enhanced by the layers
 below

The enhancement by the layers below was dropped when the layer attenuated its own line by more than 1000, although what excites it can be much more penetrating. A light foil on a heavier substrate lost tens of per cent when it was made slightly thicker. What made the calculation overflow, a layer much thicker than the path of the line, is taken by its uppermost part.
---
 src/fisx_multilayer.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index c806c6b..c89af97 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -862,14 +862,22 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                             }
                                             bLayer++;
                                         }
-                                        tmpDouble = std::exp(-mu_1_i * density_1 * thickness_1/sinAlphaOut);
-                                        if (tmpDouble < 0.001)
-                                            continue;
+                                        double massThickness_1;
+                                        massThickness_1 = density_1 * thickness_1;
+                                        tmpDouble = mu_1_i/sinAlphaOut - mu_1_j;
+                                        if ((tmpDouble * massThickness_1) > 500.0)
+                                        {
+                                            // only the uppermost part of such a layer is seen,
+                                            // the rest of it just attenuates
+                                            massThickness_1 = 500.0 / tmpDouble;
+                                            mu_b_j_d_t += mu_1_j * (density_1 * thickness_1 - massThickness_1);
+                                        }
+                                        tmpDouble = std::exp(-mu_1_i * massThickness_1/sinAlphaOut);
                                         tmpDouble *= sampleLayerRates[jLayer][iLambda];
                                         if (-(mu_2_lambda/sinAlphaIn) == mu_2_j)
                                             tmpDouble *= Math::deBoerX(mu_2_lambda/(0.99999*sinAlphaIn), \
                                                                   mu_1_i/sinAlphaOut, \
-                                                                  density_1 * thickness_1, \
+                                                                  massThickness_1, \
                                                                   density_2 * thickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
@@ -877,7 +885,7 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                         else
                                             tmpDouble *= Math::deBoerX(mu_2_lambda/sinAlphaIn, \
                                                                   mu_1_i/sinAlphaOut, \
-                                                                  density_1 * thickness_1, \
+                                                                  massThickness_1, \
                                                                   density_2 * thickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
-- 
2.43.0

