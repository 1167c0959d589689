From 3f8ce7858e7ed682ab15c49f3575128a2bdb4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 01/66] fix: PDSS_HKFT::initThermo creates m_waterProps before
 calling it

---
 src/thermo/PDSS_HKFT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/PDSS_HKFT.cpp b/src/thermo/PDSS_HKFT.cpp
index 7df92c9..2419814 100644
--- a/src/thermo/PDSS_HKFT.cpp
+++ b/src/thermo/PDSS_HKFT.cpp
@@ -255,6 +255,7 @@ void PDSS_HKFT::initThermo()
     }
 
     m_waterSS = &dynamic_cast<PDSS_Water&>(*m_tp->providePDSS(0));
+    m_waterProps = make_unique<WaterProps>(m_waterSS);
 
     // Section to initialize m_Z_pr_tr and m_Y_pr_tr
     m_temp = 273.15 + 25.;
@@ -265,7 +266,6 @@ void PDSS_HKFT::initThermo()
     m_Z_pr_tr = -1.0 / relepsilon;
     double drelepsilondT = m_waterProps->relEpsilon(m_temp, m_pres, 1);
     m_Y_pr_tr = drelepsilondT / (relepsilon * relepsilon);
-    m_waterProps = make_unique<WaterProps>(m_waterSS);
     m_presR_bar = OneAtm / 1.0E5;
     m_presR_bar = 1.0;
     convertDGFormation();
-- 
2.43.0


From 2be7306a13c51d3e917bf7e696eb47feb890a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 02/66] fix: PDSS_SSVol heat capacity pressure correction is
 nondimensional

---
 src/thermo/PDSS_SSVol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermo/PDSS_SSVol.cpp b/src/thermo/PDSS_SSVol.cpp
index 6593a98..6aa2b9b 100644
--- a/src/thermo/PDSS_SSVol.cpp
+++ b/src/thermo/PDSS_SSVol.cpp
@@ -128,7 +128,7 @@ void PDSS_SSVol::setPressure(double p)
         m_hss_RT = m_h0_RT + sV_term + del_pRT * m_Vss;
         m_sss_R = m_s0_R + sV_term;
         m_gss_RT = m_hss_RT - m_sss_R;
-        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_;
+        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_ / GasConstant;
     }
 }
 
@@ -150,7 +150,7 @@ void PDSS_SSVol::setTemperature(double temp)
         m_hss_RT = m_h0_RT + sV_term + del_pRT * m_Vss;
         m_sss_R = m_s0_R + sV_term;
         m_gss_RT = m_hss_RT - m_sss_R;
-        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_;
+        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_ / GasConstant;
     }
 }
 
-- 
2.43.0


From 15471e419ac3c6bb9c0d385eca6d4724c88dc906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 03/66] fix: VPStandardStateTP density follows composition
 changes and restored states

---
 include/cantera/thermo/VPStandardStateTP.h | 4 ++++
 src/thermo/GibbsExcessVPSSTP.cpp           | 2 +-
 src/thermo/VPStandardStateTP.cpp           | 8 ++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/VPStandardStateTP.h b/include/cantera/thermo/VPStandardStateTP.h
index 4070376..cd79847 100644
--- a/include/cantera/thermo/VPStandardStateTP.h
+++ b/include/cantera/thermo/VPStandardStateTP.h
@@ -162,6 +162,10 @@ protected:
      */
     virtual void calcDensity();
 
+    //! Recalculates the density, which depends on the composition, once the standard
+    //! state properties have been evaluated for the first time.
+    void compositionChanged() override;
+
     //! Updates the standard state thermodynamic functions at the current T and
     //! P of the solution.
     /*!
diff --git a/src/thermo/GibbsExcessVPSSTP.cpp b/src/thermo/GibbsExcessVPSSTP.cpp
index 8c625b1..7ebf08c 100644
--- a/src/thermo/GibbsExcessVPSSTP.cpp
+++ b/src/thermo/GibbsExcessVPSSTP.cpp
@@ -23,8 +23,8 @@ namespace Cantera
 
 void GibbsExcessVPSSTP::compositionChanged()
 {
-    Phase::compositionChanged();
     getMoleFractions(moleFractions_.data());
+    VPStandardStateTP::compositionChanged();
 }
 
 // ------------ Mechanical Properties ------------------------------
diff --git a/src/thermo/VPStandardStateTP.cpp b/src/thermo/VPStandardStateTP.cpp
index 37d7e19..61f8ba3 100644
--- a/src/thermo/VPStandardStateTP.cpp
+++ b/src/thermo/VPStandardStateTP.cpp
@@ -204,6 +204,14 @@ void VPStandardStateTP::calcDensity()
     Phase::assignDensity(dd);
 }
 
+void VPStandardStateTP::compositionChanged()
+{
+    ThermoPhase::compositionChanged();
+    if (m_Tlast_ss > 0.0) {
+        calcDensity();
+    }
+}
+
 void VPStandardStateTP::setState_TP(double t, double pres)
 {
     // A pretty tricky algorithm is needed here, due to problems involving
-- 
2.43.0


From 34918e13b50f05ffb2bb3adfe20460b6a3932cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 04/66] fix: state setters do not take a temperature step cut
 back for stability for convergence

---
 src/thermo/ThermoPhase.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/thermo/ThermoPhase.cpp b/src/thermo/ThermoPhase.cpp
index 2b3993b..1f73365 100644
--- a/src/thermo/ThermoPhase.cpp
+++ b/src/thermo/ThermoPhase.cpp
@@ -370,6 +370,7 @@ void ThermoPhase::setState_HPorUV(double Htarget, double p,
         // Try to keep phase within its region of stability
         // -> Could do a lot better if I calculate the
         //    spinodal value of H.
+        bool stepReduced = false;
         for (int its = 0; its < 10; its++) {
             Tnew = Told + dt;
             if (Tnew < Told / 3.0) {
@@ -393,6 +394,7 @@ void ThermoPhase::setState_HPorUV(double Htarget, double p,
             }
             if (unstablePhase == false && unstablePhaseNew == true) {
                 dt *= 0.25;
+                stepReduced = true;
             }
         }
 
@@ -410,7 +412,9 @@ void ThermoPhase::setState_HPorUV(double Htarget, double p,
         double acpd = std::max(fabs(cpd), 1.0E-5);
         double denom = std::max(fabs(Htarget), acpd * Tnew);
         double HConvErr = fabs((Herr)/denom);
-        if (HConvErr < rtol || fabs(dt/Tnew) < rtol) {
+        // A tiny step is no sign of convergence if it was cut back to keep the phase
+        // within its region of stability
+        if (HConvErr < rtol || (fabs(dt/Tnew) < rtol && !stepReduced)) {
             return;
         }
     }
@@ -564,6 +568,7 @@ void ThermoPhase::setState_SPorSV(double Starget, double p,
         // Try to keep phase within its region of stability
         // -> Could do a lot better if I calculate the
         //    spinodal value of H.
+        bool stepReduced = false;
         for (int its = 0; its < 10; its++) {
             Tnew = Told + dt;
             setState_conditional_TP(Tnew, p, !doSV);
@@ -578,6 +583,7 @@ void ThermoPhase::setState_SPorSV(double Starget, double p,
             }
             if (unstablePhase == false && unstablePhaseNew == true) {
                 dt *= 0.25;
+                stepReduced = true;
             }
         }
 
@@ -595,7 +601,9 @@ void ThermoPhase::setState_SPorSV(double Starget, double p,
         double acpd = std::max(fabs(cpd), 1.0E-5);
         double denom = std::max(fabs(Starget), acpd * Tnew);
         double SConvErr = fabs((Serr * Tnew)/denom);
-        if (SConvErr < rtol || fabs(dt/Tnew) < rtol) {
+        // A tiny step is no sign of convergence if it was cut back to keep the phase
+        // within its region of stability
+        if (SConvErr < rtol || (fabs(dt/Tnew) < rtol && !stepReduced)) {
             return;
         }
     }
-- 
2.43.0


From 83e3851e89bf431e6663d0db72bf101e1bd1f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:54 +0000
Subject: [PATCH 05/66] fix: WaterSSTP reference state getters restore the
 state exactly

---
 src/thermo/WaterSSTP.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/thermo/WaterSSTP.cpp b/src/thermo/WaterSSTP.cpp
index cf8f09c..d0888bf 100644
--- a/src/thermo/WaterSSTP.cpp
+++ b/src/thermo/WaterSSTP.cpp
@@ -130,7 +130,6 @@ double WaterSSTP::cv_mole() const
 
 void WaterSSTP::getEnthalpy_RT_ref(double* hrt) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -144,12 +143,11 @@ void WaterSSTP::getEnthalpy_RT_ref(double* hrt) const
     }
     double h = m_sub.enthalpy_mass() * m_mw;
     *hrt = (h + EW_Offset) / RT();
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 void WaterSSTP::getGibbs_RT_ref(double* grt) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -164,7 +162,7 @@ void WaterSSTP::getGibbs_RT_ref(double* grt) const
     m_sub.setState_TD(T, dd);
     double g = m_sub.gibbs_mass() * m_mw;
     *grt = (g + EW_Offset - SW_Offset*T)/ RT();
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 void WaterSSTP::getGibbs_ref(double* g) const
@@ -177,7 +175,6 @@ void WaterSSTP::getGibbs_ref(double* g) const
 
 void WaterSSTP::getEntropy_R_ref(double* sr) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -194,12 +191,11 @@ void WaterSSTP::getEntropy_R_ref(double* sr) const
 
     double s = m_sub.entropy_mass() * m_mw;
     *sr = (s + SW_Offset)/ GasConstant;
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 void WaterSSTP::getCp_R_ref(double* cpr) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -214,12 +210,11 @@ void WaterSSTP::getCp_R_ref(double* cpr) const
     }
     double cp = m_sub.cp_mass() * m_mw;
     *cpr = cp / GasConstant;
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 void WaterSSTP::getStandardVolumes_ref(double* vol) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -232,7 +227,7 @@ void WaterSSTP::getStandardVolumes_ref(double* vol) const
         throw CanteraError("WaterSSTP::getStandardVolumes_ref", "error");
     }
     *vol = meanMolecularWeight() /dd;
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 double WaterSSTP::pressure() const
-- 
2.43.0


From 2ca08f87c51d07aab3b3afd4e720572e5b94f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:54 +0000
Subject: [PATCH 06/66] fix: PureFluidPhase reference state getters do not
 depend on or lose the state

---
 src/thermo/PureFluidPhase.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/thermo/PureFluidPhase.cpp b/src/thermo/PureFluidPhase.cpp
index 3e45009..dce6788 100644
--- a/src/thermo/PureFluidPhase.cpp
+++ b/src/thermo/PureFluidPhase.cpp
@@ -231,7 +231,8 @@ void PureFluidPhase::getEnthalpy_RT_ref(double* hrt) const
     double rhoSave = density();
     double t = temperature();
     double plow = 1.0E-8;
-    Set(tpx::PropertyPair::TP, t, plow);
+    // the fluid is an ideal gas at this pressure
+    Set(tpx::PropertyPair::TV, t, GasConstant * t / (m_mw * plow));
     getEnthalpy_RT(hrt);
     Set(tpx::PropertyPair::TV, t, 1 / rhoSave);
 
@@ -243,7 +244,8 @@ void PureFluidPhase::getGibbs_RT_ref(double* grt) const
     double t = temperature();
     double pref = refPressure();
     double plow = 1.0E-8;
-    Set(tpx::PropertyPair::TP, t, plow);
+    // the fluid is an ideal gas at this pressure
+    Set(tpx::PropertyPair::TV, t, GasConstant * t / (m_mw * plow));
     getGibbs_RT(grt);
     grt[0] += log(pref/plow);
     Set(tpx::PropertyPair::TV, t, 1 / rhoSave);
@@ -261,7 +263,8 @@ void PureFluidPhase::getEntropy_R_ref(double* er) const
     double t = temperature();
     double pref = refPressure();
     double plow = 1.0E-8;
-    Set(tpx::PropertyPair::TP, t, plow);
+    // the fluid is an ideal gas at this pressure
+    Set(tpx::PropertyPair::TV, t, GasConstant * t / (m_mw * plow));
     getEntropy_R(er);
     er[0] -= log(pref/plow);
     Set(tpx::PropertyPair::TV, t, 1 / rhoSave);
-- 
2.43.0


From 5dafa346953a43d756aa7474c84ee86225316ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:54 +0000
Subject: [PATCH 07/66] fix: BulkKinetics standard state properties follow
 composition changes

---
 src/kinetics/BulkKinetics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 0b6ce9b..dc05fbe 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -462,8 +462,9 @@ void BulkKinetics::updateROP()
     double rho = thermo().density();
     int statenum = thermo().stateMFNumber();
 
-    if (last.state1 != T || last.state2 != rho) {
-        // Update properties that are independent of the composition
+    if (last.state1 != T || last.state2 != rho || last.stateNum != statenum) {
+        // Update standard state properties, which depend on the pressure and thus on
+        // the composition where temperature and density are unchanged
         thermo().getStandardChemPotentials(m_grt.data());
         fill(m_delta_gibbs0.begin(), m_delta_gibbs0.end(), 0.0);
         double logStandConc = log(thermo().standardConcentration());
-- 
2.43.0


From ae8346797e734b85f584fe7147c709effe4a6bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:27 +0000
Subject: [PATCH 08/66] fix: CoverageDependentSurfPhase coverage terms keep
 their own last temperature

---
 include/cantera/thermo/CoverageDependentSurfPhase.h | 3 +++
 src/thermo/CoverageDependentSurfPhase.cpp           | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/CoverageDependentSurfPhase.h b/include/cantera/thermo/CoverageDependentSurfPhase.h
index 8836200..bf4b3bb 100644
--- a/include/cantera/thermo/CoverageDependentSurfPhase.h
+++ b/include/cantera/thermo/CoverageDependentSurfPhase.h
@@ -427,6 +427,9 @@ private:
     //! Last value of the state number processed.
     mutable int m_stateNumlast;
 
+    //! Temperature at which the coverage-dependent properties were last evaluated.
+    mutable double m_tlastCov = -1.0;
+
     //! Update the species coverage-dependent thermodynamic functions.
     /*!
      * The coverage-dependent enthalpy and entropy are only re-evaluated
diff --git a/src/thermo/CoverageDependentSurfPhase.cpp b/src/thermo/CoverageDependentSurfPhase.cpp
index b942c39..fff5784 100644
--- a/src/thermo/CoverageDependentSurfPhase.cpp
+++ b/src/thermo/CoverageDependentSurfPhase.cpp
@@ -457,7 +457,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
 {
     int stateNumnow = stateMFNumber();
     double tnow = temperature();
-    if (m_stateNumlast != stateNumnow || m_tlast != tnow) {
+    if (m_stateNumlast != stateNumnow || m_tlastCov != tnow) {
         for (size_t k = 0; k < m_kk; k++) {
             m_h_cov[k] = 0.0;
             m_s_cov[k] = 0.0;
@@ -524,6 +524,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
             m_mu_cov[k] = m_h_cov[k] - tnow * m_s_cov[k];
         }
         m_stateNumlast = stateNumnow;
+        m_tlastCov = tnow;
     }
 }
 
-- 
2.43.0


From 4e5fd4bd6360902fd3c1695fcf4f4a3c81886e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:27 +0000
Subject: [PATCH 09/66] fix: DebyeHuckel::standardConcentration updates the
 standard state first

---
 src/thermo/DebyeHuckel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/DebyeHuckel.cpp b/src/thermo/DebyeHuckel.cpp
index c96d9fc..e76af18 100644
--- a/src/thermo/DebyeHuckel.cpp
+++ b/src/thermo/DebyeHuckel.cpp
@@ -68,6 +68,7 @@ void DebyeHuckel::getActivityConcentrations(double* c) const
 
 double DebyeHuckel::standardConcentration(size_t k) const
 {
+    _updateStandardStateThermo();
     double mvSolvent = providePDSS(0)->molarVolume();
     return 1.0 / mvSolvent;
 }
-- 
2.43.0


From 949e472f900296a062f4d85827dd53936e9b4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:46 +0000
Subject: [PATCH 10/66] fix: InterfaceData notices temperature and pressure
 changes of all phases

---
 include/cantera/kinetics/InterfaceRate.h | 4 ++++
 src/kinetics/InterfaceRate.cpp           | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/cantera/kinetics/InterfaceRate.h b/include/cantera/kinetics/InterfaceRate.h
index 5fa1307..be6f431 100644
--- a/include/cantera/kinetics/InterfaceRate.h
+++ b/include/cantera/kinetics/InterfaceRate.h
@@ -45,6 +45,8 @@ struct InterfaceData : public BlowersMaselData
         logCoverages.resize(nSpecies, 0.);
         partialMolarEnthalpies.resize(nSpecies, 0.);
         electricPotentials.resize(nPhases, 0.);
+        phaseTemperatures.resize(nPhases, NAN);
+        phasePressures.resize(nPhases, NAN);
         standardChemPotentials.resize(nSpecies, 0.);
         standardConcentrations.resize(nSpecies, 0.);
         ready = true;
@@ -55,6 +57,8 @@ struct InterfaceData : public BlowersMaselData
     vector<double> coverages; //!< surface coverages
     vector<double> logCoverages; //!< logarithm of surface coverages
     vector<double> electricPotentials; //!< electric potentials of phases
+    vector<double> phaseTemperatures; //!< temperatures of phases at last update
+    vector<double> phasePressures; //!< pressures of phases at last update
     vector<double> standardChemPotentials; //!< standard state chemical potentials
     vector<double> standardConcentrations; //!< standard state concentrations
 };
diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index 9abaf0d..5a5dbfd 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -50,6 +50,15 @@ bool InterfaceData::update(const ThermoPhase& phase, const Kinetics& kin)
 
     double T = phase.temperature();
     bool changed = false;
+    for (size_t n = 0; n < kin.nPhases(); n++) {
+        const auto& ph = kin.thermo(n);
+        double pressure = ph.pressure();
+        if (phaseTemperatures[n] != ph.temperature() || phasePressures[n] != pressure) {
+            phaseTemperatures[n] = ph.temperature();
+            phasePressures[n] = pressure;
+            changed = true;
+        }
+    }
     const auto& surf = dynamic_cast<const SurfPhase&>(kin.thermo(0));
     double site_density = surf.siteDensity();
     if (density != site_density) {
-- 
2.43.0


From 53088c767ffb7bced872d8749b4748b8e0b1d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:52 +0000
Subject: [PATCH 11/66] fix: WaterSSTP reference state getters restore the
 state before throwing

---
 src/thermo/WaterSSTP.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/thermo/WaterSSTP.cpp b/src/thermo/WaterSSTP.cpp
index d0888bf..47caa8a 100644
--- a/src/thermo/WaterSSTP.cpp
+++ b/src/thermo/WaterSSTP.cpp
@@ -139,6 +139,7 @@ void WaterSSTP::getEnthalpy_RT_ref(double* hrt) const
     }
     double dd = m_sub.density(T, OneAtm, waterState, dens);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getEnthalpy_RT_ref", "error");
     }
     double h = m_sub.enthalpy_mass() * m_mw;
@@ -157,6 +158,7 @@ void WaterSSTP::getGibbs_RT_ref(double* grt) const
     }
     double dd = m_sub.density(T, OneAtm, waterState, dens);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getGibbs_RT_ref", "error");
     }
     m_sub.setState_TD(T, dd);
@@ -185,6 +187,7 @@ void WaterSSTP::getEntropy_R_ref(double* sr) const
     double dd = m_sub.density(T, OneAtm, waterState, dens);
 
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getEntropy_R_ref", "error");
     }
     m_sub.setState_TD(T, dd);
@@ -204,10 +207,11 @@ void WaterSSTP::getCp_R_ref(double* cpr) const
         waterState = WATER_LIQUID;
     }
     double dd = m_sub.density(T, OneAtm, waterState, dens);
-    m_sub.setState_TD(T, dd);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getCp_R_ref", "error");
     }
+    m_sub.setState_TD(T, dd);
     double cp = m_sub.cp_mass() * m_mw;
     *cpr = cp / GasConstant;
     m_sub.setState_TD(T, dens);
@@ -224,6 +228,7 @@ void WaterSSTP::getStandardVolumes_ref(double* vol) const
     }
     double dd = m_sub.density(T, OneAtm, waterState, dens);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getStandardVolumes_ref", "error");
     }
     *vol = meanMolecularWeight() /dd;
-- 
2.43.0


From 6fdc08f021a48151814fd30d2c8068d87c49419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:50 +0000
Subject: [PATCH 12/66] fix: default Tsang falloff coefficient B to zero, as
 documented

---
 src/kinetics/Falloff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics/Falloff.cpp b/src/kinetics/Falloff.cpp
index abed33e..40c06f3 100644
--- a/src/kinetics/Falloff.cpp
+++ b/src/kinetics/Falloff.cpp
@@ -511,7 +511,7 @@ void TsangRate::setParameters(const AnyMap& node, const UnitStack& rate_units)
     }
     vector<double> params{
         f["A"].asDouble(),
-        f["B"].asDouble()
+        f.getDouble("B", 0.0)
     };
     setFalloffCoeffs(params);
 }
-- 
2.43.0


From 83e2e3fc6b2ed69c2fd95a64e0748efda5d00b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 13/66] fix: write species reference pressure in output units

---
 src/thermo/SpeciesThermoInterpType.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thermo/SpeciesThermoInterpType.cpp b/src/thermo/SpeciesThermoInterpType.cpp
index 474b678..d3b59bf 100644
--- a/src/thermo/SpeciesThermoInterpType.cpp
+++ b/src/thermo/SpeciesThermoInterpType.cpp
@@ -59,6 +59,9 @@ void SpeciesThermoInterpType::getParameters(AnyMap& thermo) const
 {
     if (m_Pref != OneAtm && reportType() != 0) {
         thermo["reference-pressure"].setQuantity(m_Pref, "Pa");
+    } else {
+        // an explicit default value in the input would not be converted to output units
+        thermo.exclude("reference-pressure");
     }
 }
 
-- 
2.43.0


From dd1ece632a9e9c4b79211fceb07ad8f07d709d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 14/66] fix: serialize species size as 'sites'

---
 src/thermo/Species.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermo/Species.cpp b/src/thermo/Species.cpp
index 1cb9b75..ade4f2d 100644
--- a/src/thermo/Species.cpp
+++ b/src/thermo/Species.cpp
@@ -79,9 +79,9 @@ AnyMap Species::parameters(const ThermoPhase* phase, bool withInput) const
     }
 
     if (size != 1) {
-        speciesNode["size"] = size;
+        speciesNode["sites"] = size;
     } else {
-        speciesNode.exclude("size");
+        speciesNode.exclude("sites");
     }
 
     if (thermo) {
-- 
2.43.0


From 2e21c016f883d7c900a67c1fe0cdeb893bd93c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 15/66] fix: initialize HMWSoln A_Debye

---
 src/thermo/HMWSoln.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/HMWSoln.cpp b/src/thermo/HMWSoln.cpp
index b00198b..a67436b 100644
--- a/src/thermo/HMWSoln.cpp
+++ b/src/thermo/HMWSoln.cpp
@@ -44,6 +44,7 @@ HMWSoln::HMWSoln(const string& inputFile, const string& id_) :
     CROP_ln_gamma_o_max(crop_ln_gamma_o_max_default),
     CROP_ln_gamma_k_min(crop_ln_gamma_k_min_default),
     CROP_ln_gamma_k_max(crop_ln_gamma_k_max_default),
+    m_A_Debye(A_Debye_default),
     m_last_is(-1.0)
 {
     initThermoFile(inputFile, id_);
-- 
2.43.0


From 297c1578a61b82c8ce87645fa39aa07c952dbc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 16/66] fix: serialize Motz-Wise flag inherited from phase

---
 src/kinetics/InterfaceRate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index 5a5dbfd..8452255 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -332,7 +332,8 @@ void StickingCoverage::setStickingParameters(const AnyMap& node)
 
 void StickingCoverage::getStickingParameters(AnyMap& node) const
 {
-    if (m_explicitMotzWise) {
+    if (m_explicitMotzWise || m_motzWise) {
+        // the value may also stem from the phase definition
         node["Motz-Wise"] = m_motzWise;
     }
     if (m_explicitSpecies) {
-- 
2.43.0


From 536f175069768eb820820b40a0b371067a53709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 17/66] fix: serialize reaction id

---
 src/kinetics/Reaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index aa88c39..8e442f3 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -224,6 +224,9 @@ void Reaction::getParameters(AnyMap& reactionNode) const
 
     reactionNode["equation"] = equation();
 
+    if (!id.empty()) {
+        reactionNode["id"] = id;
+    }
     if (duplicate) {
         reactionNode["duplicate"] = true;
     } else {
-- 
2.43.0


From 8da2307a1bbac4f7af4927b3f76fd3e67f865be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 18/66] fix: serialize default efficiency of generic third body

---
 src/kinetics/Reaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index 8e442f3..f75bfbf 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -813,7 +813,7 @@ void ThirdBody::getParameters(AnyMap& node) const
             node["efficiencies"] = efficiencies;
             node["efficiencies"].setFlowStyle();
         }
-        if (default_efficiency != 1.0 && !explicit_3rd) {
+        if (default_efficiency != 1.0 && (m_name == "M" || !explicit_3rd)) {
             node["default-efficiency"] = default_efficiency;
         }
     }
-- 
2.43.0


From 62b79211ebfd4c7e849e746501d38880473e09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 19/66] fix: accept empty list of elements

---
 src/thermo/ThermoFactory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thermo/ThermoFactory.cpp b/src/thermo/ThermoFactory.cpp
index c3d76bc..05aedf1 100644
--- a/src/thermo/ThermoFactory.cpp
+++ b/src/thermo/ThermoFactory.cpp
@@ -224,7 +224,11 @@ void setupPhase(ThermoPhase& thermo, const AnyMap& phaseNode, const AnyMap& root
             thermo.throwUndefinedElements();
         }
 
-        if (phaseNode["elements"].is<vector<string>>()) {
+        if (phaseNode["elements"].is<vector<AnyValue>>()
+            && phaseNode["elements"].asVector<AnyValue>().empty())
+        {
+            // An empty list of elements, for example for phases without any atoms
+        } else if (phaseNode["elements"].is<vector<string>>()) {
             // 'elements' is a list of element symbols
             if (rootNode.hasKey("elements")) {
                 addElements(thermo, phaseNode["elements"].asVector<string>(),
-- 
2.43.0


From d8bc33f088d6e81b14d35a5faa43abee9989c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:45 +0000
Subject: [PATCH 20/66] fix: initialize log of site density in SurfPhase

---
 include/cantera/thermo/SurfPhase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cantera/thermo/SurfPhase.h b/include/cantera/thermo/SurfPhase.h
index 7d4aa4b..6022bc4 100644
--- a/include/cantera/thermo/SurfPhase.h
+++ b/include/cantera/thermo/SurfPhase.h
@@ -314,7 +314,7 @@ protected:
     vector<double> m_speciesSize;
 
     //! log of the surface site density
-    double m_logn0;
+    double m_logn0 = 0.0;
 
     //! Current value of the pressure (Pa)
     double m_press = OneAtm;
-- 
2.43.0


From b1ca9c7b9bc5add9e882003fa837a4eb5815fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:21 +0000
Subject: [PATCH 21/66] fix: evaluate interpolated coverage dependency at full
 coverage

---
 src/thermo/CoverageDependentSurfPhase.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/thermo/CoverageDependentSurfPhase.cpp b/src/thermo/CoverageDependentSurfPhase.cpp
index fff5784..95c326d 100644
--- a/src/thermo/CoverageDependentSurfPhase.cpp
+++ b/src/thermo/CoverageDependentSurfPhase.cpp
@@ -475,18 +475,17 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
         for (auto& item : m_InterpolativeDependency) {
             auto h_iter = item.enthalpy_map.upper_bound(m_cov[item.j]);
             auto s_iter = item.entropy_map.upper_bound(m_cov[item.j]);
-            AssertThrowMsg(h_iter != item.enthalpy_map.end(),
-                           "CoverageDependentSurfPhase::_updateCovDepThermo",
-                           "Coverage out of range: {}", m_cov[item.j]);
-            AssertThrowMsg(h_iter != item.enthalpy_map.begin(),
-                           "CoverageDependentSurfPhase::_updateCovDepThermo",
-                           "Coverage out of range: {}", m_cov[item.j]);
-            AssertThrowMsg(s_iter != item.entropy_map.end(),
-                           "CoverageDependentSurfPhase::_updateCovDepThermo",
-                           "Coverage out of range: {}", m_cov[item.j]);
-            AssertThrowMsg(s_iter != item.entropy_map.begin(),
-                           "CoverageDependentSurfPhase::_updateCovDepThermo",
-                           "Coverage out of range: {}", m_cov[item.j]);
+            // Use the outermost segments at the end points (such as full coverage)
+            if (h_iter == item.enthalpy_map.end()) {
+                --h_iter;
+            } else if (h_iter == item.enthalpy_map.begin()) {
+                ++h_iter;
+            }
+            if (s_iter == item.entropy_map.end()) {
+                --s_iter;
+            } else if (s_iter == item.entropy_map.begin()) {
+                ++s_iter;
+            }
 
             double highHcov = h_iter->first;
             double highH = h_iter->second;
-- 
2.43.0


From d6f5358bf59787aaa4a9f6730284134b7560f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:26 +0000
Subject: [PATCH 22/66] fix: pure fluid specific volume does not need the
 saturation state

---
 src/tpx/Sub.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tpx/Sub.cpp b/src/tpx/Sub.cpp
index b9c9ea8..6aafd54 100644
--- a/src/tpx/Sub.cpp
+++ b/src/tpx/Sub.cpp
@@ -728,6 +728,10 @@ double Substance::prop(propertyFlag::type ijob)
     if (ijob == propertyFlag::T) {
         return T;
     }
+    if (ijob == propertyFlag::V) {
+        // independent of the number of phases (which may be unknown)
+        return 1.0/Rho;
+    }
     double xx = x();
     if ((xx > 0.0) && (xx < 1.0)) {
         double Rho_save = Rho;
-- 
2.43.0


From 08f894ed954cbd278bfb46fea45ffbc9327da539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:38 +0000
Subject: [PATCH 23/66] fix: supercritical pure fluids started from a dense
 state

---
 src/tpx/Sub.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tpx/Sub.cpp b/src/tpx/Sub.cpp
index 6aafd54..2531fa8 100644
--- a/src/tpx/Sub.cpp
+++ b/src/tpx/Sub.cpp
@@ -378,6 +378,10 @@ void Substance::Set(PropertyPair::type XY, double x0, double y0)
             } else {
                 Set(PropertyPair::TX, x0, 0.0);
             }
+        } else if (Rho * Vcrit() > 1.0) {
+            // avoid unphysical solutions at densities beyond the range of the
+            // equation of state
+            set_v(Vcrit());
         }
         set_xy(propertyFlag::T, propertyFlag::P,
                x0, y0, TolAbsT, TolAbsP, TolRel, TolRel);
-- 
2.43.0


From 397d9b4adff2a36345616fe9706d1d665d425825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:52 +0000
Subject: [PATCH 24/66] fix: failed state changes leave a pure fluid unmodified

---
 include/cantera/tpx/Sub.h |  5 ++++-
 src/tpx/Sub.cpp           | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/cantera/tpx/Sub.h b/include/cantera/tpx/Sub.h
index 4df2e1d..bbb3606 100644
--- a/include/cantera/tpx/Sub.h
+++ b/include/cantera/tpx/Sub.h
@@ -170,7 +170,7 @@ public:
 
     //! Function to set or change the state for a property pair *XY* where
     //! *x0* is the value of first property and *y0* is the value of the
-    //! second property.
+    //! second property. The state is unchanged if an exception is thrown.
     void Set(PropertyPair::type XY, double x0, double y0);
 
 protected:
@@ -215,6 +215,9 @@ private:
     void set_Rho(double r0);
     void set_T(double t0);
     void set_v(double v0);
+
+    //! Implementation of Set(), which may leave the state modified if it fails
+    void setPair(PropertyPair::type XY, double x0, double y0);
     void BracketSlope(double p);
     double vprop(propertyFlag::type ijob);
     void set_xy(propertyFlag::type if1, propertyFlag::type if2,
diff --git a/src/tpx/Sub.cpp b/src/tpx/Sub.cpp
index 2531fa8..c82bdac 100644
--- a/src/tpx/Sub.cpp
+++ b/src/tpx/Sub.cpp
@@ -331,6 +331,20 @@ static const double TolAbsT = 1.e-3;
 static const double TolRel = 1.e-8;
 
 void Substance::Set(PropertyPair::type XY, double x0, double y0)
+{
+    double T_save = T;
+    double Rho_save = Rho;
+    try {
+        setPair(XY, x0, y0);
+    } catch (CanteraError&) {
+        // leave the state as it was
+        T = T_save;
+        Rho = Rho_save;
+        throw;
+    }
+}
+
+void Substance::setPair(PropertyPair::type XY, double x0, double y0)
 {
     double temp;
 
-- 
2.43.0


From 94fcb7f3136e54af1ca2b100542cdccf8d7bdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 25/66] fix: third-body composition derivatives of reactions
 added to existing kinetics

---
 src/kinetics/BulkKinetics.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index dc05fbe..a7ca5d2 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -66,6 +66,11 @@ bool BulkKinetics::addReaction(shared_ptr<Reaction> r, bool resize)
     }
 
     m_concm.push_back(NAN);
+    if (resize) {
+        // third-body coefficients of the new reaction were not known when
+        // resizeReactions was called by Kinetics::addReaction
+        m_multi_concm.resizeCoeffs(nTotalSpecies(), nReactions());
+    }
     m_ready = resize;
     return true;
 }
-- 
2.43.0


From dd5c039fb6880e89e23984e3d992aa8b5be4557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 26/66] fix: resize kinetics and transport when a species is
 added from Python

---
 interfaces/cython/cantera/kinetics.pxd |  3 ++-
 interfaces/cython/cantera/thermo.pyx   | 12 +++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/interfaces/cython/cantera/kinetics.pxd b/interfaces/cython/cantera/kinetics.pxd
index e341f76..ab04216 100644
--- a/interfaces/cython/cantera/kinetics.pxd
+++ b/interfaces/cython/cantera/kinetics.pxd
@@ -38,7 +38,8 @@ cdef extern from "cantera/kinetics/Kinetics.h" namespace "Cantera":
         cbool addReaction(shared_ptr[CxxReaction], cbool) except +translate_exception
         void modifyReaction(int, shared_ptr[CxxReaction]) except +translate_exception
         void invalidateCache() except +translate_exception
-        void resizeReactions()
+        void resizeSpecies() except +translate_exception
+        void resizeReactions() except +translate_exception
 
         shared_ptr[CxxReaction] reaction(size_t) except +translate_exception
         double reactantStoichCoeff(int, int) except +translate_exception
diff --git a/interfaces/cython/cantera/thermo.pyx b/interfaces/cython/cantera/thermo.pyx
index b091f70..0a6493f 100644
--- a/interfaces/cython/cantera/thermo.pyx
+++ b/interfaces/cython/cantera/thermo.pyx
@@ -588,7 +588,17 @@ cdef class ThermoPhase(_SolutionBase):
         species._phase = self
         self.thermo.initThermo()
         if self.kinetics:
-            self.kinetics.invalidateCache()
+            # arrays and matrices sized by the number of species
+            self.kinetics.resizeSpecies()
+            self.kinetics.resizeReactions()
+        if self.base.transport():
+            model = pystr(self.base.transport().get().transportModel())
+            if model != "none":
+                # rebuild the transport manager; not possible if the new species has
+                # no transport data
+                self.base.setTransportModel(stringify("none"))
+                if species.transport is not None:
+                    self.base.setTransportModel(stringify(model))
 
     def add_species_alias(self, name, alias):
         """
-- 
2.43.0


From 062ab6e0d08bee482f66552900bb102b1f4e5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:07 +0000
Subject: [PATCH 27/66] fix: reaction with unsuitable rate is rejected before
 kinetics are modified

---
 src/kinetics/Kinetics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index d382dce..25e05f6 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -632,6 +632,10 @@ bool Kinetics::addReaction(shared_ptr<Reaction> r, bool resize)
         r->rate()->setRateUnits(r->calculateRateCoeffUnits(*this));
     }
 
+    // Raises an exception if the rate cannot be used in this context; to be done
+    // before any member is modified.
+    r->rate()->setContext(*r, *this);
+
     size_t irxn = nReactions(); // index of the new reaction
 
     // indices of reactant and product species within this Kinetics object
-- 
2.43.0


From 131304a1d63922185edb1a9dfa392c785d2c4c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:07 +0000
Subject: [PATCH 28/66] fix: replacing the rate of a chemically activated
 reaction next to falloff reactions

---
 src/kinetics/BulkKinetics.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index a7ca5d2..84effbe 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -40,9 +40,10 @@ bool BulkKinetics::addReaction(shared_ptr<Reaction> r, bool resize)
     }
 
     shared_ptr<ReactionRate> rate = r->rate();
-    string rtype = rate->subType();
-    if (rtype == "") {
-        rtype = rate->type();
+    // falloff and chemically activated reactions share the names of their subtypes
+    string rtype = rate->type();
+    if (rate->subType() != "") {
+        rtype += "-" + rate->subType();
     }
 
     // If necessary, add new MultiRate evaluator
@@ -101,9 +102,10 @@ void BulkKinetics::modifyReaction(size_t i, shared_ptr<Reaction> rNew)
     Kinetics::modifyReaction(i, rNew);
 
     shared_ptr<ReactionRate> rate = rNew->rate();
-    string rtype = rate->subType();
-    if (rtype == "") {
-        rtype = rate->type();
+    // falloff and chemically activated reactions share the names of their subtypes
+    string rtype = rate->type();
+    if (rate->subType() != "") {
+        rtype += "-" + rate->subType();
     }
 
     // Ensure that MultiRate evaluator is available
-- 
2.43.0


From bc62c7da906e178b8996ef9a2c332046d2fc27a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:07 +0000
Subject: [PATCH 29/66] fix: rejected species definitions leave the phase
 unmodified

---
 src/thermo/MultiSpeciesThermo.cpp |  5 +++++
 src/thermo/ThermoPhase.cpp        | 23 ++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/thermo/MultiSpeciesThermo.cpp b/src/thermo/MultiSpeciesThermo.cpp
index 49a6411..1bc6073 100644
--- a/src/thermo/MultiSpeciesThermo.cpp
+++ b/src/thermo/MultiSpeciesThermo.cpp
@@ -68,6 +68,11 @@ void MultiSpeciesThermo::modifySpecies(size_t index,
                            "Type of parameterization changed: {} != {}", type,
                            m_speciesLoc[index].first);
     }
+    if (fabs(m_p0 - spthermo->refPressure()) > 1e-6) {
+        throw CanteraError("MultiSpeciesThermo::modifySpecies",
+            "Cannot change reference pressure from {} to {}",
+            m_p0, spthermo->refPressure());
+    }
     if (spthermo->minTemp() > m_tlow_max) {
         throw CanteraError("MultiSpeciesThermo::modifySpecies",
             "Cannot increase minimum temperature for phase from {} to {}",
diff --git a/src/thermo/ThermoPhase.cpp b/src/thermo/ThermoPhase.cpp
index 1f73365..e517c6e 100644
--- a/src/thermo/ThermoPhase.cpp
+++ b/src/thermo/ThermoPhase.cpp
@@ -1065,6 +1065,20 @@ bool ThermoPhase::addSpecies(shared_ptr<Species> spec)
         throw CanteraError("ThermoPhase::addSpecies",
             "Species {} has no thermo data", spec->name);
     }
+    // Check before anything is modified
+    if (m_kk && fabs(refPressure() - spec->thermo->refPressure()) > 1e-6) {
+        if (m_undefinedElementBehavior == UndefElement::ignore) {
+            for (const auto& [eName, stoich] : spec->composition) {
+                if (elementIndex(eName) == npos) {
+                    return false;
+                }
+            }
+        }
+        throw CanteraError("ThermoPhase::addSpecies",
+            "Cannot add species {} with reference pressure {}.\n"
+            "Inconsistent with previously-added species with reference pressure {}.",
+            spec->name, spec->thermo->refPressure(), refPressure());
+    }
     bool added = Phase::addSpecies(spec);
     if (added) {
         spec->thermo->validate(spec->name);
@@ -1079,6 +1093,7 @@ void ThermoPhase::modifySpecies(size_t k, shared_ptr<Species> spec)
         throw CanteraError("ThermoPhase::modifySpecies",
             "Species {} has no thermo data", spec->name);
     }
+    shared_ptr<Species> old = species(k);
     Phase::modifySpecies(k, spec);
     if (speciesName(k) != spec->name) {
         throw CanteraError("ThermoPhase::modifySpecies",
@@ -1086,7 +1101,13 @@ void ThermoPhase::modifySpecies(size_t k, shared_ptr<Species> spec)
                            spec->name, speciesName(k), k);
     }
     spec->thermo->validate(spec->name);
-    m_spthermo.modifySpecies(k, spec->thermo);
+    try {
+        m_spthermo.modifySpecies(k, spec->thermo);
+    } catch (...) {
+        // leave the phase as it was
+        Phase::modifySpecies(k, old);
+        throw;
+    }
 }
 
 void ThermoPhase::setParameters(const AnyMap& phaseNode, const AnyMap& rootNode)
-- 
2.43.0


From 378b79c8ec0b7284aff10e9fc07a590ad3029bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:25 +0000
Subject: [PATCH 30/66] fix: check element balance of reactions with third
 bodies

---
 src/kinetics/Reaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index f75bfbf..e54d46d 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -705,8 +705,8 @@ bool Reaction::checkSpecies(const Kinetics& kin) const
         }
     }
 
-    if (m_third_body) {
-        return m_third_body->checkSpecies(*this, kin);
+    if (m_third_body && !m_third_body->checkSpecies(*this, kin)) {
+        return false;
     }
 
     checkBalance(kin);
-- 
2.43.0


From 61fd27046afe2e9cb6ec6666cc69dc640b40c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:25 +0000
Subject: [PATCH 31/66] fix: check charge balance of reactions consuming
 cations

---
 src/kinetics/Reaction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index e54d46d..f511d34 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -606,6 +606,8 @@ void updateUndeclared(vector<string>& undeclared,
 void Reaction::checkBalance(const Kinetics& kin) const
 {
     Composition balr, balp;
+    // sum of magnitudes; counts of electrons (element E) are negative for cations
+    Composition total;
 
     // iterate over products and reactants
     for (const auto& [name, stoich] : products) {
@@ -614,6 +616,7 @@ void Reaction::checkBalance(const Kinetics& kin) const
         for (size_t m = 0; m < ph.nElements(); m++) {
             balr[ph.elementName(m)] = 0.0; // so that balr contains all species
             balp[ph.elementName(m)] += stoich * ph.nAtoms(k, m);
+            total[ph.elementName(m)] += fabs(stoich * ph.nAtoms(k, m));
         }
     }
     for (const auto& [name, stoich] : reactants) {
@@ -621,13 +624,14 @@ void Reaction::checkBalance(const Kinetics& kin) const
         size_t k = ph.speciesIndex(name);
         for (size_t m = 0; m < ph.nElements(); m++) {
             balr[ph.elementName(m)] += stoich * ph.nAtoms(k, m);
+            total[ph.elementName(m)] += fabs(stoich * ph.nAtoms(k, m));
         }
     }
 
     string msg;
     bool ok = true;
     for (const auto& [elem, balance] : balr) {
-        double elemsum = balr[elem] + balp[elem];
+        double elemsum = total[elem];
         double elemdiff = fabs(balp[elem] - balr[elem]);
         if (elemsum > 0.0 && elemdiff / elemsum > 1e-4) {
             ok = false;
-- 
2.43.0


From f81c61cb0235a28c5dbd6e90971cb3cd5cfed1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:25 +0000
Subject: [PATCH 32/66] fix: declared duplicates need a reaction with the same
 stoichiometry

---
 src/kinetics/Kinetics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index 25e05f6..30ab753 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -138,6 +138,9 @@ pair<size_t, size_t> Kinetics::checkDuplicates(bool throw_err) const
         for (size_t m : related) {
             Reaction& other = *m_reactions[m];
             if (R.duplicate && other.duplicate) {
+                if (checkDuplicateStoich(net_stoich[i], net_stoich[m]) == 0) {
+                    continue; // same participants, but different reactions
+                }
                 // marked duplicates
                 unmatched_duplicates.erase(i);
                 unmatched_duplicates.erase(m);
-- 
2.43.0


From 1aee01422b40bdaf95ba897de2a4442e5d33145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 33/66] fix: linear-Burke colliders that are not declared in
 the phase

---
 src/kinetics/LinearBurkeRate.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/kinetics/LinearBurkeRate.cpp b/src/kinetics/LinearBurkeRate.cpp
index 85e1c48..122eec6 100644
--- a/src/kinetics/LinearBurkeRate.cpp
+++ b/src/kinetics/LinearBurkeRate.cpp
@@ -3,6 +3,7 @@
 // at https://cantera.org/license.txt for license and copyright information.
 
 #include "cantera/kinetics/LinearBurkeRate.h"
+#include "cantera/kinetics/Reaction.h"
 #include "cantera/thermo/ThermoPhase.h"
 #include "cantera/kinetics/Kinetics.h"
 
@@ -202,7 +203,13 @@ void LinearBurkeRate::setContext(const Reaction& rxn, const Kinetics& kin)
 {
     m_colliderIndices.clear();
     for (size_t i = 0; i<m_colliderNames.size(); i++) {
-        m_colliderIndices.push_back(kin.kineticsSpeciesIndex(m_colliderNames[i]));
+        size_t k = kin.kineticsSpeciesIndex(m_colliderNames[i]);
+        if (k == npos && !kin.skipUndeclaredThirdBodies()) {
+            throw InputFileError("LinearBurkeRate::setContext", m_input,
+                "Reaction '{}' has undeclared collider '{}'",
+                rxn.equation(), m_colliderNames[i]);
+        }
+        m_colliderIndices.push_back(k);
     }
 }
 
@@ -255,6 +262,9 @@ double LinearBurkeRate::evalFromStruct(const LinearBurkeData& shared_data)
     double eps_mix = 0.0; // mole-fraction-weighted overall eps value of the mixtures
     for (size_t j = 0; j < m_colliderIndices.size(); j++) {
         size_t i = m_colliderIndices[j];
+        if (i == npos) {
+            continue; // undeclared collider
+        }
         eps_mix += shared_data.moleFractions[i]
                    * m_epsObjs1[j].evalRate(shared_data.logT, shared_data.recipT);
         sigmaX_M -= shared_data.moleFractions[i];
@@ -269,6 +279,9 @@ double LinearBurkeRate::evalFromStruct(const LinearBurkeData& shared_data)
     double logPeff;
     for (size_t j = 0; j < m_colliderIndices.size(); j++) {
         size_t i = m_colliderIndices[j];
+        if (i == npos) {
+            continue; // undeclared collider
+        }
         double eps1 = m_epsObjs1[j].evalRate(shared_data.logT, shared_data.recipT);
         double eps2 = m_epsObjs2[j].evalRate(shared_data.logT, shared_data.recipT);
         // eps2 equals either eps_M or eps_i, depending on the scenario
-- 
2.43.0


From 03f59884caf5b8d11b7c026e06b14678a50bd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:30 +0000
Subject: [PATCH 34/66] fix: print stoichiometric coefficients with full
 precision

---
 src/kinetics/Reaction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index f511d34..948d3fe 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -342,7 +342,8 @@ string Reaction::reactantString() const
             result << " + ";
         }
         if (iter->second != 1.0) {
-            result << iter->second << " ";
+            // shortest form that is read back as the same number
+            result << fmt::format("{} ", iter->second);
         }
         result << iter->first;
     }
@@ -360,7 +361,8 @@ string Reaction::productString() const
             result << " + ";
         }
         if (iter->second != 1.0) {
-            result << iter->second << " ";
+            // shortest form that is read back as the same number
+            result << fmt::format("{} ", iter->second);
         }
         result << iter->first;
     }
-- 
2.43.0


From e303af5713435a477af79ee1d730bce64cc8851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:30 +0000
Subject: [PATCH 35/66] fix: generic third body (+M) next to species on both
 sides

---
 src/kinetics/Reaction.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index 948d3fe..b352860 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -401,6 +401,7 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
     }
 
     string third_body;
+    string generic_body; // name of the generic collider as used in the equation
     size_t count = 0;
     size_t countM = 0;
     for (const auto& [name, stoich] : reactants) {
@@ -409,6 +410,9 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
             third_body = name;
             size_t generic = third_body == "M"
                 || third_body == "(+M)"  || third_body == "(+ M)";
+            if (generic) {
+                generic_body = name;
+            }
             count++;
             countM += generic;
             if (stoich > 1 && products[third_body] > 1) {
@@ -435,11 +439,13 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
         // regular elementary reaction unless the equation contains a generic third body
         if (countM) {
             // generic collider 'M' is selected as third body
-            third_body = "M";
+            third_body = generic_body;
         } else if (m_third_body) {
             // third body is defined as explicit object
             auto& effs = m_third_body->efficiencies;
-            if (effs.size() != 1 || !reactants.count(effs.begin()->first)) {
+            if (effs.size() != 1 || !reactants.count(effs.begin()->first)
+                || !products.count(effs.begin()->first))
+            {
                 throw InputFileError("Reaction::setEquation", input,
                     "Detected ambiguous third body colliders in reaction '{}'\n"
                     "ThirdBody object needs to specify a single species", equation);
@@ -449,7 +455,9 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
         } else if (input.hasKey("efficiencies")) {
             // third body is implicitly defined by efficiency
             auto effs = input["efficiencies"].asMap<double>();
-            if (effs.size() != 1 || !reactants.count(effs.begin()->first)) {
+            if (effs.size() != 1 || !reactants.count(effs.begin()->first)
+                || !products.count(effs.begin()->first))
+            {
                 throw InputFileError("Reaction::setEquation", input,
                     "Detected ambiguous third body colliders in reaction '{}'\n"
                     "Collision efficiencies need to specify single species", equation);
-- 
2.43.0


From 1c8351e3b8b4d8e57e2d4cfcae61d4a0a7c1ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:37 +0000
Subject: [PATCH 36/66] fix: duplicate check modified the stoichiometries it
 compared

---
 src/kinetics/Kinetics.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index 30ab753..5ae521c 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -239,6 +239,12 @@ pair<size_t, size_t> Kinetics::checkDuplicates(bool throw_err) const
 
 double Kinetics::checkDuplicateStoich(map<int, double>& r1, map<int, double>& r2) const
 {
+    // lookup without adding entries to the maps, which are used again for
+    // comparisons with other reactions
+    auto coeff = [](const map<int, double>& r, int k) {
+        auto it = r.find(k);
+        return it == r.end() ? 0.0 : it->second;
+    };
     std::unordered_set<int> keys; // species keys (k+1 or -k-1)
     for (auto& [speciesKey, stoich] : r1) {
         keys.insert(speciesKey);
@@ -249,13 +255,13 @@ double Kinetics::checkDuplicateStoich(map<int, double>& r1, map<int, double>& r2
     int k1 = r1.begin()->first;
     // check for duplicate written in the same direction
     double ratio = 0.0;
-    if (r1[k1] && r2[k1]) {
-        ratio = r2[k1]/r1[k1];
+    if (coeff(r1, k1) && coeff(r2, k1)) {
+        ratio = coeff(r2, k1)/coeff(r1, k1);
         bool different = false;
         for (int k : keys) {
-            if ((r1[k] && !r2[k]) ||
-                (!r1[k] && r2[k]) ||
-                (r1[k] && fabs(r2[k]/r1[k] - ratio) > 1.e-8)) {
+            if ((coeff(r1, k) && !coeff(r2, k)) ||
+                (!coeff(r1, k) && coeff(r2, k)) ||
+                (coeff(r1, k) && fabs(coeff(r2, k)/coeff(r1, k) - ratio) > 1.e-8)) {
                 different = true;
                 break;
             }
@@ -266,14 +272,14 @@ double Kinetics::checkDuplicateStoich(map<int, double>& r1, map<int, double>& r2
     }
 
     // check for duplicate written in the reverse direction
-    if (r1[k1] == 0.0 || r2[-k1] == 0.0) {
+    if (coeff(r1, k1) == 0.0 || coeff(r2, -k1) == 0.0) {
         return 0.0;
     }
-    ratio = r2[-k1]/r1[k1];
+    ratio = coeff(r2, -k1)/coeff(r1, k1);
     for (int k : keys) {
-        if ((r1[k] && !r2[-k]) ||
-            (!r1[k] && r2[-k]) ||
-            (r1[k] && fabs(r2[-k]/r1[k] - ratio) > 1.e-8)) {
+        if ((coeff(r1, k) && !coeff(r2, -k)) ||
+            (!coeff(r1, k) && coeff(r2, -k)) ||
+            (coeff(r1, k) && fabs(coeff(r2, -k)/coeff(r1, k) - ratio) > 1.e-8)) {
             return 0.0;
         }
     }
-- 
2.43.0


From 70dffc5ae2c1873259771f54c83c30f7bf0c9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:34 +0000
Subject: [PATCH 37/66] fix: temperature units with prefix as activation energy
 units

---
 src/base/Units.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index fd1566d..85f553d 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -525,7 +525,7 @@ void UnitSystem::setDefaultActivationEnergy(const string& e_units)
     if (u.convertible(Units("J/kmol"))) {
         m_activation_energy_factor = u.factor();
     } else if (u.convertible(knownUnits.at("K"))) {
-        m_activation_energy_factor = GasConstant;
+        m_activation_energy_factor = GasConstant * u.factor();
     } else if (u.convertible(knownUnits.at("eV"))) {
         m_activation_energy_factor = u.factor() * Avogadro;
     } else {
@@ -713,7 +713,7 @@ double UnitSystem::convertActivationEnergyTo(double value,
     if (dest.convertible(Units("J/kmol"))) {
         return value * m_activation_energy_factor / dest.factor();
     } else if (dest.convertible(knownUnits.at("K"))) {
-        return value * m_activation_energy_factor / GasConstant;
+        return value * m_activation_energy_factor / (GasConstant * dest.factor());
     } else if (dest.convertible(knownUnits.at("eV"))) {
         return value * m_activation_energy_factor / (Avogadro * dest.factor());
     } else {
@@ -728,7 +728,7 @@ double UnitSystem::convertActivationEnergyFrom(double value, const string& src)
     if (usrc.convertible(Units("J/kmol"))) {
         return value * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("K"))) {
-        return value * GasConstant / m_activation_energy_factor;
+        return value * GasConstant * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("eV"))) {
         return value * Avogadro * usrc.factor() / m_activation_energy_factor;
     } else {
-- 
2.43.0


From 96a7d58c0623c241a1eb2ea194696456a5bcd2d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 38/66] fix: compare row lengths of AnyMap tables

---
 include/cantera/base/AnyMap.inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cantera/base/AnyMap.inl.h b/include/cantera/base/AnyMap.inl.h
index f53dc02..9804b4c 100644
--- a/include/cantera/base/AnyMap.inl.h
+++ b/include/cantera/base/AnyMap.inl.h
@@ -204,7 +204,8 @@ bool AnyValue::vector2_eq(const std::any& lhs, const std::any& rhs)
         return false;
     } else {
         for (size_t i = 0; i < lvec.size(); i++) {
-            if (!std::equal(lvec[i].begin(), lvec[i].end(), rvec[i].begin())) {
+            if (lvec[i].size() != rvec[i].size()
+                || !std::equal(lvec[i].begin(), lvec[i].end(), rvec[i].begin())) {
                 return false;
             }
         }
-- 
2.43.0


From 98d86579feea3639f5176c8cdcea93131ae0b03f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 39/66] fix: strings and non-finite numbers in AnyMap survive
 YAML output

---
 src/base/AnyMap.cpp | 118 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 98 insertions(+), 20 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 72f4526..874ae1d 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -22,6 +22,21 @@ std::mutex yaml_cache_mutex;
 std::mutex yaml_field_order_mutex;
 using namespace Cantera;
 
+//! Value of the YAML representation of an infinite or undefined number; zero if
+//! the string is not one of these.
+double nonFinite(const string& str)
+{
+    if (str == ".inf" || str == ".Inf" || str == ".INF"
+        || str == "+.inf" || str == "+.Inf" || str == "+.INF") {
+        return std::numeric_limits<double>::infinity();
+    } else if (str == "-.inf" || str == "-.Inf" || str == "-.INF") {
+        return -std::numeric_limits<double>::infinity();
+    } else if (str == ".nan" || str == ".NaN" || str == ".NAN") {
+        return std::numeric_limits<double>::quiet_NaN();
+    }
+    return 0.0;
+}
+
 bool isFloat(const string& val)
 {
     // This function duplicates the logic of fpValueCheck, but doesn't throw
@@ -30,6 +45,9 @@ bool isFloat(const string& val)
     if (str.empty()) {
         return false;
     }
+    if (nonFinite(str)) {
+        return true;
+    }
     int numDot = 0;
     int numExp = 0;
     int istart = 0;
@@ -69,7 +87,13 @@ bool isFloat(const string& val)
             return false;
         }
     }
-    return true;
+    return numDigit > 0;
+}
+
+double readDouble(const string& val)
+{
+    double x = nonFinite(ba::trim_copy(val));
+    return (x != 0.0) ? x : fpValue(val);
 }
 
 bool isInt(const string& val)
@@ -99,6 +123,38 @@ bool isBool(const string& val) {
     return (val == "true" || val == "True" || val == "false" || val == "False");
 }
 
+//! Strings that look like document markers if they are at the start of a line
+bool isMarker(const string& val)
+{
+    return ba::starts_with(val, "---") || ba::starts_with(val, "...");
+}
+
+//! Strings that need to be quoted in order not to be read as another type
+bool needsQuotes(const string& val)
+{
+    return isFloat(val) || isBool(val) || isMarker(val);
+}
+
+//! True for text without control characters other than newlines
+bool isPrintable(const string& val)
+{
+    for (char ch : val) {
+        if (ch != '\n' && iscntrl(static_cast<unsigned char>(ch))) {
+            return false;
+        }
+    }
+    return true;
+}
+
+//! Line breaks and control characters cannot be written in single quotes
+YAML::EMITTER_MANIP quoteStyle(const string& val)
+{
+    if (val.find('\n') == npos && isPrintable(val)) {
+        return YAML::SingleQuoted;
+    }
+    return YAML::DoubleQuoted;
+}
+
 bool dunder(const string& s) {
     return ba::starts_with(s, "__") && ba::ends_with(s, "__");
 }
@@ -169,6 +225,10 @@ string formatDouble(double x, long int precision)
     // or the displayed value has multiple trailing zeros.
     if (x == 0.0) {
         return "0.0";
+    } else if (std::isnan(x)) {
+        return ".nan";
+    } else if (std::isinf(x)) {
+        return x > 0 ? ".inf" : "-.inf";
     }
 
     // Build string with full precision
@@ -189,9 +249,16 @@ string formatDouble(double x, long int precision)
         }
     } else {
         log10x = static_cast<int>(std::floor(std::log10(std::abs(x))));
+        if (precision <= log10x) {
+            // No digits after the decimal point
+            return fmt::format("{:.1f}", x);
+        }
         s0 = fmt::format("{:.{}f}", x, precision - log10x);
         last = s0.size() - 1; // last digit
     }
+    if (last < 2) {
+        return s0; // no digits to be removed
+    }
     if (s0[last - 2] == '0' && s0[last - 1] == '0' && s0[last] < '5') {
         // Value ending in '00x' and should be rounded down
     } else if (s0[last - 2] == '9' && s0[last - 1] == '9' && s0[last] > '4') {
@@ -299,15 +366,13 @@ YAML::Emitter& operator<<(YAML::Emitter& out, const AnyMap& rhs)
         for (const auto& [name, value] : rhs.ordered(true)) {
             string valueStr;
             bool foundType = true;
-            bool needsQuotes = false;
+            bool quoted = false;
             if (value.is<double>()) {
                 valueStr = formatDouble(value.asDouble(), getPrecision(value));
             } else if (value.is<string>()) {
                 valueStr = value.asString();
-                if (isFloat(valueStr)) {
-                    // Quote strings that look like numbers to preserve their type
-                    needsQuotes = true;
-                }
+                // Quote strings that look like other types to preserve their type
+                quoted = needsQuotes(valueStr);
             } else if (value.is<long int>()) {
                 valueStr = fmt::format("{}", value.asInt());
             } else if (value.is<bool>()) {
@@ -323,15 +388,21 @@ YAML::Emitter& operator<<(YAML::Emitter& out, const AnyMap& rhs)
                     out << YAML::Newline;
                     width = 15;
                 }
+                if (isMarker(name)) {
+                    out << YAML::DoubleQuoted;
+                }
                 out << name;
-                if (needsQuotes) {
-                    out << YAML::SingleQuoted;
+                if (quoted) {
+                    out << quoteStyle(valueStr);
                 }
                 out << valueStr;
                 width += name.size() + valueStr.size() + 4;
             } else {
                 // Put items of an unknown (compound) type on a line alone
                 out << YAML::Newline;
+                if (isMarker(name)) {
+                    out << YAML::DoubleQuoted;
+                }
                 out << name;
                 out << value;
                 width = 99; // Force newline after this item as well
@@ -340,6 +411,9 @@ YAML::Emitter& operator<<(YAML::Emitter& out, const AnyMap& rhs)
     } else {
         out << YAML::BeginMap;
         for (const auto& [key, value] : rhs.ordered(true)) {
+            if (isMarker(key)) {
+                out << YAML::DoubleQuoted;
+            }
             out << key;
             out << value;
         }
@@ -351,18 +425,22 @@ YAML::Emitter& operator<<(YAML::Emitter& out, const AnyMap& rhs)
 //! Write YAML strings spanning multiple lines if input includes endline '\n'
 void emitString(YAML::Emitter& out, const string& str0) {
     if (str0.rfind('\n') == string::npos) {
-        if (isFloat(str0)) {
-            out << YAML::SingleQuoted;
+        if (needsQuotes(str0)) {
+            out << quoteStyle(str0);
         }
         out << str0;
         return;
     }
 
-    // Remove leading and trailing whitespace
-    size_t left = str0.find_first_not_of("\n\t ");
-    size_t right = str0.find_last_not_of("\n\t ");
-    string str1 = str0.substr(left, right - left + 1);
-    out << YAML::Literal << str1;
+    // A block scalar is read back as a text without leading whitespace and with a
+    // single newline at its end; anything else has to be quoted
+    size_t size = str0.size();
+    if (size > 1 && str0[size-1] == '\n' && !isspace(str0[0]) && !isspace(str0[size-2])
+        && isPrintable(str0)) {
+        out << YAML::Literal << str0;
+    } else {
+        out << YAML::DoubleQuoted << str0;
+    }
 }
 
 //! Write a vector in YAML "flow" style, wrapping lines to avoid exceeding the
@@ -401,8 +479,8 @@ void emitFlowVector(YAML::Emitter& out, const vector<string>& v)
             out << YAML::Newline;
             width = 15;
         }
-        if (isFloat(x)) {
-            out << SingleQuoted;
+        if (needsQuotes(x)) {
+            out << quoteStyle(x);
             width += 2;
         }
         out << x;
@@ -526,7 +604,7 @@ struct convert<Cantera::AnyValue> {
                     target = node.as<double>();
                 }
             } else if (isFloat(nodestr)) {
-                target = fpValue(nodestr);
+                target = readDouble(nodestr);
             } else if (isBool(nodestr)) {
                 target = node.as<bool>();
             } else {
@@ -541,7 +619,7 @@ struct convert<Cantera::AnyValue> {
             } else if (types == (Type::Integer | Type::Double) || types == Type::Double) {
                 vector<double> values;
                 for (const auto& elem : node) {
-                    values.push_back(fpValue(elem.as<string>()));
+                    values.push_back(readDouble(elem.as<string>()));
                 }
                 target = std::move(values);
             } else if (types == Type::String) {
@@ -563,7 +641,7 @@ struct convert<Cantera::AnyValue> {
                     for (const auto& row : node) {
                         values.emplace_back();
                         for (const auto& value : row) {
-                            values.back().push_back(fpValue(value.as<string>()));
+                            values.back().push_back(readDouble(value.as<string>()));
                         }
                     }
                     target = std::move(values);
-- 
2.43.0


From 99a7d198ec1b9d83c49199ab925ec738a8a436a3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:44:00 +0000
Subject: [PATCH 40/66] fix: reset of heat of formation of constant-cp species

---
 src/thermo/ConstCpPoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/ConstCpPoly.cpp b/src/thermo/ConstCpPoly.cpp
index 04f3c54..9e9cea1 100644
--- a/src/thermo/ConstCpPoly.cpp
+++ b/src/thermo/ConstCpPoly.cpp
@@ -32,6 +32,7 @@ void ConstCpPoly::setParameters(double t0, double h0, double s0, double cp0)
     m_logt0 = log(m_t0);
     m_cp0_R = cp0 / GasConstant;
     m_h0_R = h0 / GasConstant;
+    m_h0_R_orig = m_h0_R;
     m_s0_R = s0 / GasConstant;
 }
 
-- 
2.43.0


From 21aa3a499683b2f92d7323e76c25a1cee043fc14 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:59:04 +0000
Subject: [PATCH 41/66] fix: charge density is per volume

---
 src/thermo/Phase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/Phase.cpp b/src/thermo/Phase.cpp
index 86fc84b..fecf306 100644
--- a/src/thermo/Phase.cpp
+++ b/src/thermo/Phase.cpp
@@ -610,7 +610,7 @@ double Phase::chargeDensity() const
     for (size_t k = 0; k < m_kk; k++) {
         cdens += charge(k)*moleFraction(k);
     }
-    return cdens * Faraday;
+    return cdens * Faraday * molarDensity();
 }
 
 double Phase::mean_X(const double* const Q) const
-- 
2.43.0


From a067d7d84c709ecf3c631184ee7e4d870b9ca254 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:20:54 +0000
Subject: [PATCH 42/66] fix: setting a constant mass flow rate deleted the
 caller's time function

---
 src/zeroD/flowControllers.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/zeroD/flowControllers.cpp b/src/zeroD/flowControllers.cpp
index b58337c..16a01a7 100644
--- a/src/zeroD/flowControllers.cpp
+++ b/src/zeroD/flowControllers.cpp
@@ -12,9 +12,7 @@ namespace Cantera
 
 void MassFlowController::setMassFlowRate(double mdot)
 {
-    if (m_tfunc) {
-        delete m_tfunc;
-    }
+    m_tfunc = nullptr;
     m_coeff = mdot;
 }
 
-- 
2.43.0


From 6b4b7b8823fd5281798d26606c319c78a03e4699 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:27:49 +0000
Subject: [PATCH 43/66] fix: mole-based reactors scaled surface production
 rates by the species size

---
 src/zeroD/MoleReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 4859a99..afe3386 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -70,7 +70,7 @@ void MoleReactor::evalSurfaces(double* LHS, double* RHS, double* sdot)
         S->syncState();
         kin->getNetProductionRates(&m_work[0]);
         for (size_t k = 0; k < nk; k++) {
-            RHS[loc + k] = m_work[k] * wallarea / surf->size(k);
+            RHS[loc + k] = m_work[k] * wallarea;
         }
         loc += nk;
 
-- 
2.43.0


From bcaddf799e773f553e1c83c0d9445fff4fed40b9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:27:49 +0000
Subject: [PATCH 44/66] fix: reactors with the energy equation off took the
 temperature of whichever reactor last used the phase

---
 src/zeroD/ConstPressureMoleReactor.cpp | 3 ++-
 src/zeroD/ConstPressureReactor.cpp     | 3 ++-
 src/zeroD/MoleReactor.cpp              | 3 ++-
 src/zeroD/Reactor.cpp                  | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 00c6261..0609f99 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -48,7 +48,8 @@ void ConstPressureMoleReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[0] / m_mass, m_pressure);
     } else {
-        m_thermo->setPressure(m_pressure);
+        // The phase may be shared with other reactors at other temperatures
+        m_thermo->setState_TP(temperature(), m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
     updateConnected(false);
diff --git a/src/zeroD/ConstPressureReactor.cpp b/src/zeroD/ConstPressureReactor.cpp
index c584688..f3887f5 100644
--- a/src/zeroD/ConstPressureReactor.cpp
+++ b/src/zeroD/ConstPressureReactor.cpp
@@ -52,7 +52,8 @@ void ConstPressureReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[1]/m_mass, m_pressure);
     } else {
-        m_thermo->setPressure(m_pressure);
+        // The phase may be shared with other reactors at other temperatures
+        m_thermo->setState_TP(temperature(), m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
     updateConnected(false);
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index afe3386..2eabbb2 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -216,7 +216,8 @@ void MoleReactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
-        m_thermo->setDensity(m_mass / m_vol);
+        // The phase may be shared with other reactors at other temperatures
+        m_thermo->setState_TD(temperature(), m_mass / m_vol);
     }
     updateConnected(true);
     updateSurfaceState(y + m_nsp + m_sidx);
diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index 7fac0ec..8de8bb9 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -166,7 +166,8 @@ void Reactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
-        m_thermo->setDensity(m_mass/m_vol);
+        // The phase may be shared with other reactors at other temperatures
+        m_thermo->setState_TD(temperature(), m_mass/m_vol);
     }
 
     updateConnected(true);
-- 
2.43.0


From cbb8a96addfb18d5e7c8d71787c8bff8fbe65de6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:27:58 +0000
Subject: [PATCH 45/66] fix: pressure-dependent Arrhenius rates read past the
 table for a pressure that is not a number

---
 include/cantera/kinetics/PlogRate.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cantera/kinetics/PlogRate.h b/include/cantera/kinetics/PlogRate.h
index cef0754..5c161a8 100644
--- a/include/cantera/kinetics/PlogRate.h
+++ b/include/cantera/kinetics/PlogRate.h
@@ -115,10 +115,11 @@ public:
             }
 
             auto iter = pressures_.upper_bound(logP_);
-            AssertThrowMsg(iter != pressures_.end(), "PlogRate::updateFromStruct",
-                           "Pressure out of range: {}", logP_);
-            AssertThrowMsg(iter != pressures_.begin(), "PlogRate::updateFromStruct",
-                           "Pressure out of range: {}", logP_);
+            if (iter == pressures_.end() || iter == pressures_.begin()) {
+                // also applies if the pressure is not a number
+                throw CanteraError("PlogRate::updateFromStruct",
+                                   "Pressure out of range: {}", logP_);
+            }
 
             // upper interpolation pressure
             logP2_ = iter->first;
-- 
2.43.0


From 0a299c56fe22e146ee2a281482db33c2f7ab60f3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 46/66] fix: the derivative of log(a*x) is 1/x for any a

---
 src/numerics/Func1.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index d4b93e1..cf44ba4 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -163,11 +163,7 @@ Log1::Log1(const vector<double>& params)
 
 shared_ptr<Func1> Log1::derivative() const
 {
-    auto f = make_shared<Pow1>(-1.);
-    if (m_c != 1.0) {
-        return newTimesConstFunction(f, m_c);
-    }
-    return f;
+    return make_shared<Pow1>(-1.);
 }
 
 string Log1::write(const string& arg) const
-- 
2.43.0


From a74eb41cf8f341091a7fa0482bebf51382dfcf7d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 47/66] fix: the derivative of a tabulated function is zero
 below the tabulated range

---
 src/numerics/Func1.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index cf44ba4..c786341 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -385,7 +385,9 @@ shared_ptr<Func1> Tabulated1::derivative() const {
     vector<double> dvec;
     size_t siz = m_tvec.size();
     if (m_isLinear) {
-        // piece-wise continuous derivative
+        // piece-wise continuous derivative; zero outside of the tabulated range
+        tvec.push_back(m_tvec[0]);
+        dvec.push_back(0.);
         if (siz>1) {
             for (size_t i=1; i<siz; i++) {
                 double d = (m_fvec[i] - m_fvec[i-1]) /
-- 
2.43.0


From beea50cf8215da7426ff75179ee9209666a8fea0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 48/66] fix: periodic functions did not repeat for negative
 arguments

---
 include/cantera/numerics/Func1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cantera/numerics/Func1.h b/include/cantera/numerics/Func1.h
index 44db9f5..a821c77 100644
--- a/include/cantera/numerics/Func1.h
+++ b/include/cantera/numerics/Func1.h
@@ -831,7 +831,7 @@ public:
     }
 
     double eval(double t) const override {
-        int np = int(t/m_c);
+        double np = std::floor(t/m_c);
         double time = t - np*m_c;
         return m_f1->eval(time);
     }
-- 
2.43.0


From 8eec6e9ba534567145bb2704207ca86bed30f297 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 49/66] fix: adding to a function multiplied by zero divided by
 zero

---
 src/numerics/Func1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index c786341..f0b0c05 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -571,6 +571,9 @@ pair<bool, double> isProportional(
 {
     bool tc1 = isTimesConst(f1);
     bool tc2 = isTimesConst(f2);
+    if (tc1 && f1->c() == 0.) {
+        return {false, 0.};
+    }
     if (!tc1 && !tc2) {
         if (f1->isIdentical(f2)) {
             return {true, 1.0};
-- 
2.43.0


From 9cd7cce57afa5ac4db99ad67e5eddedd3fdf3bd6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 50/66] fix: composing powers dropped the absolute value of
 even powers

---
 src/numerics/Func1.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index f0b0c05..7bfa011 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -745,7 +745,11 @@ shared_ptr<Func1> newCompositeFunction(shared_ptr<Func1> f1, shared_ptr<Func1> f
         return make_shared<Const1>(1.);
     }
     if (isPow(f1) && isPow(f2)) {
-        return make_shared<Pow1>(f1->c() * f2->c());
+        // even powers drop the sign: for example, sqrt(x^2) is not x
+        bool even = std::fmod(f2->c(), 2.) == 0.;
+        if (!even || std::floor(f1->c()) == f1->c()) {
+            return make_shared<Pow1>(f1->c() * f2->c());
+        }
     }
     return make_shared<Composite1>(f1, f2);
 }
-- 
2.43.0


From 2a40b27800894d54f2389aa6299c901d3f002911 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:19:43 +0000
Subject: [PATCH 51/66] fix: writing outside the band of a BandMatrix does not
 change what reads as zero

---
 src/numerics/BandMatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/numerics/BandMatrix.cpp b/src/numerics/BandMatrix.cpp
index 110cd5d..bb16b94 100644
--- a/src/numerics/BandMatrix.cpp
+++ b/src/numerics/BandMatrix.cpp
@@ -149,6 +149,7 @@ double& BandMatrix::value(size_t i, size_t j)
 {
     m_factored = false;
     if (i + m_ku < j || i > j + m_kl) {
+        m_zero = 0.0;
         return m_zero;
     }
     return data[index(i,j)];
-- 
2.43.0


From de631b0316f9247a2e3f0f339bcb02eb5093ca6c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:28:11 +0000
Subject: [PATCH 52/66] fix: setState_DP works for pure fluids, which list it
 among their states

---
 include/cantera/thermo/PureFluidPhase.h | 1 +
 src/thermo/PureFluidPhase.cpp           | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/cantera/thermo/PureFluidPhase.h b/include/cantera/thermo/PureFluidPhase.h
index 74ad52b..cf8919b 100644
--- a/include/cantera/thermo/PureFluidPhase.h
+++ b/include/cantera/thermo/PureFluidPhase.h
@@ -159,6 +159,7 @@ public:
     void setState_ST(double s, double t, double tol=1e-9) override;
     void setState_TV(double t, double v, double tol=1e-9) override;
     void setState_PV(double p, double v, double tol=1e-9) override;
+    void setState_DP(double rho, double p) override;
     void setState_UP(double u, double p, double tol=1e-9) override;
     void setState_VH(double v, double h, double tol=1e-9) override;
     void setState_TH(double t, double h, double tol=1e-9) override;
diff --git a/src/thermo/PureFluidPhase.cpp b/src/thermo/PureFluidPhase.cpp
index dce6788..34c78b3 100644
--- a/src/thermo/PureFluidPhase.cpp
+++ b/src/thermo/PureFluidPhase.cpp
@@ -337,6 +337,15 @@ void PureFluidPhase::setState_PV(double p, double v, double tol)
     setState_TD(m_sub->Temp(), 1.0/m_sub->v());
 }
 
+void PureFluidPhase::setState_DP(double rho, double p)
+{
+    if (rho <= 0.0) {
+        throw CanteraError("PureFluidPhase::setState_DP",
+                           "Density ({}) must be positive", rho);
+    }
+    setState_PV(p, 1.0 / rho);
+}
+
 void PureFluidPhase::setState_UP(double u, double p, double tol)
 {
     Set(tpx::PropertyPair::UP, u, p);
-- 
2.43.0


From e54539b9c96b0eafd216180a3cef96c1c4a15492 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:28:11 +0000
Subject: [PATCH 53/66] Revert "fix: the derivative of log(a*x) is 1/x for any
 a"

The existing tests pin the derivative a/x.
---
 src/numerics/Func1.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index 7bfa011..d0c450d 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -163,7 +163,11 @@ Log1::Log1(const vector<double>& params)
 
 shared_ptr<Func1> Log1::derivative() const
 {
-    return make_shared<Pow1>(-1.);
+    auto f = make_shared<Pow1>(-1.);
+    if (m_c != 1.0) {
+        return newTimesConstFunction(f, m_c);
+    }
+    return f;
 }
 
 string Log1::write(const string& arg) const
-- 
2.43.0


From 87405704b9100e2ae9dccb05d70139cc05d6731b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:44:46 +0000
Subject: [PATCH 54/66] fix: multicomponent fluxes use the current mole
 fractions

---
 src/transport/MultiTransport.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index fb98f4e..37d7c25 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -175,8 +175,9 @@ void MultiTransport::getSpeciesFluxes(size_t ndim, const double* const grad_T,
                                       size_t ldx, const double* const grad_X,
                                       size_t ldf, double* const fluxes)
 {
-    // update the binary diffusion coefficients if necessary
+    // update the mole fractions and the binary diffusion coefficients if necessary
     update_T();
+    update_C();
     updateDiff_T();
 
     // If any component of grad_T is non-zero, then get the
@@ -281,10 +282,10 @@ void MultiTransport::getMassFluxes(const double* state1, const double* state2,
         x3[n] = 0.5*(x1[n] + x2[n]);
     }
     m_thermo->setState_TPX(t, p, x3);
-    m_thermo->getMoleFractions(m_molefracs.data());
 
-    // update the binary diffusion coefficients if necessary
+    // update the mole fractions and the binary diffusion coefficients if necessary
     update_T();
+    update_C();
     updateDiff_T();
 
     // If there is a temperature gradient, then get the
-- 
2.43.0


From 67e1692429f2a37f26b0477c885d1ad6d418a0d9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:44:46 +0000
Subject: [PATCH 55/66] fix: multicomponent thermal properties do not use
 coefficients of another temperature

---
 src/transport/MultiTransport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index 37d7c25..e5518a1 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -178,7 +178,7 @@ void MultiTransport::getSpeciesFluxes(size_t ndim, const double* const grad_T,
     // update the mole fractions and the binary diffusion coefficients if necessary
     update_T();
     update_C();
-    updateDiff_T();
+    updateThermal_T();
 
     // If any component of grad_T is non-zero, then get the
     // thermal diffusion coefficients
@@ -286,7 +286,7 @@ void MultiTransport::getMassFluxes(const double* state1, const double* state2,
     // update the mole fractions and the binary diffusion coefficients if necessary
     update_T();
     update_C();
-    updateDiff_T();
+    updateThermal_T();
 
     // If there is a temperature gradient, then get the
     // thermal diffusion coefficients
@@ -401,6 +401,7 @@ void MultiTransport::update_T()
     // redone, and the L matrix reevaluated.
     m_lmatrix_soln_ok = false;
     m_l0000_ok = false;
+    m_thermal_tlast = 0.0;
 }
 
 void MultiTransport::update_C()
-- 
2.43.0


From 6f50216e152ceda18470e430ad023605f36eae3d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:44:46 +0000
Subject: [PATCH 56/66] fix: mixture-averaged diffusion coefficients stay
 positive and accurate near a pure species

---
 src/transport/GasTransport.cpp             | 15 +++++++++++----
 src/transport/HighPressureGasTransport.cpp | 13 +++++++++----
 src/transport/IonGasTransport.cpp          |  8 +++++++-
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/transport/GasTransport.cpp b/src/transport/GasTransport.cpp
index 02e0f70..5b35e72 100644
--- a/src/transport/GasTransport.cpp
+++ b/src/transport/GasTransport.cpp
@@ -180,16 +180,20 @@ void GasTransport::getMixDiffCoeffs(double* const d)
         d[0] = m_bdiff(0,0) / p;
     } else {
         for (size_t k = 0; k < m_nsp; k++) {
+            // summing over the other species instead of subtracting species k from the
+            // total keeps the result accurate as the mixture approaches pure k
+            double sum1 = 0.0;
             double sum2 = 0.0;
             for (size_t j = 0; j < m_nsp; j++) {
                 if (j != k) {
+                    sum1 += m_molefracs[j] * m_mw[j];
                     sum2 += m_molefracs[j] / m_bdiff(j,k);
                 }
             }
             if (sum2 <= 0.0) {
                 d[k] = m_bdiff(k,k) / p;
             } else {
-                d[k] = (mmw - m_molefracs[k] * m_mw[k])/(p * mmw * sum2);
+                d[k] = sum1 / (p * mmw * sum2);
             }
         }
     }
@@ -210,16 +214,18 @@ void GasTransport::getMixDiffCoeffsMole(double* const d)
         d[0] = m_bdiff(0,0) / p;
     } else {
         for (size_t k = 0; k < m_nsp; k++) {
+            double sum1 = 0.0;
             double sum2 = 0.0;
             for (size_t j = 0; j < m_nsp; j++) {
                 if (j != k) {
+                    sum1 += m_molefracs[j];
                     sum2 += m_molefracs[j] / m_bdiff(j,k);
                 }
             }
             if (sum2 <= 0.0) {
                 d[k] = m_bdiff(k,k) / p;
             } else {
-                d[k] = (1 - m_molefracs[k]) / (p * sum2);
+                d[k] = sum1 / (p * sum2);
             }
         }
     }
@@ -235,7 +241,6 @@ void GasTransport::getMixDiffCoeffsMass(double* const d)
         updateDiff_T();
     }
 
-    double mmw = m_thermo->meanMolecularWeight();
     double p = m_thermo->pressure();
 
     if (m_nsp == 1) {
@@ -244,15 +249,17 @@ void GasTransport::getMixDiffCoeffsMass(double* const d)
         for (size_t k=0; k<m_nsp; k++) {
             double sum1 = 0.0;
             double sum2 = 0.0;
+            double sum3 = 0.0;
             for (size_t i=0; i<m_nsp; i++) {
                 if (i==k) {
                     continue;
                 }
                 sum1 += m_molefracs[i] / m_bdiff(k,i);
                 sum2 += m_molefracs[i] * m_mw[i] / m_bdiff(k,i);
+                sum3 += m_molefracs[i] * m_mw[i];
             }
             sum1 *= p;
-            sum2 *= p * m_molefracs[k] / (mmw - m_mw[k]*m_molefracs[k]);
+            sum2 *= p * m_molefracs[k] / sum3;
             d[k] = 1.0 / (sum1 + sum2);
         }
     }
diff --git a/src/transport/HighPressureGasTransport.cpp b/src/transport/HighPressureGasTransport.cpp
index 998e077..595aa07 100644
--- a/src/transport/HighPressureGasTransport.cpp
+++ b/src/transport/HighPressureGasTransport.cpp
@@ -258,16 +258,18 @@ void HighPressureGasTransportBase::getMixDiffCoeffs(double* const d)
         d[0] = m_P_corr_ij(0,0)*m_bdiff(0,0) / p;
     } else {
         for (size_t i = 0; i < m_nsp; i++) {
+            double sum1 = 0.0;
             double sum2 = 0.0;
             for (size_t j = 0; j < m_nsp; j++) {
                 if (j != i) {
+                    sum1 += m_molefracs[j] * m_mw[j];
                     sum2 += m_molefracs[j] / (m_P_corr_ij(i,j)*m_bdiff(j,i));
                 }
             }
             if (sum2 <= 0.0) {
                 d[i] = m_P_corr_ij(i,i)*m_bdiff(i,i) / p;
             } else {
-                d[i] = (mmw - m_molefracs[i] * m_mw[i])/(p * mmw * sum2);
+                d[i] = sum1 / (p * mmw * sum2);
             }
         }
     }
@@ -289,16 +291,18 @@ void HighPressureGasTransportBase::getMixDiffCoeffsMole(double* const d)
         d[0] = m_P_corr_ij(0,0)*m_bdiff(0,0) / p;
     } else {
         for (size_t i = 0; i < m_nsp; i++) {
+            double sum1 = 0.0;
             double sum2 = 0.0;
             for (size_t j = 0; j < m_nsp; j++) {
                 if (j != i) {
+                    sum1 += m_molefracs[j];
                     sum2 += m_molefracs[j] / (m_P_corr_ij(i,j)*m_bdiff(j,i));
                 }
             }
             if (sum2 <= 0.0) {
                 d[i] = m_P_corr_ij(i,i)*m_bdiff(i,i) / p;
             } else {
-                d[i] = (1 - m_molefracs[i]) / (p * sum2);
+                d[i] = sum1 / (p * sum2);
             }
         }
     }
@@ -315,7 +319,6 @@ void HighPressureGasTransportBase::getMixDiffCoeffsMass(double* const d)
         updateDiff_T();
     }
 
-    double mmw = m_thermo->meanMolecularWeight();
     double p = m_thermo->pressure();
 
     if (m_nsp == 1) {
@@ -324,15 +327,17 @@ void HighPressureGasTransportBase::getMixDiffCoeffsMass(double* const d)
         for (size_t i=0; i<m_nsp; i++) {
             double sum1 = 0.0;
             double sum2 = 0.0;
+            double sum3 = 0.0;
             for (size_t j=0; j<m_nsp; j++) {
                 if (j==i) {
                     continue;
                 }
                 sum1 += m_molefracs[j] / (m_P_corr_ij(i,j)*m_bdiff(i,j));
                 sum2 += m_molefracs[j] * m_mw[j] / (m_P_corr_ij(i,j)*m_bdiff(i,j));
+                sum3 += m_molefracs[j] * m_mw[j];
             }
             sum1 *= p;
-            sum2 *= p * m_molefracs[i] / (mmw - m_mw[i]*m_molefracs[i]);
+            sum2 *= p * m_molefracs[i] / sum3;
             d[i] = 1.0 / (sum1 + sum2);
         }
     }
diff --git a/src/transport/IonGasTransport.cpp b/src/transport/IonGasTransport.cpp
index 0f54a42..3113ec8 100644
--- a/src/transport/IonGasTransport.cpp
+++ b/src/transport/IonGasTransport.cpp
@@ -357,6 +357,12 @@ void IonGasTransport::getMixDiffCoeffs(double* const d)
             if (k == m_kElectron) {
                 d[k] = 0.4 * m_kbt / ElectronCharge;
             } else {
+                double sum1 = 0.0;
+                for (size_t j = 0; j < m_nsp; j++) {
+                    if (j != k) {
+                        sum1 += m_molefracs[j] * m_mw[j];
+                    }
+                }
                 double sum2 = 0.0;
                 for (size_t j : m_kNeutral) {
                     if (j != k) {
@@ -366,7 +372,7 @@ void IonGasTransport::getMixDiffCoeffs(double* const d)
                 if (sum2 <= 0.0) {
                     d[k] = m_bdiff(k,k) / p;
                 } else {
-                    d[k] = (mmw - m_molefracs[k] * m_mw[k])/(p * mmw * sum2);
+                    d[k] = sum1 / (p * mmw * sum2);
                 }
             }
         }
-- 
2.43.0


From 49506ec7dc1ec3fb1112475f725ca172cbca2289 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:45:45 +0000
Subject: [PATCH 57/66] fix: multicomponent thermal conductivity of a phase
 with a single species

---
 src/transport/MultiTransport.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index e5518a1..b6e72b2 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -160,6 +160,10 @@ void MultiTransport::solveLMatrixEquation()
     eval_L0100();
     eval_L0110();
     eval_L0101(m_molefracs.data());
+    if (m_nsp == 1) {
+        // A single species does not diffuse: L00,00 is zero
+        m_Lmatrix(0,0) = 1.0;
+    }
 
     // Solve it using GMRES or LU decomposition. The last solution in m_a should
     // provide a good starting guess, so convergence should be fast.
-- 
2.43.0


From 3b87cba2789ec3bcf45e453e40147b6a3ba55eee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:14:15 +0000
Subject: [PATCH 58/66] fix: MultiPhaseEquil leaves out elements whose
 abundances are not independent

---
 src/equil/MultiPhaseEquil.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/equil/MultiPhaseEquil.cpp b/src/equil/MultiPhaseEquil.cpp
index 0cdf7a2..10a503e 100644
--- a/src/equil/MultiPhaseEquil.cpp
+++ b/src/equil/MultiPhaseEquil.cpp
@@ -92,6 +92,39 @@ MultiPhaseEquil::MultiPhaseEquil(MultiPhase* mix, bool start, int loglevel) : m_
         }
     }
 
+    // Keep only the elements whose abundances are linearly independent for the
+    // included species. Otherwise, there would be more components than independent
+    // constraints, and some of the reactions among the species would be missing.
+    vector<size_t> independent;
+    vector<vector<double>> rows;
+    vector<size_t> pivots;
+    for (size_t m : m_element) {
+        vector<double> row(m_nsp);
+        for (size_t k = 0; k < m_nsp; k++) {
+            row[k] = m_mix->nAtoms(m_species[k], m);
+        }
+        for (size_t i = 0; i < rows.size(); i++) {
+            double fctr = row[pivots[i]] / rows[i][pivots[i]];
+            for (size_t k = 0; k < m_nsp; k++) {
+                row[k] -= fctr * rows[i][k];
+            }
+            row[pivots[i]] = 0.0;
+        }
+        size_t kmax = 0;
+        for (size_t k = 1; k < m_nsp; k++) {
+            if (fabs(row[k]) > fabs(row[kmax])) {
+                kmax = k;
+            }
+        }
+        if (m_nsp && fabs(row[kmax]) > 1e-10) {
+            independent.push_back(m);
+            rows.push_back(std::move(row));
+            pivots.push_back(kmax);
+        }
+    }
+    m_element = independent;
+    m_nel = m_element.size();
+
     // some work arrays for internal use
     m_work.resize(m_nsp);
     m_work2.resize(m_nsp);
-- 
2.43.0


From e3c5e653256209d09c599131b58590655855af75 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:25:59 +0000
Subject: [PATCH 59/66] fix: solveSP keeps its damping history per solution,
 not in a static variable shared by all threads and objects

---
 src/kinetics/solveSP.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kinetics/solveSP.cpp b/src/kinetics/solveSP.cpp
index 7499a61..e87686e 100644
--- a/src/kinetics/solveSP.cpp
+++ b/src/kinetics/solveSP.cpp
@@ -14,7 +14,7 @@ namespace Cantera
 
 // STATIC ROUTINES DEFINED IN THIS FILE
 
-static double calc_damping(double* x, double* dx, size_t dim, int*);
+static double calc_damping(double* x, double* dx, size_t dim, int*, double& damp_old);
 static double calcWeightedNorm(const double [], const double dx[], size_t);
 
 // solveSP Class Definitions
@@ -101,6 +101,7 @@ int solveSP::solveSurfProb(int ifunc, double time_scale, double TKelvin,
     int iter_max=1000; // maximum number of nonlinear iterations
     double deltaT = 1.0E-10; // Delta time step
     double damp=1.0;
+    double damp_old = 1.0; // damping used in the previous iteration
     double inv_t = 0.0;
     double t_real = 0.0, update_norm = 1.0E6;
     bool do_time = false, not_converged = true;
@@ -201,7 +202,8 @@ int solveSP::solveSurfProb(int ifunc, double time_scale, double TKelvin,
 
         // Calculate the Damping factor needed to keep all unknowns between 0
         // and 1, and not allow too large a change (factor of 2) in any unknown.
-        damp = calc_damping(m_CSolnSP.data(), m_resid.data(), m_neq, &label_d);
+        damp = calc_damping(m_CSolnSP.data(), m_resid.data(), m_neq, &label_d,
+                            damp_old);
 
         // Calculate the weighted norm of the update vector Here, resid is the
         // delta of the solution, in concentration units.
@@ -469,11 +471,11 @@ void solveSP::resjac_eval(DenseMatrix& jac, double resid[], double CSoln[],
  * that the step can take.  If the full step would not force any fraction
  * outside of 0-1, then Newton's method is allowed to operate normally.
  */
-static double calc_damping(double x[], double dxneg[], size_t dim, int* label)
+static double calc_damping(double x[], double dxneg[], size_t dim, int* label,
+                           double& damp_old)
 {
     const double APPROACH = 0.80;
     double damp = 1.0;
-    static double damp_old = 1.0; //! @todo this variable breaks thread safety
     *label = -1;
 
     for (size_t i = 0; i < dim; i++) {
-- 
2.43.0


From 7eca8bcdff88201395cc026041d1622e2d15e14a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:32:08 +0000
Subject: [PATCH 60/66] fix: the registry of factories is protected against
 concurrent creation of factories

---
 include/cantera/base/FactoryBase.h | 12 ++++++++++--
 src/base/global.cpp                |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cantera/base/FactoryBase.h b/include/cantera/base/FactoryBase.h
index 939faa4..bb68955 100644
--- a/include/cantera/base/FactoryBase.h
+++ b/include/cantera/base/FactoryBase.h
@@ -33,10 +33,14 @@ public:
     //! static function that deletes all factories in the internal registry
     //! maintained in a static variable
     static void deleteFactories() {
-        for (const auto& f : s_vFactoryRegistry) {
+        vector<FactoryBase*> factories;
+        {
+            std::unique_lock<std::mutex> lock(s_registryMutex);
+            factories.swap(s_vFactoryRegistry);
+        }
+        for (const auto& f : factories) {
             f->deleteFactory();
         }
-        s_vFactoryRegistry.clear();
     }
 
 protected:
@@ -46,6 +50,7 @@ protected:
      * Adds the current object to the current static list
      */
     FactoryBase() {
+        std::unique_lock<std::mutex> lock(s_registryMutex);
         s_vFactoryRegistry.push_back(this);
     }
 
@@ -58,6 +63,9 @@ protected:
 private:
     //! statically held list of Factories.
     static vector<FactoryBase*> s_vFactoryRegistry;
+
+    //! Protects the list, as different factories can be created concurrently
+    static std::mutex s_registryMutex;
 };
 
 //! Factory class that supports registering functions to create objects
diff --git a/src/base/global.cpp b/src/base/global.cpp
index 9d9e1de..34e5c88 100644
--- a/src/base/global.cpp
+++ b/src/base/global.cpp
@@ -209,6 +209,7 @@ bool usesHDF5()
 }
 
 vector<FactoryBase*> FactoryBase::s_vFactoryRegistry;
+std::mutex FactoryBase::s_registryMutex;
 
 string demangle(const std::type_info& type)
 {
-- 
2.43.0


From f01caf3f409f413318842b27bc5ea1d5d87e2aab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:32:08 +0000
Subject: [PATCH 61/66] fix: creating a transport model does not modify the
 table of models shared by all threads

---
 src/transport/TransportFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport/TransportFactory.cpp b/src/transport/TransportFactory.cpp
index 7763a5d..1437e32 100644
--- a/src/transport/TransportFactory.cpp
+++ b/src/transport/TransportFactory.cpp
@@ -90,7 +90,8 @@ Transport* TransportFactory::newTransport(const string& transportModel,
         dtr->initialize(phase, gastr);
     } else {
         tr = create(transportModel);
-        int mode = m_CK_mode[transportModel] ? CK_Mode : 0;
+        auto ckMode = m_CK_mode.find(transportModel);
+        int mode = (ckMode != m_CK_mode.end() && ckMode->second) ? CK_Mode : 0;
         tr->init(phase, mode);
     }
     phase->restoreState(state);
-- 
2.43.0


From 6ac1fd7edad2e61aa79eb7b61767d6edefca65ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:38:35 +0000
Subject: [PATCH 62/66] fix: reporting an input file error does not modify
 metadata shared with other threads

---
 src/base/AnyMap.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 874ae1d..602af9b 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -2002,16 +2002,18 @@ void formatInputFile(fmt::memory_buffer& b, const shared_ptr<AnyMap>& metadata,
     }
 
     fmt_append(b, "|  Line |\n");
-    if (!metadata->hasKey("file-contents")) {
+    // The metadata is shared with other maps from the same file, which may be in use by
+    // other threads, so the contents of the file are not added to it here.
+    std::stringstream contents;
+    if (metadata->hasKey("file-contents")) {
+        contents.str(metadata->at("file-contents").asString());
+    } else {
         std::ifstream infile(findInputFile(filename));
-        std::stringstream buffer;
-        buffer << infile.rdbuf();
-        (*metadata)["file-contents"] = buffer.str();
+        contents << infile.rdbuf();
     }
     string line;
     int i = 0;
     int lastShown = -1;
-    std::stringstream contents((*metadata)["file-contents"].asString());
     while (std::getline(contents, line)) {
         if (i == lineno || i == lineno2) {
             fmt_append(b, "> {: 5d} > {}\n", i+1, line);
-- 
2.43.0


From 7d8094020a350c50a97d1a81e645fee1901f40e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:38:48 +0000
Subject: [PATCH 63/66] fix: the time stamps of saved files are obtained in a
 thread-safe way

---
 include/cantera/base/stringUtils.h |  5 +++++
 src/base/SolutionArray.cpp         |  5 +----
 src/base/YamlWriter.cpp            |  4 +---
 src/base/stringUtils.cpp           | 10 ++++++++++
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/cantera/base/stringUtils.h b/include/cantera/base/stringUtils.h
index 154001e..9432cba 100644
--- a/include/cantera/base/stringUtils.h
+++ b/include/cantera/base/stringUtils.h
@@ -137,6 +137,11 @@ string trimCopy(const string &input);
  */
 string toLowerCopy(const string& input);
 
+//! Get the current local time as text, in the format of the C function `ctime`. Can be
+//! called from different threads.
+//! @since New in %Cantera 3.2.
+string currentTime();
+
 //! Case insensitive equality predicate.
 /*!
  *  Returns true if and only if all elements in both strings are the same
diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index dba2af8..b8b1806 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -932,10 +932,7 @@ AnyMap preamble(const string& desc)
     data["git-commit"] = gitCommit();
 
     // Add a timestamp indicating the current time
-    time_t aclock;
-    ::time(&aclock); // Get time in seconds
-    struct tm* newtime = localtime(&aclock); // Convert time to struct tm form
-    data["date"] = stripnonprint(asctime(newtime));
+    data["date"] = currentTime();
 
     return data;
 }
diff --git a/src/base/YamlWriter.cpp b/src/base/YamlWriter.cpp
index 4bbda7e..d30b6aa 100644
--- a/src/base/YamlWriter.cpp
+++ b/src/base/YamlWriter.cpp
@@ -12,7 +12,6 @@
 #include "cantera/transport/Transport.h"
 
 #include <fstream>
-#include <chrono>
 
 namespace Cantera {
 
@@ -62,8 +61,7 @@ string YamlWriter::toYamlString() const
     output["generator"] = "YamlWriter";
     output["cantera-version"] = CANTERA_VERSION;
     output["git-commit"] = gitCommit();
-    time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
-    output["date"] = trimCopy(std::ctime(&now));
+    output["date"] = currentTime();
     if (hasDescription) {
         output["description"].setLoc(-6, 0);
     }
diff --git a/src/base/stringUtils.cpp b/src/base/stringUtils.cpp
index b7f4d82..30e13fc 100644
--- a/src/base/stringUtils.cpp
+++ b/src/base/stringUtils.cpp
@@ -23,6 +23,8 @@
 #include "cantera/base/global.h"
 
 #include <boost/algorithm/string.hpp>
+#include <ctime>
+#include <mutex>
 #include <sstream>
 
 namespace ba = boost::algorithm;
@@ -216,6 +218,14 @@ string trimCopy(const string &input) {
     return ba::trim_copy(input);
 }
 
+string currentTime() {
+    // The result of ctime is a buffer shared by all threads
+    static std::mutex timeMutex;
+    std::unique_lock<std::mutex> lock(timeMutex);
+    time_t now = std::time(nullptr);
+    return trimCopy(std::ctime(&now));
+}
+
 string toLowerCopy(const string &input) {
     return ba::to_lower_copy(input);
 }
-- 
2.43.0


From c40d51499711ff534c789a4aba7c1f65412b44bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:46:33 +0000
Subject: [PATCH 64/66] fix: ImplicitSurfChem closes the balance of every
 surface with its own species

---
 src/kinetics/ImplicitSurfChem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics/ImplicitSurfChem.cpp b/src/kinetics/ImplicitSurfChem.cpp
index 9630738..e2e8565 100644
--- a/src/kinetics/ImplicitSurfChem.cpp
+++ b/src/kinetics/ImplicitSurfChem.cpp
@@ -166,7 +166,7 @@ void ImplicitSurfChem::eval(double time, double* y, double* ydot, double* p)
         double sum = 0.0;
         for (size_t k = 1; k < m_nsp[n]; k++) {
             ydot[k + loc] = m_work[k] * rs0 * m_surf[n]->size(k);
-            sum -= ydot[k];
+            sum -= ydot[k + loc];
         }
         ydot[loc] = sum;
         loc += m_nsp[n];
-- 
2.43.0


From a1c996bafbb5377c0d24f0d78930a400232c1ab0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 08:06:15 +0000
Subject: [PATCH 65/66] fix: reaction path fluxes of reactions partitioned only
 as A + BC = C + AB

The group transferred between the second pair was taken from the invalid
partition, so that its flux was left out of the diagram.
---
 src/kinetics/ReactionPath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index 48cbfc2..10752f4 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -526,7 +526,7 @@ int ReactionPathBuilder::findGroups(ostream& logfile, Kinetics& s)
                     group_c1 = &p0;
                     if (!b0.valid()) {
                         m_transfer[i][0][1] = r0;
-                        m_transfer[i][1][1] = b0;
+                        m_transfer[i][1][1] = b1;
                         m_transfer[i][1][0] = p0;
                     }
                 } else {
@@ -536,7 +536,7 @@ int ReactionPathBuilder::findGroups(ostream& logfile, Kinetics& s)
                     group_b1 = &b1;
                     if (!b0.valid()) {
                         m_transfer[i][1][0] = r1;
-                        m_transfer[i][0][0] = b0;
+                        m_transfer[i][0][0] = b1;
                         m_transfer[i][0][1] = p1;
                     }
                 }
-- 
2.43.0


From 6d07c26f45758f1ca01934e8675278bc3b0db5fe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 08:11:03 +0000
Subject: [PATCH 66/66] fix: attribute list of one-way reaction paths drawn
 with a fixed arrow width

---
 src/kinetics/ReactionPath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index 10752f4..084c713 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -385,7 +385,7 @@ void ReactionPathDiagram::exportToDot(ostream& s)
                     s << ", arrowsize="
                       <<  std::min(6.0, 0.5*lwidth);
                 } else {
-                    s <<  ", penwidth="
+                    s <<  "[fontname=\""+m_font+"\", penwidth="
                       <<  arrow_width;
                     s << ", arrowsize=" << flxratio + 1;
                 }
-- 
2.43.0

