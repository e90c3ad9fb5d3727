From a22b6dc9889819ffcc79cb0cf4922dd8aa829fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 01/52] fix: Interpolate1D above the table and at its last
 point

Extrapolation above the table used the second-to-last abscissa with the last
ordinate (a jump of one interval), and a query equal to the last sample point
fell through to the first interval.
---
 Source/Tools/Numerics.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 444fac7..96bd2a9 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -37,12 +37,13 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 		// value is not within the range so we need to use extrapolation
 		int end = sampleSize - 1;
 		queryData = sampleData[end] + (sampleData[end] - sampleData[end-1]) 
-									  * ((queryPoint - samplePoints[end-1])
+									  * ((queryPoint - samplePoints[end])
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
 	{
-		int lIndex(0), hIndex(1);
-		for (unsigned int i = 0; i < sampleSize; i++)
+		// the last point itself belongs to the last interval
+		int lIndex(sampleSize - 2), hIndex(sampleSize - 1);
+		for (unsigned int i = 1; i < sampleSize; i++)
 		{
 			if (queryPoint < samplePoints[i])
 			{
-- 
2.43.0


From c6970c0c9858e2f01447d76e8249657764aed523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 02/52] fix: ClosestPoints accepts the last interval of the
 table

The last valid interval was rejected as out of range and ended the program.
---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 96bd2a9..1c00b99 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -101,7 +101,7 @@ void Numerics::ClosestPoints(double* samplePoints, unsigned int sampleSize,
 			break;
 		}
 	}
-	if (lowIndex < sampleSize - 2)
+	if (lowIndex < sampleSize - 1)
 	{
 		frac = (queryPoint - samplePoints[lowIndex]) / (samplePoints[lowIndex+1]
 			- samplePoints[lowIndex]);
-- 
2.43.0


From 87128555f203bb6a357961cc17d08ceb8cb893c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 03/52] fix: identity matrix clears its other elements

---
 Source/Tools/ThreeMatrix.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Tools/ThreeMatrix.hh b/Source/Tools/ThreeMatrix.hh
index 1848278..9ac46bd 100644
--- a/Source/Tools/ThreeMatrix.hh
+++ b/Source/Tools/ThreeMatrix.hh
@@ -34,6 +34,7 @@ public:
 
 	void Ideneity()
 	{
+		Zeros();
 		m_data[0] = 1.0;
 		m_data[4] = 1.0;
 		m_data[8] = 1.0;
-- 
2.43.0


From dbf1ac0e43653fd80bfdf7120239b2dc7bb0a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 04/52] fix: Direction returns a unit vector

---
 Source/Tools/ThreeVector.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index 0647c27..fd5a6d1 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -88,8 +88,7 @@ public:
 		dir[0] = point[0] - m_data[0];
 		dir[1] = point[1] - m_data[1];
 		dir[2] = point[2] - m_data[2];
-		dir.Norm();
-		return dir;
+		return dir.Norm();
 	}
 
 	// Returns the matrix required to rotate the vecotor onto the second
-- 
2.43.0


From f16ea7784b5cbb3efee6fed1909cf8acdbff29db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 05/52] fix: rotation between opposite vectors works for every
 direction

---
 Source/Tools/ThreeVector.hh | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index fd5a6d1..b23dfa8 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -98,9 +98,20 @@ public:
 		// Fist we need to check if the vectors are ainti parallel as this method fails
 		if ((this->Norm() + axis.Norm()).Mag2() <= 1e-10)
 		{
-			rotation[0][0] = -1.0;
-			rotation[1][1] =  1.0;
-			rotation[2][2] = -1.0;
+			// Turn by pi about an axis perpendicular to this vector first
+			ThreeVector norm = this->Norm();
+			ThreeVector perp = std::abs(norm[0]) < 0.9 ?
+				ThreeVector(1, 0, 0).Cross(norm).Norm() :
+				ThreeVector(0, 0, 1).Cross(norm).Norm();
+			ThreeMatrix halfTurn;
+			for (unsigned int i = 0; i < 3; i++)
+			{
+				for (unsigned int j = 0; j < 3; j++)
+				{
+					halfTurn[i][j] = 2.0 * perp[i] * perp[j] - (i == j ? 1.0 : 0.0);
+				}
+			}
+			rotation = (-1.0 * norm).RotateToAxis(axis) * halfTurn;
 		} else
 		{
 			ThreeVector norm1 = this->Norm();
-- 
2.43.0


From c9fd309d855318c13c93e6963099b4cbe1f07ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 06/52] fix: SetSeed seeds the generator the draws use

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index e195e70..f648017 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -4,7 +4,7 @@
 
 void MCTools::SetSeed(int seed)
 {
-    std::srand(seed);
+    generator.seed(seed);
 }
 
 double MCTools::RandDouble(double low, double high)
-- 
2.43.0


From befa5a6aeeeee89d0d10e27663d3aab9487c5aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 07/52] fix: RandDiscrete can return the first index

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index f648017..019b8ad 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -37,7 +37,7 @@ unsigned int MCTools::RandDiscrete(const std::vector<double>& distro)
     }
     double rand = RandDouble(0.0, *(cdf.end() - 1));
     unsigned int sample(0);
-    for (unsigned int i = 1; i < distro.size(); i++)
+    for (unsigned int i = 0; i < distro.size(); i++)
     {
         if (rand < cdf[i])
         {
-- 
2.43.0


From 75acf94b238a2521cb388fa887a58ccf12dd7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 08/52] fix: record the particle history with the time after
 the push

---
 Source/Physics/ParticlePushers/ParticlePusher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/ParticlePusher.cpp b/Source/Physics/ParticlePushers/ParticlePusher.cpp
index 8acd850..54c1f3f 100644
--- a/Source/Physics/ParticlePushers/ParticlePusher.cpp
+++ b/Source/Physics/ParticlePushers/ParticlePusher.cpp
@@ -16,8 +16,8 @@ void ParticlePusher::PushParticle(Particle *part)
     {
         ThreeVector positionNew = part->GetPosition() + (m_dt / part->GetMomentum().Mag())
                                  * part->GetMomentum();
-        part->UpdateTrack(positionNew, part->GetMomentum());
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, part->GetMomentum());
     } else  // Particle is charged
     {
         ThreeVector posK1, posK2, posK3, posK4;
@@ -58,8 +58,8 @@ void ParticlePusher::PushParticle(Particle *part)
                                   * (posK1 + 2.0 * posK2 + 2.0 * posK3 + posK4);
         ThreeVector momentumNew = part->GetMomentum() + (m_dt / 6.0) 
                                   * (momK1 + 2.0 * momK2 + 2.0 * momK3 + momK4);
-        part->UpdateTrack(positionNew, momentumNew);
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, momentumNew);
     }
 }
 
-- 
2.43.0


From 8fa5f13bae8a69c3a5d9c8aa6a0f1204857ea006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 09/52] fix: no radiation reaction drag on a particle at rest

---
 Source/Physics/ParticlePushers/LandauPusher.cpp         | 3 ++-
 Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/LandauPusher.cpp b/Source/Physics/ParticlePushers/LandauPusher.cpp
index 909a227..e6de570 100644
--- a/Source/Physics/ParticlePushers/LandauPusher.cpp
+++ b/Source/Physics/ParticlePushers/LandauPusher.cpp
@@ -13,7 +13,8 @@ ThreeVector LandauPusher::PushMomentum(double mass, double charge, const ThreeVe
 	double beta  = std::sqrt(1.0 - 1.0 / (gamma * gamma));
 
 	// calculate eta value
-	ThreeVector partDir = momentum.Norm();
+	// A particle at rest has no direction of motion and feels no drag
+	ThreeVector partDir = momentum.Mag2() > 0.0 ? momentum.Norm() : momentum;
 	ThreeVector ePara = Efield.Dot(partDir) * partDir;
 	ThreeVector ePerp = Efield - ePara;
 	
diff --git a/Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp b/Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp
index be8c9dc..4d82676 100644
--- a/Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp
+++ b/Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp
@@ -15,7 +15,8 @@ ThreeVector ModifiedLandauPusher::PushMomentum(double mass, double charge,
     double beta  = std::sqrt(1.0 - 1.0 / (gamma * gamma));
 
     // calculate eta value
-    ThreeVector partDir = momentum.Norm();
+    // A particle at rest has no direction of motion and feels no drag
+    ThreeVector partDir = momentum.Mag2() > 0.0 ? momentum.Norm() : momentum;
     ThreeVector ePara = Efield.Dot(partDir) * partDir;
     ThreeVector ePerp = Efield - ePara;
     
-- 
2.43.0


From 8d4e461a239397789584c3bd794b89d81f01f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 10/52] fix: a lepton built from an energy has that energy

---
 Source/Particles/Lepton.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/Particles/Lepton.cpp b/Source/Particles/Lepton.cpp
index f283046..cc92fc3 100644
--- a/Source/Particles/Lepton.cpp
+++ b/Source/Particles/Lepton.cpp
@@ -1,3 +1,6 @@
+#include <algorithm>
+#include <cmath>
+
 #include "Lepton.hh"
 
 Lepton::Lepton(double mass, double charge, const ThreeVector &position, 
@@ -16,8 +19,8 @@ Particle(mass, charge, position, momentum, weight, time, tracking)
 Lepton::Lepton(double mass, double charge, double energy,
     const ThreeVector &position, const ThreeVector &direction, double weight,
     double time, bool tracking):
-Particle(mass, charge, position, energy * direction.Norm(), weight, time,
-    tracking)
+Particle(mass, charge, position, std::sqrt(std::max(0.0, energy * energy
+    - mass * mass)) * direction.Norm(), weight, time, tracking)
 {
     if (charge == -1)
     {
-- 
2.43.0


From fd5c54d8473872c97bd6bb8e4742d9d5a6ffc3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 11/52] fix: a mono-energetic source has a single energy

---
 Source/Particles/SourceGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index fda3748..4b29d32 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -26,6 +26,9 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
     } else if(distro == "linear" || distro == "Linear")
     {
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
+    } else if(distro == "mono" || distro == "Mono")
+    {
+        m_energy = std::vector<double>(nPart, energy1);
     } else
     {
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
-- 
2.43.0


From 4cc550d3fba52c98ebe6483982fbd6d5d71f6cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 12/52] fix: the source rotates from the z axis to the beam
 direction

---
 Source/Particles/SourceGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index 4b29d32..7af4fd1 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -34,7 +34,7 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
     }
     
-    m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
+    m_rotaion = ThreeVector(0, 0, 1).RotateToAxis(m_direction);
 }
 
 SourceGenerator::~SourceGenerator()
-- 
2.43.0


From fe4b22a01a09f3196101835ca780db94e3e331c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 13/52] fix: photons are recorded with probability equal to the
 sample fraction

---
 Source/Physics/Processes/StochasticEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index f778378..acf70dd 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -41,7 +41,7 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
         ThreeVector gammaP = gammaE * part->GetDirection();
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
-        if (gammaE > m_eMin && m_sampleFrac < MCTools::RandDouble(0, 1))
+        if (gammaE > m_eMin && MCTools::RandDouble(0, 1) <= m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
                 part->GetDirection(), part->GetWeight() / m_sampleFrac,
-- 
2.43.0


From d9c5ee3bfc259649bad1330ce5c662ea977d3e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 14/52] fix: emit the photon along the direction before the
 recoil

---
 Source/Physics/Processes/StochasticEmission.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index acf70dd..fb91b70 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -38,13 +38,15 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
     {
         double chi = CalculateChi(eta);
         double gammaE = 2.0 * chi * part->GetGamma() / eta;
-        ThreeVector gammaP = gammaE * part->GetDirection();
+        // The photon goes along the direction the emitter had before the recoil
+        ThreeVector direction = part->GetDirection();
+        ThreeVector gammaP = gammaE * direction;
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
         if (gammaE > m_eMin && MCTools::RandDouble(0, 1) <= m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
-                part->GetDirection(), part->GetWeight() / m_sampleFrac,
+                direction, part->GetWeight() / m_sampleFrac,
                 part->GetTime(), m_track);
             partList->AddParticle(photon);
         }
-- 
2.43.0


From 56a025d0dafc5a8c7ec6ab37a55ff282c2cb88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 15/52] fix: a photon in zero field keeps its optical depth

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 5301af9..51b1ac7 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -22,6 +22,8 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetType() != "Photon" || part->IsAlive() == false) return;
 
     double chi = CalculateChi(part);
+    // No field, no decay (and no logarithm of chi)
+    if (chi <= 0.0) return;
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
         m_t_length, std::log10(chi));
     double deltaOD = m_dt * UnitsSystem::alpha * chi * std::pow(10.0, logt)
-- 
2.43.0


From 4f09d21be80c8422be7d4403ad6543a20377151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 16/52] fix: pair leptons have at least their rest energy

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 51b1ac7..e0f0a75 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 
 #include "NonLinearBreitWheeler.hh"
@@ -20,6 +22,8 @@ NonLinearBreitWheeler::~NonLinearBreitWheeler()
 void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) const
 {
     if (part->GetType() != "Photon" || part->IsAlive() == false) return;
+    // A pair needs its rest energy
+    if (part->GetEnergy() < 2.0) return;
 
     double chi = CalculateChi(part);
     // No field, no decay (and no logarithm of chi)
@@ -34,8 +38,10 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetOpticalDepth() < 0.0)
     {
         double split = CalculateSplit(chi);
-        double pEnergy = split * part->GetEnergy();
-        double eEnergy = (1.0 - split) * part->GetEnergy();
+        // Neither lepton can have less than its rest energy
+        double pEnergy = std::min(std::max(split * part->GetEnergy(), 1.0),
+            part->GetEnergy() - 1.0);
+        double eEnergy = part->GetEnergy() - pEnergy;
         ThreeVector pMomentum =  std::sqrt(pEnergy * pEnergy - 1.0) * part->GetDirection();
         ThreeVector eMomentum =  std::sqrt(eEnergy * eEnergy - 1.0) * part->GetDirection();
         Lepton* positron = new Lepton(1.0, 1.0, part->GetPosition(), pMomentum,
-- 
2.43.0


From a526bb71b992a646b8b3b2aa25b6c06b30fdcb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 17/52] fix: the photon energy axis has as many steps as the
 table

---
 Source/Physics/Processes/PhotonEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 6d6ee55..0fb8cd8 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -123,7 +123,7 @@ void PhotonEmission::LoadTables()
         double logMinChi = std::log10(m_phEn_chiMinAxis[i]);
         m_phEn_etaAxis[i] = logMinEta + i * deltaEta;
         double deltaChi = (m_phEn_etaAxis[i] - std::log10(2.0)
-            - logMinChi)  / (m_phEn_etaLength - 1.0);
+            - logMinChi)  / (m_phEn_chiLength - 1.0);
         for (unsigned int j = 0; j < m_phEn_chiLength; j++)
         {
             m_phEn_chiAxis[i][j] = logMinChi + j * deltaChi;
-- 
2.43.0


From 0483c8d008453598e20152e68068e7da162b2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 18/52] fix: the magnetic field of a plane wave is
 perpendicular to E

---
 Source/Physics/Fields/EMField/PlaneEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/PlaneEMField.cpp b/Source/Physics/Fields/EMField/PlaneEMField.cpp
index fd088b9..6a68d58 100644
--- a/Source/Physics/Fields/EMField/PlaneEMField.cpp
+++ b/Source/Physics/Fields/EMField/PlaneEMField.cpp
@@ -29,7 +29,7 @@ void PlaneEMField::GetField(double time, const ThreeVector &position,
     eField[2] = 0;
     eField = m_rotationInv * eField;
 
-    bField[0] = E0 * std::sin(m_polAngle);
+    bField[0] = -1.0 * E0 * std::sin(m_polAngle);
     bField[1] = E0 * std::cos(m_polAngle);
     bField[2] = 0;
     bField = m_rotationInv * bField;
-- 
2.43.0


From 8df965f1057c1b0b063631a8c6097efbf7f1cf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 19/52] fix: the magnetic field of a Gaussian pulse is
 perpendicular to E

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 76c638b..c95dff8 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -47,7 +47,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 	eField[2] = 0;
 	eField = m_rotationInv * eField;
 
-	bField[0] = E0 * std::sin(m_polAngle);
+	bField[0] = -1.0 * E0 * std::sin(m_polAngle);
 	bField[1] = E0 * std::cos(m_polAngle);
 	bField[2] = 0;
 	bField = m_rotationInv * bField;
-- 
2.43.0


From 5377279b3bb1cd2157c9b3a5eed7a5a4cc6761a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 20/52] fix: the Gaussian pulse is centred on its focus

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index c95dff8..37f5943 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -27,7 +27,7 @@ GaussianEMField::~GaussianEMField()
 void GaussianEMField::GetField(double time, const ThreeVector &position,
 						  ThreeVector &eField, ThreeVector &bField) const
 {
-	ThreeVector position_p = m_rotaion * position;
+	ThreeVector position_p = m_rotaion * (position - m_focusPos);
 	double t0 		 = (m_startPos - m_focusPos).Mag();
 	double r2 		 = position_p[0] * position_p[0] + position_p[1] * position_p[1];
 	double rayleigh  = m_waveNum * m_waist * m_waist / 2.0;
-- 
2.43.0


From cfe7fda5cb82f518d24c8050b7c1c1dc5310ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 21/52] fix: the carrier of the Gaussian pulse moves with it

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 37f5943..460b5dc 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -38,7 +38,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 										   / (rayleigh * rayleigh));
 	double E0 = m_maxE * (m_waist / beamWaist) 
 				* std::exp(-1.0 * r2 / (beamWaist * beamWaist))
-				* std::cos(position_p[2] * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
+				* std::cos((position_p[2] - time + t0) * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
 				* std::exp(-1.0 * (time - t0 - position_p[2]) 
 							* (time - t0 - position_p[2]) / (m_tau * m_tau));
 	
-- 
2.43.0


From 99da7ad577c516ee9cb6f41baaaa00d044e1a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 22/52] fix: the focusing field is centred on its focus

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index c10d862..33e5cec 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -26,7 +26,7 @@ FocusingField::~FocusingField()
 void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
-    ThreeVector position_p = m_rotaion * position;
+    ThreeVector position_p = m_rotaion * (position - m_focusPos);
     double xe = position_p[0] / m_waist;
     double ye = position_p[1] / m_waist;
     double ze = position_p[2] / m_rayleigh;
-- 
2.43.0


From b1c3b3eb140817f66210fa0684564b0f3c2e47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 23/52] fix: the phase of the focusing field moves with the
 pulse

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 33e5cec..5811a36 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -35,7 +35,7 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     double curvature = position_p[2] + m_rayleigh * m_rayleigh
         / (position_p[2] + 1e-99);
     double phi_G = std::atan(ze);
-    double phi = m_waveNum * (position_p[2] - r2 / (2.0 * curvature));
+    double phi = m_waveNum * (time - m_t0 - position_p[2] - r2 / (2.0 * curvature));
     double w = m_waist * std::sqrt(1 + ze * ze);
     double E_0 = m_maxE * std::exp(- r2 / (w * w) - (time - m_t0 - position_p[2])
             * (time - m_t0 - position_p[2]) / (m_tau * m_tau));
-- 
2.43.0


From d842f027c68ddf44e9bcdc7ec2fb6207fde567ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 24/52] fix: the polarisation angle turns the focusing field
 rigidly

---
 .../Physics/Fields/EMField/FocusingField.cpp  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 5811a36..eab0632 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -27,8 +27,11 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
     ThreeVector position_p = m_rotaion * (position - m_focusPos);
-    double xe = position_p[0] / m_waist;
-    double ye = position_p[1] / m_waist;
+    // Transverse coordinates along and across the polarisation
+    double cosPol = std::cos(m_polAngle);
+    double sinPol = std::sin(m_polAngle);
+    double xe = (position_p[0] * cosPol + position_p[1] * sinPol) / m_waist;
+    double ye = (position_p[1] * cosPol - position_p[0] * sinPol) / m_waist;
     double ze = position_p[2] / m_rayleigh;
     double r2  = position_p[0] * position_p[0] + position_p[1] * position_p[1];
     double rho2 = r2 / (m_waist *  m_waist);
@@ -76,14 +79,11 @@ void FocusingField::GetField(double time, const ThreeVector &position,
         * S[5] / 4.0 + rho2 * rho2 *rho2 * rho2 * S[6] / 32.0));
     bField[2] = E_0 * ye * (m_eps * C[1] + m_eps * m_eps * m_eps * (C[2] / 2.0
         + rho2 * C[3] / 2.0 - rho2 * rho2 * C[4] / 4.0));
-    eField[0] = eField[0] * std::cos(m_polAngle)
-        - eField[1] * std::sin(m_polAngle) ;
-    eField[1] = eField[0] * std::sin(m_polAngle)
-        + eField[1] * std::cos(m_polAngle);
-    eField = m_rotationInv * eField;
-    bField[0] = bField[0] * std::cos(m_polAngle)
-        - bField[1] * std::sin(m_polAngle) ;
-    bField[1] = bField[0] * std::sin(m_polAngle)
-        + bField[1] * std::cos(m_polAngle);
-    bField = m_rotationInv * bField;
+    // Turn the beam back to its polarisation angle
+    eField = m_rotationInv * ThreeVector(
+        eField[0] * cosPol - eField[1] * sinPol,
+        eField[0] * sinPol + eField[1] * cosPol, eField[2]);
+    bField = m_rotationInv * ThreeVector(
+        bField[0] * cosPol - bField[1] * sinPol,
+        bField[0] * sinPol + bField[1] * cosPol, bField[2]);
 }
\ No newline at end of file
-- 
2.43.0


From 2ce3881ff1068b374681a2b6b4044bd592a187e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 25/52] fix: histograms bin the quantity they were made for

m_type == "Energy" || "energy" is always true: every histogram was an energy
histogram and unknown quantities were accepted.
---
 Source/IO/Output/Histogram.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 572f49f..2b01204 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -44,7 +44,7 @@ void Histogram::AppParticle(Particle* part)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			m_entries++;
 			double energy = part->GetEnergy();
@@ -53,7 +53,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			m_entries++;
 			double xPos = part->GetPosition()[0];
@@ -62,7 +62,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			m_entries++;
 			double yPos = part->GetPosition()[1];
@@ -71,7 +71,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			m_entries++;
 			double zPos =  part->GetPosition()[2];
@@ -80,7 +80,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PX" || "px")
+		} else if (m_type == "PX" || m_type == "px")
 		{
 			m_entries++;
 			double xPos = part->GetMomentum()[0];
@@ -89,7 +89,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PY" || "py")
+		} else if (m_type == "PY" || m_type == "py")
 		{
 			m_entries++;
 			double yPos = part->GetMomentum()[1];
@@ -98,7 +98,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PZ" || "pz")
+		} else if (m_type == "PZ" || m_type == "pz")
 		{
 			m_entries++;
 			double zPos =  part->GetMomentum()[2];
@@ -123,7 +123,7 @@ void Histogram::Fill(ParticleList* partList)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -136,7 +136,7 @@ void Histogram::Fill(ParticleList* partList)
 				}
 			}
 			
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -148,7 +148,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -160,7 +160,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
-- 
2.43.0


From 00d5e7c654c9ed85d4db3eabd40d451999d7638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 26/52] fix: fill histograms of momentum components from
 particle lists

---
 Source/IO/Output/Histogram.cpp | 36 ++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 2b01204..d0a3362 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -172,6 +172,42 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
+		} else if (m_type == "PX" || m_type == "px")
+		{
+			for (unsigned int i = 0; i < partList->GetNPart(); i++)
+			{
+				m_entries++;
+				double xPos =  partList->GetParticle(i)->GetMomentum()[0];
+				if (xPos > m_binCentres[0] && xPos < m_binCentres[m_nBins-1])
+				{
+					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
+					m_binValues[index]++;
+				}
+			}
+		} else if (m_type == "PY" || m_type == "py")
+		{
+			for (unsigned int i = 0; i < partList->GetNPart(); i++)
+			{
+				m_entries++;
+				double yPos =  partList->GetParticle(i)->GetMomentum()[1];
+				if (yPos > m_binCentres[0] && yPos < m_binCentres[m_nBins-1])
+				{
+					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
+					m_binValues[index]++;
+				}
+			}
+		} else if (m_type == "PZ" || m_type == "pz")
+		{
+			for (unsigned int i = 0; i < partList->GetNPart(); i++)
+			{
+				m_entries++;
+				double zPos =  partList->GetParticle(i)->GetMomentum()[2];
+				if (zPos > m_binCentres[0] && zPos < m_binCentres[m_nBins-1])
+				{
+					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
+					m_binValues[index]++;
+				}
+			}
 		} else
 		{
 			std::cerr << "Error: Particle property \"" << m_type << "\" not found\n";
-- 
2.43.0


From a3e0b559d9a7766aa48656c26fc6e625b9d98639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 27/52] fix: initialise the number of entries of a histogram

---
 Source/IO/Output/Histogram.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index d0a3362..3941586 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -26,6 +26,7 @@ void Histogram::Initialise(std::string name, std::string particle , std::string
 	m_type = type;
 	m_time = time;
 	m_nBins = nBins;
+	m_entries = 0;
 	m_binCentres = new double [nBins];
 	m_binValues  = new double [m_nBins];
 	double detla = (maxBin - minBin) / (m_nBins - 1.0);
-- 
2.43.0


From 175948a31946cea04c492eb2b19b5ccc7acf87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 28/52] fix: normalising a histogram with no entry in range
 divided by zero

---
 Source/IO/Output/Histogram.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 3941586..2bf9182 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -247,6 +247,8 @@ void Histogram::Normalise()
 		{
 			sum += m_binValues[i];
 		}
+		// All entries may be outside the range
+		if (sum <= 0) return;
 		for (unsigned int i = 0; i < m_nBins; i++)
 		{
 			m_binValues[i] /= sum;
-- 
2.43.0


From 969fc2cb452881767d92fe3ae75a0e740992fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 29/52] fix: create output groups that do not exist yet

---
 Source/IO/Output/HDF5Output.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index ef52608..086967d 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -3,12 +3,12 @@
 #include "HDF5Output.hh"
 
 HDF5Output::HDF5Output():
-m_file(NULL), m_group(NULL)
+m_file(NULL), m_group(NULL), m_subGroup(NULL)
 {
 }
 
 HDF5Output::HDF5Output(std::string fileName, bool append):
-m_fileName(fileName), m_group(NULL)
+m_fileName(fileName), m_group(NULL), m_subGroup(NULL)
 {
     if (append == true)
     {
@@ -21,6 +21,7 @@ m_fileName(fileName), m_group(NULL)
 
 HDF5Output::~HDF5Output()
 {
+    delete m_subGroup;
     delete m_group;
     delete m_file;
 }
@@ -30,12 +31,13 @@ void HDF5Output::AddGroup(std::string groupName)
     if (m_group != NULL)
     {
         delete m_group;
+        m_group = NULL;
     }
-    bool status;
+    herr_t status;
     H5E_BEGIN_TRY {
         status = H5Gget_objinfo(m_file->getId(), groupName.c_str(), 0, NULL);
     } H5E_END_TRY
-    if (status == 0)
+    if (status < 0)
     {
         m_group = new H5::Group(m_file->createGroup(groupName.c_str()));
     }
-- 
2.43.0


From 64813c34f00a9fd329d0320d68c898d9dc31f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 30/52] fix: create the particle track group even after a
 particle list was written

---
 Source/IO/Output/OutputManager.cpp | 4 ++--
 Source/IO/Output/OutputManager.hh  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 4534b31..cf70449 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -431,10 +431,10 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
     // Output tracking info
     if (outTrack == true)
     {
-        if (m_partListBool == false)
+        if (m_partTrackBool == false)
         {
             m_outputFile->AddGroup("Particles/ParticleTrack");
-            m_partListBool = true;
+            m_partTrackBool = true;
         }
 
         // Get the units system
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index d4b8e75..ff1c718 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -69,6 +69,7 @@ private:
     // Boolians to avoid adding the same group twice
     bool m_singlePartBool = false;
     bool m_partListBool = false;
+    bool m_partTrackBool = false;
     bool m_particleSourceBool = false;
 
     // Structures holding data for source outputs
-- 
2.43.0


From f562624d251214ab7ae0316619baa8d486bdbeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 31/52] fix: do not scale gamma of tracks by the time unit

---
 Source/IO/Output/OutputManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index cf70449..479db3f 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -481,7 +481,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             }
             for (unsigned int j = 0; j < m_gammaTrack[i].size(); j++)
             {
-                gammaBuff[j] = m_gammaTrack[i][j] * time;
+                gammaBuff[j] = m_gammaTrack[i][j];
             }
             m_outputFile->AddArray2D(posBuff, m_positionTrack[i].size(), 3, eventName + "/Position");
             m_outputFile->AddArray2D(momBuff, m_momentumTrack[i].size(), 3, eventName + "/Momentum");
-- 
2.43.0


From 0dc98acd0e34badc8b5ada40131fb3fafd8f4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 32/52] fix: leave killed particles out of the stored events
 and particle lists

---
 Source/IO/Output/OutputManager.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 479db3f..447dc4f 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -196,15 +196,19 @@ void OutputManager::ListProperties(ParticleList* partList, std::string setName)
     m_outputFile->AddGroup(groupName);
     
     double* dataBuff = new double[partList->GetNPart()*5];
+    unsigned int row = 0;
     for (unsigned int i = 0; i < partList->GetNPart(); i++)
     {
-        dataBuff[i*5] = i;
-        dataBuff[i*5+1] = partList->GetParticle(i)->GetEnergy();
-        dataBuff[i*5+2] = partList->GetParticle(i)->GetPosition()[0];
-        dataBuff[i*5+3] = partList->GetParticle(i)->GetPosition()[1];
-        dataBuff[i*5+4] = partList->GetParticle(i)->GetPosition()[2];
+        if (partList->GetParticle(i)->IsAlive() == false) continue;
+        dataBuff[row*5] = i;
+        dataBuff[row*5+1] = partList->GetParticle(i)->GetEnergy();
+        dataBuff[row*5+2] = partList->GetParticle(i)->GetPosition()[0];
+        dataBuff[row*5+3] = partList->GetParticle(i)->GetPosition()[1];
+        dataBuff[row*5+4] = partList->GetParticle(i)->GetPosition()[2];
+        row++;
     }
-    m_outputFile->AddArray2D(dataBuff, partList->GetNPart(), 5, groupName + "/" + setName);
+    m_outputFile->AddArray2D(dataBuff, row, 5, groupName + "/" + setName);
+    delete[] dataBuff;
 }
 
 void OutputManager::InitSource(unsigned int nEvents)
@@ -239,6 +243,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID]   = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron") m_electronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Positron") m_positronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Photon") m_photonCount[eventID]++;
@@ -251,6 +256,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID] = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron")
             {
                 electronData[m_electronCount[eventID]*8]   = eventID;
-- 
2.43.0


From 6df0bac53467e5960fdfc5bdbb8f9c182eecb8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 33/52] fix: give every particle source of a run its own output
 group

---
 Source/IO/Output/OutputManager.cpp | 48 +++++++++++++++++-------------
 Source/IO/Output/OutputManager.hh  | 10 ++++++-
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 447dc4f..6275f80 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -49,6 +49,11 @@ OutputManager::~OutputManager()
 #ifdef USEMPI
     }
 #endif
+    ClearSource();
+}
+
+void OutputManager::ClearSource()
+{
     for (unsigned int i = 0; i < m_primaryEvent.size(); i++)
     {
         delete [] m_primaryEvent[i];
@@ -58,6 +63,16 @@ OutputManager::~OutputManager()
     }
 }
 
+// The first source goes to ParticleSource, the next ones to ParticleSource1, ...
+std::string OutputManager::SourceGroup()
+{
+    std::string groupName = "Particles/ParticleSource";
+    if (m_sourceCount > 0) groupName += std::to_string(m_sourceCount);
+    m_sourceCount++;
+    m_outputFile->AddGroup(groupName);
+    return groupName;
+}
+
 void OutputManager::SingleParticle(Particle* part, std::string name)
 {
     if (m_singlePartBool == false)
@@ -213,6 +228,7 @@ void OutputManager::ListProperties(ParticleList* partList, std::string setName)
 
 void OutputManager::InitSource(unsigned int nEvents)
 {
+    ClearSource();
     m_primaryEvent  = std::vector<double*>(nEvents);
     m_electronEvent = std::vector<double*>(nEvents);
     m_positronEvent = std::vector<double*>(nEvents);
@@ -336,11 +352,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
 {
     if (outSource == true)
     {
-        if (m_particleSourceBool == false)
-        {
-            m_outputFile->AddGroup("Particles/ParticleSource");
-            m_particleSourceBool = true;
-        }
+        std::string groupName = SourceGroup();
         double* primeBuff = new double [m_primaryEvent.size()*8];
         for (unsigned int i = 0; i < m_primaryEvent.size(); i++)
         {
@@ -354,7 +366,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             primeBuff[i*8+7] = m_primaryEvent[i][7];
         }
         m_outputFile->AddArray2D(primeBuff, m_primaryEvent.size(), 8,
-                "Particles/ParticleSource/Primary");
+                groupName + "/Primary");
 
         unsigned int totalElectrons = 0;
         unsigned int totalPositrons = 0;
@@ -416,17 +428,17 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
         if (totalElectrons > 0)
         {
             m_outputFile->AddArray2D(electronBuff, totalElectrons, 8,
-                    "Particles/ParticleSource/Electrons");
+                    groupName + "/Electrons");
         }
         if (totalPositrons > 0)
         {
             m_outputFile->AddArray2D(positronBuff, totalPositrons, 8,
-                    "Particles/ParticleSource/Positrons");
+                    groupName + "/Positrons");
         }
         if (totalPhotons > 0)
         {
             m_outputFile->AddArray2D(photonBuff, totalPhotons, 8,
-                    "Particles/ParticleSource/Photons");
+                    groupName + "/Photons");
         }
         delete [] primeBuff;
         delete [] electronBuff;
@@ -458,7 +470,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
         }
 
         // Loop through all the tracks
-        for (unsigned int i = 0; i < m_idTrack.size(); i++)
+        for (unsigned int i = m_tracksOut; i < m_idTrack.size(); i++)
         {
             std::string eventName = "Particles/ParticleTrack/Event" + std::to_string(i);
             m_outputFile->AddGroup(eventName);
@@ -499,7 +511,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             delete[] timeBuff;
             delete[] gammaBuff;
         }
-
+        m_tracksOut = m_idTrack.size();
     }
 }
 
@@ -568,11 +580,7 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
         if (id == 0)
         {
             // We are master
-            if (m_particleSourceBool == false)
-            {
-                m_outputFile->AddGroup("Particles/ParticleSource");
-                m_particleSourceBool = true;
-            }
+            std::string groupName = SourceGroup();
 
             // First start with primary sources
             int arraysize[nProc];
@@ -624,7 +632,7 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
                 delete[] procBuff;
             }
             m_outputFile->AddArray2D(primeBuff, totalSize / 8, 8,
-                "Particles/ParticleSource/Primary");
+                groupName + "/Primary");
             delete[] primeBuff;
 
             // Now we move on the end events
@@ -767,17 +775,17 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
             if (totalelectronSize > 0)
             {
                 m_outputFile->AddArray2D(electronBuff, totalelectronSize / 8, 8,
-                        "Particles/ParticleSource/Electrons");
+                        groupName + "/Electrons");
             }
             if (totalpositronSize > 0)
             {
                 m_outputFile->AddArray2D(positronBuff, totalpositronSize / 8, 8,
-                        "Particles/ParticleSource/Positrons");
+                        groupName + "/Positrons");
             }
             if (totalphotonSize > 0)
             {
                 m_outputFile->AddArray2D(photonBuff, totalphotonSize / 8, 8,
-                        "Particles/ParticleSource/Photons");
+                        groupName + "/Photons");
             }
             delete [] electronBuff;
             delete [] positronBuff;
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index ff1c718..df906f8 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -62,6 +62,10 @@ public:
 #endif
 
 
+private:
+    // Frees the stored events of the previous source
+    void ClearSource();
+
 private:
     HDF5Output* m_outputFile;
     UnitsSystem* m_units;
@@ -70,7 +74,10 @@ private:
     bool m_singlePartBool = false;
     bool m_partListBool = false;
     bool m_partTrackBool = false;
-    bool m_particleSourceBool = false;
+
+    // Number of sources already written, and the group of the next one
+    unsigned int m_sourceCount = 0;
+    std::string SourceGroup();
 
     // Structures holding data for source outputs
     std::vector<double*> m_primaryEvent;
@@ -82,6 +89,7 @@ private:
     std::vector<unsigned int> m_photonCount;
 
     // structures holding data for tracking output
+    unsigned int m_tracksOut = 0;
     std::vector<unsigned int> m_idTrack;
     std::vector<std::vector<ThreeVector>> m_positionTrack;
     std::vector<std::vector<ThreeVector>> m_momentumTrack;
-- 
2.43.0


From 620055c1b5b1b49a6a3939162d6cce17f82459c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 34/52] fix: write stored events and particle lists in the
 given units too

---
 Source/IO/Output/OutputManager.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 6275f80..ffef980 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -1,6 +1,15 @@
 #include<string>
 #include "OutputManager.hh"
 
+// Converts a row (id, energy, momentum, position) to the output units
+static void ScaleRow(double* row, UnitsSystem* units)
+{
+    if (units == NULL) return;
+    row[1] *= units->RefEnergy();
+    for (unsigned int i = 2; i < 5; i++) row[i] *= units->RefMomentum();
+    for (unsigned int i = 5; i < 8; i++) row[i] *= units->RefLength();
+}
+
 OutputManager::OutputManager(std::string fileName):
 m_units(NULL)
 {
@@ -220,6 +229,11 @@ void OutputManager::ListProperties(ParticleList* partList, std::string setName)
         dataBuff[row*5+2] = partList->GetParticle(i)->GetPosition()[0];
         dataBuff[row*5+3] = partList->GetParticle(i)->GetPosition()[1];
         dataBuff[row*5+4] = partList->GetParticle(i)->GetPosition()[2];
+        if (m_units != NULL)
+        {
+            dataBuff[row*5+1] *= m_units->RefEnergy();
+            for (unsigned int j = 2; j < 5; j++) dataBuff[row*5+j] *= m_units->RefLength();
+        }
         row++;
     }
     m_outputFile->AddArray2D(dataBuff, row, 5, groupName + "/" + setName);
@@ -251,6 +265,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         dataBuff[5] = partList->GetParticle(0)->GetPosition()[0],
         dataBuff[6] = partList->GetParticle(0)->GetPosition()[1],
         dataBuff[7] = partList->GetParticle(0)->GetPosition()[2];
+        ScaleRow(dataBuff, m_units);
         m_primaryEvent[eventID] = dataBuff;
     } else
     {
@@ -290,6 +305,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
                         ->GetPosition()[1];
                 electronData[m_electronCount[eventID]*8+7] = partList->GetParticle(i)
                         ->GetPosition()[2];
+                ScaleRow(electronData + m_electronCount[eventID]*8, m_units);
                 m_electronCount[eventID]++;
             } else if (partList->GetParticle(i)->GetName() == "Positron")
             {
@@ -308,6 +324,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
                         ->GetPosition()[1];
                 positronData[m_positronCount[eventID]*8+7] = partList->GetParticle(i)
                         ->GetPosition()[2];
+                ScaleRow(positronData + m_positronCount[eventID]*8, m_units);
                 m_positronCount[eventID]++;
             }  else if (partList->GetParticle(i)->GetName() == "Photon")
             {
@@ -326,6 +343,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
                         ->GetPosition()[1];
                 photonData[m_photonCount[eventID]*8+7] = partList->GetParticle(i)
                         ->GetPosition()[2];
+                ScaleRow(photonData + m_photonCount[eventID]*8, m_units);
                 m_photonCount[eventID]++;
             }
         }
-- 
2.43.0


From ce3f090447b48c90f8acf10e0ee30a53ddd0179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 35/52] fix: strip inline comments from continuation lines of
 an ini value

---
 Source/IO/Input/ini.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/IO/Input/ini.cpp b/Source/IO/Input/ini.cpp
index 82d02a2..8d25b9a 100644
--- a/Source/IO/Input/ini.cpp
+++ b/Source/IO/Input/ini.cpp
@@ -155,6 +155,12 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler,
         else if (*prev_name && *start && start > line) {
             /* Non-blank line with leading whitespace, treat as continuation
                of previous name's value (as per Python configparser). */
+#if INI_ALLOW_INLINE_COMMENTS
+            end = find_chars_or_comment(start, NULL);
+            if (*end)
+                *end = '\0';
+            rstrip(start);
+#endif
             if (!HANDLER(user, section, prev_name, start) && !error)
                 error = lineno;
         }
-- 
2.43.0


From f5c9a618b80d0b2f8f70f304c74916d080c1aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 36/52] fix: separate three-vector components at commas and
 brackets, read all exponent forms

---
 Source/IO/Input/INIReader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index c2969d6..7b93637 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -90,7 +90,7 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     {
         bool operator()(const char c) 
         {
-            if (c == '.' || c == '-' || c == ' ' || c == 'e' || std::isdigit(c))
+            if (c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E' || std::isdigit(c))
             {
                 return false;
             } else
@@ -102,9 +102,9 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
 
     string valstr = Get(section, name, "");
     NotNumber nn;
-    std::string::iterator end = std::remove_if(valstr.begin(), valstr.end(), nn);
-    std::string allNumbers(valstr.begin(), end);
-    std::stringstream stream(allNumbers);
+    // Everything that is not part of a number separates the components
+    std::replace_if(valstr.begin(), valstr.end(), nn, ' ');
+    std::stringstream stream(valstr);
 
     ThreeVector vector;
     int i = 0;
-- 
2.43.0


From 84e579a472233516b21f94bb62580e931dfaba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 37/52] fix: return the default for a missing or unreadable
 three-vector

---
 Source/IO/Input/INIReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index 7b93637..7f338be 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -118,7 +118,7 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
         vector[i] = value;
         i++;
     }
-    return vector;
+    return i > 0 ? vector : default_value;
 }
 
 bool INIReader::HasValue(const std::string& section, const std::string& name) const
-- 
2.43.0


From e02fffd9a6e6c15e697ed7a6bdfd8264bf5d15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 38/52] fix: particles created in a time step start moving in
 the next one

---
 Source/Exec/QEDCASC.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f05f9bc..ea48c02 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -225,8 +225,10 @@ int main(int argc, char* argv[])
                         histCount++;
                     }
                 }
-                // Push particles and interact
-                for (unsigned int k = 0; k < event->GetNPart(); k++) // Loop particles
+                // Push particles and interact. Particles created in this step
+                // only start moving in the next one.
+                unsigned int nPart = event->GetNPart();
+                for (unsigned int k = 0; k < nPart; k++) // Loop particles
                 {
                     pusher->PushParticle(event->GetParticle(k));
                     for (unsigned int proc = 0; proc < processList.size(); proc++) // loop processes
-- 
2.43.0


From 9fe7b02f82dd675c81028be6d99604715ae6a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 39/52] fix: leave photons that have decayed out of the
 histograms

---
 Source/Exec/QEDCASC.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index ea48c02..f67cc7c 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -216,7 +216,8 @@ int main(int argc, char* argv[])
                     {
                         for (unsigned int k = 0; k < event->GetNPart(); k++)
                         {
-                            if (histograms[histCount]->GetParticle() == 
+                            if (event->GetParticle(k)->IsAlive() &&
+                                histograms[histCount]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
                                 histograms[histCount]->AppParticle(event->GetParticle(k));
@@ -243,7 +244,8 @@ int main(int argc, char* argv[])
             {
                 for (unsigned int l = 0; l < event->GetNPart(); l++)
                 {
-                    if (histograms[k]->GetParticle() == 
+                    if (event->GetParticle(l)->IsAlive() &&
+                        histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
                         histograms[k]->AppParticle(event->GetParticle(l));
-- 
2.43.0


From 46a2edaeda35ad877a3704adce92b473d60f1f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 40/52] fix: track pair-produced particles when tracking is on

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f67cc7c..72c0287 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -144,7 +144,7 @@ int main(int argc, char* argv[])
     if (inPhysics.PairProduction == true)
     {
         NonLinearBreitWheeler* breitWheeler = new NonLinearBreitWheeler(field, 
-            inGeneral.timeStep, false);
+            inGeneral.timeStep, inGeneral.tracking);
         processList.push_back(breitWheeler);
     }
 
-- 
2.43.0


From 1a09be69d63c75b55ccbaa2dcf859fa896038207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 41/52] fix: fill every histogram whose time has come, not one
 per step

---
 Source/Exec/QEDCASC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 72c0287..2f85b60 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -209,7 +209,7 @@ int main(int argc, char* argv[])
             while(time < inGeneral.timeEnd) // loop time
             {
                 // Check if time for histogram
-                if (histCount < histograms.size())
+                while (histCount < histograms.size())
                 {
                  //   std::cout << histCount << " " << histograms[histCount]->GetTime() << std::endl;
                     if(time >= histograms[histCount]->GetTime())
@@ -224,7 +224,7 @@ int main(int argc, char* argv[])
                             }
                         }
                         histCount++;
-                    }
+                    } else break;
                 }
                 // Push particles and interact. Particles created in this step
                 // only start moving in the next one.
-- 
2.43.0


From bb72d03cbbd9d417caaf4016a49f146e2f61637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 42/52] fix: particles created in a time step of a scripted run
 start moving in the next one

---
 Source/Python/RunManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 8be6b80..a923598 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -227,8 +227,10 @@ void RunManager::beamOn(int events, int threads)
         double time(0);
         while(time < m_timeEnd) //loop time
         {
-            // Push particles and interact
-            for (unsigned int j = 0; j < event->GetNPart(); j++) // Loop particles
+            // Push particles and interact. Particles created in this step
+            // only start moving in the next one.
+            unsigned int nPart = event->GetNPart();
+            for (unsigned int j = 0; j < nPart; j++) // Loop particles
             {
                 m_pusher->PushParticle(event->GetParticle(j));
                 for (unsigned int proc = 0; proc < m_processList.size(); proc++) // loop processes
-- 
2.43.0


From ba76749c8b39c52c695efde143d21b1b7de44432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 43/52] fix: do not return photons that have decayed

---
 Source/Python/RunManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index a923598..abc9be7 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -244,6 +244,7 @@ void RunManager::beamOn(int events, int threads)
         // Store final particle properties
         for (long unsigned int j = 0; j < event->GetNPart(); ++j)
         {
+            if (event->GetParticle(j)->IsAlive() == false) continue;
             if (event->GetParticle(j)->GetCharge() == -1)
             {
                 m_electron_P_X[tid].push_back(event->GetParticle(j)->GetMomentum()[0] 
-- 
2.43.0


From 94e91c72c16e5abef7c53ace2d1d5bd0b6ceb73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 44/52] fix: accept the physics model name "classical"

---
 Source/Python/RunManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index abc9be7..dd6c112 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -65,7 +65,7 @@ void RunManager::setField(const std::string& fieldType, double maxField,
 
 void RunManager::setPhysics(const std::string& physics)
 {
-    if (physics == "Classical" || physics == "clasical" ||
+    if (physics == "Classical" || physics == "classical" ||
         physics == "Semiclassical" || physics == "semiclassical" ||
         physics == "Quantum" || physics == "quantum")
     {
-- 
2.43.0


From 8c5da25c20c91d18e4a54b4e504a3a7fc1b4f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 45/52] fix: forget the objects of the last run once they are
 deleted

---
 Source/Python/RunManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index dd6c112..9d92149 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -132,6 +132,9 @@ void RunManager::beamOn(int events, int threads)
     delete m_pusher;
     delete m_generator;
     delete m_field;
+    m_pusher = nullptr;
+    m_generator = nullptr;
+    m_field = nullptr;
     m_processList.clear();
 
     // Check for time / field properties
-- 
2.43.0


From 3133834ad499cdbb54bb1924081b333138c52b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 46/52] fix: refuse runs with a negative time step, event
 number or thread number

---
 Source/Python/RunManager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 9d92149..e330fd8 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -138,7 +138,13 @@ void RunManager::beamOn(int events, int threads)
     m_processList.clear();
 
     // Check for time / field properties
-    if (m_timeStep == 0 || !m_fieldSet || !m_physSet || !m_genSet)
+    if (events < 0 || threads < 1)
+    {
+        std::cerr << "Error in beamOn(): events cannot be negative and at least"
+                     " one thread is needed." << std::endl;
+        return;
+    }
+    if (!(m_timeStep > 0) || !m_fieldSet || !m_physSet || !m_genSet)
     {
         std::cerr << "Error in beamOn(): RunManager.setTime(...), "
                       "RunManager.setGenerator(...) and RunManager.setField(...) "
-- 
2.43.0


From d5e91aac2c6f80279683773d5b97b36c693d9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 47/52] fix: refuse unknown particle types when the source is
 set

---
 Source/Python/RunManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index e330fd8..4c0753c 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -85,6 +85,14 @@ void RunManager::setGenerator(const std::string& particleType,
     double radius, double duration, double divergence, 
     const ThreeVector& position, const ThreeVector& direction)
 {
+    if (particleType != "Electron" && particleType != "electron" &&
+        particleType != "Positron" && particleType != "positron" &&
+        particleType != "Photon" && particleType != "photon")
+    {
+        m_genSet = false;
+        std::cerr << "Error: Unknown particle type." << std::endl;
+        return;
+    }
     m_genSet = true;
     m_particleType = particleType;
     m_energyDist = energyDist;
-- 
2.43.0


From 70b22499bcf9bae383286b5b60610849ca4a3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 48/52] fix: refuse command line arguments shorter than four
 characters

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 2f85b60..9aed0c1 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -54,7 +54,7 @@ int main(int argc, char* argv[])
         {
             std::cout << "This is how to use the code\n";
             return 1;
-        } else if (argument.substr(argument.size() - 4) == ".ini")
+        } else if (argument.size() >= 4 && argument.substr(argument.size() - 4) == ".ini")
         {
 
         } else
-- 
2.43.0


From 73664a4f84dedf95d4c6a53debaf8d606158f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 49/52] fix: give every thread its own random number engine

The engine was shared by all OpenMP threads, which drew from it at the
same time: a data race, and the same numbers for different events.
---
 Source/Tools/MCTools.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Tools/MCTools.hh b/Source/Tools/MCTools.hh
index 5453eeb..22de1e0 100644
--- a/Source/Tools/MCTools.hh
+++ b/Source/Tools/MCTools.hh
@@ -33,7 +33,8 @@ namespace MCTools
         const Eigen::VectorXd& covar, const Eigen::VectorXd& skew);
 #endif
 
-    static std::random_device rd;
-    static std::mt19937 generator(rd());
+    // Each thread draws from its own engine
+    static thread_local std::random_device rd;
+    static thread_local std::mt19937 generator(rd());
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From e3dd3206da969230f2d4896026d6295ee820e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 50/52] fix: generate events one at a time in
 RunManager::beamOn

SourceGenerator::GenerateList counts the events it has handed out; two
threads could be given the same one.
---
 Source/Python/RunManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 4c0753c..039b20e 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -223,7 +223,11 @@ void RunManager::beamOn(int events, int threads)
 #else
         int tid = 0;
 #endif
-        ParticleList* event = m_generator->GenerateList();
+        ParticleList* event;
+#ifdef USEOPENMP
+        #pragma omp critical(Source)
+#endif
+        event = m_generator->GenerateList();
         // Store inital particle properties
         for (unsigned int j = 0; j < event->GetNPart(); j++) // Loop particles
         {
-- 
2.43.0


From 494f2eba3e00234f7d3e49ba77c8fc489a810c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 51/52] fix: generate events one at a time in the program loop

SourceGenerator::GenerateList counts the events it has handed out; two
OpenMP threads could be given the same one.
---
 Source/Exec/QEDCASC.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 9aed0c1..42e42ac 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -199,7 +199,11 @@ int main(int argc, char* argv[])
         for (unsigned int j = 0; j < generators[i]->GetSourceNumber(); j++) // loop events
         {
             // Generate source
-            ParticleList* event = generators[i]->GenerateList();
+            ParticleList* event;
+#ifdef USEOPENMP
+            #pragma omp critical(Source)
+#endif
+            event = generators[i]->GenerateList();
 
             // Store full event info
             if (inParticles[i].Output == true) out->StoreSource(event, j, true);
-- 
2.43.0


From 75af502b17fdc85ac3c361703ced375e66eb44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 52/52] fix: fill histograms and tracks from one thread at a
 time

Histogram bins and the list of tracks are shared by all OpenMP threads:
counts were lost and the list was corrupted.
---
 Source/Exec/QEDCASC.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 42e42ac..7f7951c 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -224,6 +224,9 @@ int main(int argc, char* argv[])
                                 histograms[histCount]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
+#ifdef USEOPENMP
+                                #pragma omp critical(Histogram)
+#endif
                                 histograms[histCount]->AppParticle(event->GetParticle(k));
                             }
                         }
@@ -252,6 +255,9 @@ int main(int argc, char* argv[])
                         histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
+#ifdef USEOPENMP
+                        #pragma omp critical(Histogram)
+#endif
                         histograms[k]->AppParticle(event->GetParticle(l));
                     }
                 }
@@ -259,7 +265,13 @@ int main(int argc, char* argv[])
 
             // Store source data and tracking
             if (inParticles[i].Output == true) out->StoreSource(event, j, false);
-            if (inGeneral.tracking == true) out->StoreTrack(event, j);
+            if (inGeneral.tracking == true)
+            {
+#ifdef USEOPENMP
+                #pragma omp critical(Track)
+#endif
+                out->StoreTrack(event, j);
+            }
 
             // Free up the sapce
             generators[i]->FreeSources(event);
-- 
2.43.0

