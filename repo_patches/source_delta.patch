From 1f93665c65a68185c98dc947bade4f31570cd576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 001/103] fix: V_QCD2 force had the wrong sign in the double
 precision (and lowmem single precision) kernels

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index a518fd9..4381e16 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -303,7 +303,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -1608,7 +1608,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 					mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 				break;
 				case V_QCD2:
-					mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+					mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 				break;
 				case V_QCDL:
 				case V_QCDC:
-- 
2.43.0


From 25483977e313465847b934b55e429286da553979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 002/103] fix: radial damping used half of the vector in the
 double precision kernels

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index 4381e16..ca7cf02 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -380,7 +380,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
@@ -1315,7 +1315,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
-- 
2.43.0


From 8cd4c4d37a49c98d5e72e594d796eb26730d2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 003/103] fix: cosine QCD force (vqcd0_pd) did not compute
 (y,x)*(y,y) in double precision

---
 include/utils/triSimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index e37961b..03be42f 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -529,9 +529,9 @@ inline _MData_	opCode(md2_pd, const _MData_ &x)
 inline _MData_	opCode(vqcd0_pd, const _MData_ &x)
 {
 #if defined(__AVX__)
-	return	opCode(mul_pd, opCode(permute_pd, x, 0b00010001), opCode(permute_pd, x, 0b01010101));  //(y,x)*(y,y)
+	return	opCode(mul_pd, opCode(permute_pd, x, 0b01010101), opCode(permute_pd, x, 0b11111111));  //(y,x)*(y,y)
 #else
-	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0101));
+	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0011));
 #endif
 }
 #undef	_MData_
-- 
2.43.0


From 207657faed8b1753d39adb93005d0b5070b1c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 004/103] fix: slices were evolved twice when the local depth
 is between one and two boundary depths

---
 include/propagator/propClass.h | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 009cd8a..da25daf 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -1,6 +1,7 @@
 #ifndef	_PROPCLASS_
 	#define	_PROPCLASS_
 
+	#include <algorithm>
 	#include <cmath>
 	#include <string>
 	#include <cstring>
@@ -538,7 +539,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d1;
 			axion->updateR();
 			axion->sendGhosts(FIELD_M2, COMM_SDRV);
@@ -551,7 +552,7 @@
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
-			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d2;
 			axion->updateR();
 		}
@@ -571,7 +572,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 		}
 
 	}
@@ -687,7 +688,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d1;
 			axion->updateR();
 
@@ -703,7 +704,7 @@
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d2;
 			axion->updateR();
 		}
@@ -724,7 +725,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 		}
 
 		axion->setM2     (M2_DIRTY);
@@ -766,7 +767,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 			/*missing update M?*/
 			*z += dz*d0;
@@ -786,7 +787,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 	}
@@ -1036,7 +1037,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
 
@@ -1048,7 +1049,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d2;
 			axion->updateR();
 		}
@@ -1064,7 +1065,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 		axion->setM2     (M2_DIRTY);
@@ -1120,7 +1121,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 			axion->sendGhosts(FIELD_V, COMM_SDRV);
 
@@ -1132,7 +1133,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_V, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
 		}
@@ -1150,7 +1151,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 
-- 
2.43.0


From 2aeda438d53d6d3d1f57fdbe3469c09154db13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 005/103] fix: the lowmem propagator never updated the field
 and used an uninitialised R'/R

---
 include/propagator/propClass.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index da25daf..45c61ae 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -759,6 +759,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
@@ -769,7 +770,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
-			/*missing update M?*/
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d0;
 			axion->updateR();
 		}
@@ -781,6 +782,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			const double c0 = c[nStages];
 
-- 
2.43.0


From 259fc82be3de93ba2cb97aff714a7a2c8142a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 006/103] fix: the lowmem kernel applied the axion force in the
 radial-only evolution (V_EVOL_RHO)

---
 include/propagator/propXeon.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index ca7cf02..6669ee7 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -1266,6 +1266,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 				break;
 			}
 			/* mMx = mMx + VQCD part */
+			if ( !(VQcd & V_EVOL_RHO) )
 			switch	(VQcd & V_QCD) {
 				case V_QCD1:
 					mMx = opCode(add_pd, mMx, zQVec);
@@ -1600,6 +1601,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 				break;
 			}
 			/* mMx = mMx + VQCD part */
+			if ( !(VQcd & V_EVOL_RHO) )
 			switch	(VQcd & V_QCD) {
 				case V_QCD1:
 					mMx = opCode(add_ps, mMx, zQVec);
-- 
2.43.0


From 69b65553c0cce6c6581fafe9cdce9cee8a58b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 007/103] fix: the axion propagator used the mass, scale factor
 and R''/R of an earlier stage in every second pair of stages

---
 include/propagator/propClass.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 45c61ae..84e6d3d 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -531,6 +531,10 @@
 
 		#pragma unroll
 		for (int s = 0; s<nStages; s+=2) {
+			ppar.massA2 = axion->AxionMassSq();
+			ppar.R      = *axion->RV();
+			ppar.Rpp    = axion->Rpp();
+
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
@@ -564,7 +568,7 @@
 
 			const double	c0 = c[nStages], maa = axion->AxionMassSq();
 
-			ppar.massA  = axion->AxionMassSq();
+			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
 
-- 
2.43.0


From e7e4abc714d4fe470578e5650dbb7421f23bce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 008/103] fix: axion and paxion steps left the auxiliary field
 marked as holding the energy of the previous time

---
 include/propagator/propClass.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 84e6d3d..1af4115 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -579,6 +579,7 @@
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 		}
 
+		axion->setM2     (M2_DIRTY);
 	}
 
 	// Generic axion spectral propagator
@@ -1173,6 +1174,7 @@
 		} else
 			propagatePaxKernelXeon<KIDI_POT>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, 0.5*dz, BO,   V+BO, precision, xBlock, yBlock, zBlock);
 
+		axion->setM2     (M2_DIRTY);
 	}
 
 
-- 
2.43.0


From d3c3debaf25b212592deab03b9130dc1aaed72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 009/103] fix: the periodic difference (mod_pd/mod_ps) returned
 zero for sites exactly half a period apart

---
 include/utils/triSimd.h | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index 03be42f..8b20f61 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -496,20 +496,16 @@ inline _MData_	opCode(mod_pd, _MData_ &x, const _MData_ &md)
 	min = opCode(min_pd, opCode(min_pd, xP2, xM2), x2);
 #ifdef	__AVX512F__
 	ret = opCode(mask_add_pd, opCode(setzero_pd), opCode(cmp_pd_mask, min, xP2, _CMP_EQ_OQ), opCode(setzero_pd), xP);
-	ret = opCode(mask_add_pd, ret,                opCode(cmp_pd_mask, min, xM2, _CMP_EQ_OQ), ret,   xM);
-	ret = opCode(mask_add_pd, ret,                opCode(cmp_pd_mask, min, x2,  _CMP_EQ_OQ), ret,   x);
+	ret = opCode(mask_add_pd, ret,                opCode(cmp_pd_mask, min, xM2, _CMP_EQ_OQ), opCode(setzero_pd),   xM);
+	ret = opCode(mask_add_pd, ret,                opCode(cmp_pd_mask, min, x2,  _CMP_EQ_OQ), opCode(setzero_pd),   x);
 #elif   defined(__AVX__)
-	ret = opCode(add_pd,
-		opCode(add_pd,
-			opCode(and_pd, opCode(cmp_pd, min, xP2, _CMP_EQ_OS), xP),
-			opCode(and_pd, opCode(cmp_pd, min, xM2, _CMP_EQ_OS), xM)),
-		opCode(and_pd, opCode(cmp_pd, min, x2, _CMP_EQ_OS), x));
+	ret = opCode(blendv_pd, xM,  xP, opCode(cmp_pd, min, xP2, _CMP_EQ_OQ));
+	ret = opCode(blendv_pd, ret, x,  opCode(cmp_pd, min, x2,  _CMP_EQ_OQ));
 #else
-	ret = opCode(add_pd,
-		opCode(add_pd,
-			opCode(and_pd, opCode(cmpeq_pd, min, xP2), xP),
-			opCode(and_pd, opCode(cmpeq_pd, min, xM2), xM)),
-		opCode(and_pd, opCode(cmpeq_pd, min, x2), x));
+	_MData_ mk = opCode(cmpeq_pd, min, xP2);
+	ret = opCode(or_pd, opCode(and_pd, mk, xP), opCode(andnot_pd, mk, xM));
+	mk  = opCode(cmpeq_pd, min, x2);
+	ret = opCode(or_pd, opCode(and_pd, mk, x),  opCode(andnot_pd, mk, ret));
 #endif
 	return	ret;
 }
@@ -883,20 +879,16 @@ inline _MData_	opCode(mod_ps, _MData_ &x, const _MData_ &md)
 	min = opCode(min_ps, opCode(min_ps, xP2, xM2), x2);
 #if	defined(__AVX512F__)
 	ret = opCode(mask_add_ps, opCode(setzero_ps), opCode(cmp_ps_mask, min, xP2, _CMP_EQ_OQ), opCode(setzero_ps), xP);
-	ret = opCode(mask_add_ps, ret,                opCode(cmp_ps_mask, min, xM2, _CMP_EQ_OQ), ret,                xM);
-	ret = opCode(mask_add_ps, ret,                opCode(cmp_ps_mask, min, x2,  _CMP_EQ_OQ), ret,                x);
+	ret = opCode(mask_add_ps, ret,                opCode(cmp_ps_mask, min, xM2, _CMP_EQ_OQ), opCode(setzero_ps),   xM);
+	ret = opCode(mask_add_ps, ret,                opCode(cmp_ps_mask, min, x2,  _CMP_EQ_OQ), opCode(setzero_ps),   x);
 #elif   defined(__AVX__)
-	ret = opCode(add_ps,
-		opCode(add_ps,
-			opCode(and_ps, opCode(cmp_ps, min, xP2, _CMP_EQ_OQ), xP),
-			opCode(and_ps, opCode(cmp_ps, min, xM2, _CMP_EQ_OQ), xM)),
-		opCode(and_ps, opCode(cmp_ps, min, x2, _CMP_EQ_OQ), x));
+	ret = opCode(blendv_ps, xM,  xP, opCode(cmp_ps, min, xP2, _CMP_EQ_OQ));
+	ret = opCode(blendv_ps, ret, x,  opCode(cmp_ps, min, x2,  _CMP_EQ_OQ));
 #else
-	ret = opCode(add_ps,
-		opCode(add_ps,
-			opCode(and_ps, opCode(cmpeq_ps, min, xP2), xP),
-			opCode(and_ps, opCode(cmpeq_ps, min, xM2), xM)),
-		opCode(and_ps, opCode(cmpeq_ps, min, x2), x));
+	_MData_ mk = opCode(cmpeq_ps, min, xP2);
+	ret = opCode(or_ps, opCode(and_ps, mk, xP), opCode(andnot_ps, mk, xM));
+	mk  = opCode(cmpeq_ps, min, x2);
+	ret = opCode(or_ps, opCode(and_ps, mk, x),  opCode(andnot_ps, mk, ret));
 #endif
 
 	return	ret;
-- 
2.43.0


From 7756dcdfabe95b7c1d4b99cd9f438ccc571ce39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 010/103] fix: the kinetic energies of a double precision
 complex field were multiplied by an integer 1/R^2

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index f3379d1..ba4fc1f 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -47,7 +47,7 @@ void	energyKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_
 	const size_t Vo     = ppar.Vo;
 	const size_t Vf     = ppar.Vf;
 	const size_t Vt     = ppar.Vt;
-	const size_t iR2    = 1./R/R;
+	const double iR2    = 1./R/R;
 
 	const size_t Sf = Lx*Lx;
 
-- 
2.43.0


From 6b81b4846cfe11a035b1d17c0aed577db804f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 011/103] fix: mean and masked mean radius and the mask count
 were missing or raced in double precision

---
 lib/energy/energyXeon.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index ba4fc1f..d243fb1 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -135,7 +135,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 
 			double tmpS[2*step] __attribute__((aligned(Align)));
 
-			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho)
+			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho,RrhoM,nummask)
 			for (size_t idx = Vo; idx < Vf; idx += step)
 			{
 				size_t X[3], idxPx, idxMx, idxPy, idxMy, idxPz, idxMz, idxP0, idxV0;
@@ -604,7 +604,7 @@ if (emask & EN_ENE){
 								KthM   += tmpS[1] + tmpS[3];
 
 								opCode(store_pd, tmpS, opCode(mul_pd,Frho,Mask));
-								RrhoM  +=  tmpS[0] + tmpS[2] + tmpS[4] + tmpS[6];
+								RrhoM  +=  tmpS[0] + tmpS[2];
 #else
 								opCode(store_pd, tmpS, opCode(mul_pd,tGx,Mask));
 								GxrhoM +=  tmpS[0];
@@ -644,6 +644,8 @@ if (emask & EN_ENE){
 		eRes[RH_KIN] = Krho *.5*iR2;
 		eRes[TH_KIN] = Kth  *.5*iR2;
 
+		eRes[RH_RHO] = Rrho;
+
 		eRes[RH_GRXM] = GxrhoM*o2;
 		eRes[TH_GRXM] = GxthM *o2;
 		eRes[RH_GRYM] = GyrhoM*o2;
-- 
2.43.0


From a3bde4c6fc2015f477b5596aac02a009b691e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 012/103] fix: the V_QCD2 potential energy used the scaled
 modulus in place of the real part squared

---
 lib/energy/energyXeon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index d243fb1..d453d72 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -429,8 +429,8 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 						mCg = opCode(mul_pd, hVec, opCode(md2_pd, opCode(mul_pd,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 */
+						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, opCode(mul_pd, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
@@ -1088,8 +1088,8 @@ if (emask & EN_ENE){
 						mCg = opCode(mul_ps, hVec, opCode(md2_ps, opCode(mul_ps,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 */
+						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, opCode(mul_ps, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
-- 
2.43.0


From 25ebe7d289bf7b604aa20a10c495a4a35c068ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 013/103] fix: an axion potential energy was reported when
 there is no axion potential (V_QCD0)

---
 lib/energy/energy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 5b32730..394d6ba 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -43,7 +43,7 @@ class	Energy : public Tunable
 };
 
 	Energy::Energy(Scalar *field, const double LL, const double delta, void *eRes, VqcdType pot, const double sh, const EnType emap) : field(field),
-	Vt(field->TotalSize()), delta2(delta*delta), aMass2(field->AxionMassSq()), eRes(eRes), pot(pot), fType(field->Field()), shift(sh),
+	Vt(field->TotalSize()), delta2(delta*delta), aMass2((pot & V_QCD) == V_QCD0 ? 0. : field->AxionMassSq()), eRes(eRes), pot(pot), fType(field->Field()), shift(sh),
 	LL(field->LambdaP()), mapmask(emap)
 {
 }
-- 
2.43.0


From c4777dc6959ab9ae19a63c53ceef88cd1025e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 014/103] fix: requests for energy averages were treated as map
 requests (never computed for lowmem fields, m2 overwritten otherwise)

---
 lib/energy/energy.cpp     | 10 +++++-----
 lib/energy/energyXeon.cpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 394d6ba..dfd6456 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -60,7 +60,7 @@ void	Energy::runGpu	()
 	double R       = *field->RV();
 	double Rpp     = field->BckGnd()->Rp(*field->zV())*R;
 
-	const bool map = (mapmask & EN_MAP);
+	const bool map = (mapmask & EN_ONLYMAP);
 
 	switch (fType) {
 		case	FIELD_SAXION:
@@ -98,7 +98,7 @@ void	Energy::runGpu	()
 
 void	Energy::runCpu	()
 {
-	const bool map = (mapmask & EN_MAP); //Update if mask in theta is required FIX ME
+	const bool map = (mapmask & EN_ONLYMAP); //Update if mask in theta is required FIX ME
 
 	switch (fType) {
 		case	FIELD_SAXION:
@@ -136,7 +136,7 @@ using namespace profiler;
 
 void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 {
-	if ( (emap & EN_MAP) && (field->Field() == FIELD_SAXION) && field->LowMem())
+	if ( (emap & EN_ONLYMAP) && (field->Field() == FIELD_SAXION) && field->LowMem())
 	{
 		LogError ("Error: Can't compute energy map for saxion with lowmem kernels\n");
 		return;
@@ -209,7 +209,7 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	prof.stop();
 
 	field->setReduced(false);
-	if (emap & EN_MAP) {
+	if (emap & EN_ONLYMAP) {
 		field->setM2     (M2_ENERGY);
 	}
 
@@ -217,7 +217,7 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	double flops = (field->Field() == FIELD_SAXION ? (pot & (V_QCD1|V_QCDC) ? 111 : 112) : 25)*field->Size()*1e-9;
 	double bytes = 8.*field->DataSize()*field->Size()*1e-9;
 
-	if (emap & EN_MAP) {
+	if (emap & EN_ONLYMAP) {
 		eDark->appendName(" Map");
 		bytes *= 9./8;
 	}
diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index d453d72..4911cfe 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -452,7 +452,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 #else
 				tVp = opCode(shuffle_pd, mod, mCg, 0b00000001);
 #endif
-				if	(emask & EN_MAP) {
+				if	(emask & EN_ONLYMAP) {
 					mdv = opCode(add_pd,
 						opCode(add_pd,
 							opCode(mul_pd, tKp, opCode(mul_pd,hVec,ivZ2)), /* non-conformal kinetic energy */
@@ -1119,7 +1119,7 @@ if (emask & EN_ENE){
 #endif
 
 // Copy energy map to m2
-				if (emask & EN_MAP) {
+				if (emask & EN_ONLYMAP) {
 // Total energy
 					mdv = opCode(add_ps,
 						opCode(add_ps,
@@ -1358,7 +1358,7 @@ void	energyCpu	(Scalar *field, const double delta2, const double LL, const doubl
 	ppar.Vf    = ppar.Vo + field->Size();
 	ppar.Vt    = field->eSize();
 
-	const bool map  = (mapmask & EN_MAP);
+	const bool map  = (mapmask & EN_ONLYMAP);
 	const bool mask = (mapmask & EN_MASK);
 
 	// reset m2 because only the masked points will be plot
-- 
2.43.0


From 1b54a1585ee7a89e5a94e39a0c5fdf711d2f230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 015/103] fix: with more than one ghost slice the string search
 ran over displaced slices

---
 lib/strings/stringXeon.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/strings/stringXeon.cpp b/lib/strings/stringXeon.cpp
index eab9ffc..169527a 100755
--- a/lib/strings/stringXeon.cpp
+++ b/lib/strings/stringXeon.cpp
@@ -1046,5 +1046,7 @@ StringData	stringCpu	(Scalar *field)
 	const size_t V = field->Size();
 	field->exchangeGhosts(FIELD_M);
 	field->setSD(SD_MAP);
-	return (stringKernelXeon(field->mCpu(), field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
+	// the kernel expects a single ghost slice in front of the field
+	const void *m = static_cast<const void *>(static_cast<char *>(field->mStart()) - S*field->DataSize());
+	return (stringKernelXeon(m, field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
 }
-- 
2.43.0


From c54f7deb06e849005b71628fdbf7450580030148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 016/103] fix: strings and walls were missed when a corner lies
 exactly on the real axis

---
 lib/strings/stringXeon.cpp | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/lib/strings/stringXeon.cpp b/lib/strings/stringXeon.cpp
index 169527a..82f4db7 100755
--- a/lib/strings/stringXeon.cpp
+++ b/lib/strings/stringXeon.cpp
@@ -33,8 +33,7 @@ inline	void	stringHandD(const __m512d s1, const __m512d s2, int *hand)
 	__m512d tp2, tp3;
 	__mmask8 tpm, tmm, tmp, str;
 
-	tp2 = opCode(mul_pd, s1, s2);
-	tmp = opCode(cmp_pd_mask, tp2, zero, _CMP_LT_OS);
+	tmp = opCode(cmp_pd_mask, s1, zero, _CMP_GT_OS) ^ opCode(cmp_pd_mask, s2, zero, _CMP_GT_OS);
 
 	tmp &= 0b10101010;
 
@@ -63,8 +62,7 @@ inline	void	stringHandS(const __m512 s1, const __m512 s2, int *hand)
 	__m512 tp2, tp3;
 	__mmask16 tpm, tmm, tmp;
 
-	tp2 = opCode(mul_ps, s1, s2);
-	tmp = opCode(cmp_ps_mask, tp2, zero, _CMP_LT_OS);
+	tmp = opCode(cmp_ps_mask, s1, zero, _CMP_GT_OS) ^ opCode(cmp_ps_mask, s2, zero, _CMP_GT_OS);
 
 	tmp &= 0b1010101010101010;
 
@@ -97,8 +95,7 @@ inline	void	stringWallD(const __m512d s1, const __m512d s2, int *hand, int *wHan
 	__m512d tp2, tp3;
 	__mmask8 tpm, tmm, tmp, wll, msk;
 
-	tp2 = opCode(mul_pd, s1, s2);
-	tmp = opCode(cmp_pd_mask, tp2, zero, _CMP_LT_OS);
+	tmp = opCode(cmp_pd_mask, s1, zero, _CMP_GT_OS) ^ opCode(cmp_pd_mask, s2, zero, _CMP_GT_OS);
 
 	tmp &= 0b10101010;
 
@@ -140,8 +137,7 @@ inline	void	stringWallS(const __m512 s1, const __m512 s2, int *hand, int *wHand)
 	__m512 tp2, tp3;
 	__mmask16 tpm, tmm, tmp, msk;
 
-	tp2 = opCode(mul_ps, s1, s2);
-	tmp = opCode(cmp_ps_mask, tp2, zero, _CMP_LT_OS);
+	tmp = opCode(cmp_ps_mask, s1, zero, _CMP_GT_OS) ^ opCode(cmp_ps_mask, s2, zero, _CMP_GT_OS);
 
 	tmp &= 0b1010101010101010;
 
@@ -192,8 +188,7 @@ inline	void	stringHandD(const __m256d s1, const __m256d s2, int *hand)
 
 	int __attribute__((aligned(Align))) tmpHand[8];
 
-	tp2 = opCode(mul_pd, s1, s2);
-	tmp = opCode(castpd_si256, opCode(cmp_pd, tp2, opCode(setzero_pd), _CMP_LT_OS));
+	tmp = opCode(castpd_si256, opCode(xor_pd, opCode(cmp_pd, s1, opCode(setzero_pd), _CMP_GT_OS), opCode(cmp_pd, s2, opCode(setzero_pd), _CMP_GT_OS)));
 	tp3 = opCode(mul_pd, s2, opCode(set_pd,-1., 1.,-1., 1.));
 	tp2 = opCode(permute_pd, tp3, 0b00000101);
 	tp3 = opCode(mul_pd, s1,  tp2);
@@ -226,8 +221,7 @@ inline	void	stringHandS(const __m256 s1, const __m256 s2, int *hand)
 
 	int __attribute__((aligned(Align))) tmpHand[8];
 
-	tp2 = opCode(mul_ps, s1, s2);
-	tmp = opCode(castps_si256, opCode(cmp_ps, tp2, opCode(setzero_ps), _CMP_LT_OS));
+	tmp = opCode(castps_si256, opCode(xor_ps, opCode(cmp_ps, s1, opCode(setzero_ps), _CMP_GT_OS), opCode(cmp_ps, s2, opCode(setzero_ps), _CMP_GT_OS)));
 	tp3 = opCode(mul_ps, s2, opCode(set_ps,-1.f, 1.f,-1.f, 1.f,-1.f, 1.f,-1.f, 1.f));
 	tp2 = opCode(permute_ps, tp3, 0b10110001);
 	tp3 = opCode(mul_ps, s1, tp2);
@@ -264,8 +258,7 @@ inline	void	stringWallD(const __m256d s1, const __m256d s2, int *hand, int *wHan
 
 	int __attribute__((aligned(Align))) tmpHand[8];
 
-	tp2 = opCode(mul_pd, s1, s2);
-	tmp = opCode(castpd_si256, opCode(cmp_pd, tp2, opCode(setzero_pd), _CMP_LT_OS));
+	tmp = opCode(castpd_si256, opCode(xor_pd, opCode(cmp_pd, s1, opCode(setzero_pd), _CMP_GT_OS), opCode(cmp_pd, s2, opCode(setzero_pd), _CMP_GT_OS)));
 	tp3 = opCode(mul_pd, s2, opCode(set_pd,-1., 1.,-1., 1.));
 	tp2 = opCode(permute_pd, tp3, 0b00000101);
 	tp3 = opCode(mul_pd, s1,  tp2);
@@ -312,8 +305,7 @@ inline	void	stringWallS(const __m256 s1, const __m256 s2, int *hand, int *wHand)
 
 	int __attribute__((aligned(Align))) tmpHand[8];
 
-	tp2 = opCode(mul_ps, s1, s2);
-	tmp = opCode(castps_si256, opCode(cmp_ps, tp2, opCode(setzero_ps), _CMP_LT_OS));
+	tmp = opCode(castps_si256, opCode(xor_ps, opCode(cmp_ps, s1, opCode(setzero_ps), _CMP_GT_OS), opCode(cmp_ps, s2, opCode(setzero_ps), _CMP_GT_OS)));
 	tp3 = opCode(mul_ps, s2, opCode(set_ps,-1.f, 1.f,-1.f, 1.f,-1.f, 1.f,-1.f, 1.f));
 	tp2 = opCode(permute_ps, tp3, 0b10110001);
 	tp3 = opCode(mul_ps, s1, tp2);
@@ -366,8 +358,7 @@ inline	void	stringHandD(const __m128d s1, const __m128d s2, int *hand)
 
 	int __attribute__((aligned(Align))) tmpHand[4];
 
-	tp2 = opCode(mul_pd, s1, s2);
-	tmp = opCode(castpd_si128, opCode(cmplt_pd, tp2, opCode(setzero_pd)));
+	tmp = opCode(castpd_si128, opCode(xor_pd, opCode(cmpgt_pd, s1, opCode(setzero_pd)), opCode(cmpgt_pd, s2, opCode(setzero_pd))));
 	tp3 = opCode(mul_pd, s2, opCode(set_pd,-1., 1.));
 	tp2 = opCode(shuffle_pd, tp3, tp3, 0b00000001);
 	tp3 = opCode(mul_pd, s1, tp2);
@@ -388,8 +379,7 @@ inline	void	stringHandS(const __m128 s1, const __m128 s2, int *hand)
 
 	int __attribute__((aligned(Align))) tmpHand[4];
 
-	tp2 = opCode(mul_ps, s1, s2);
-	tmp = opCode(castps_si128, opCode(cmplt_ps, tp2, opCode(setzero_ps)));
+	tmp = opCode(castps_si128, opCode(xor_ps, opCode(cmpgt_ps, s1, opCode(setzero_ps)), opCode(cmpgt_ps, s2, opCode(setzero_ps))));
 	tp3 = opCode(mul_ps, s2, opCode(set_ps,-1.f, 1.f,-1.f, 1.f));
 	tp2 = opCode(shuffle_ps, tp3, tp3, 0b10110001);
 	tp3 = opCode(mul_ps, s1, tp2);
@@ -411,8 +401,7 @@ inline	void	stringWallD(const __m128d s1, const __m128d s2, int *hand, int *wHan
 
 	int __attribute__((aligned(Align))) tmpHand[4];
 
-	tp2 = opCode(mul_pd, s1, s2);
-	tmp = opCode(castpd_si128, opCode(cmplt_pd, tp2, opCode(setzero_pd)));
+	tmp = opCode(castpd_si128, opCode(xor_pd, opCode(cmpgt_pd, s1, opCode(setzero_pd)), opCode(cmpgt_pd, s2, opCode(setzero_pd))));
 	tp3 = opCode(mul_pd, s2, opCode(set_pd,-1., 1.));
 	tp2 = opCode(shuffle_pd, tp3, tp3, 0b00000001);
 	tp3 = opCode(mul_pd, s1, tp2);
@@ -444,8 +433,7 @@ inline	void	stringWallS(const __m128 s1, const __m128 s2, int *hand, int *wHand)
 
 	int __attribute__((aligned(Align))) tmpHand[4];
 
-	tp2 = opCode(mul_ps, s1, s2);
-	tmp = opCode(castps_si128, opCode(cmplt_ps, tp2, opCode(setzero_ps)));
+	tmp = opCode(castps_si128, opCode(xor_ps, opCode(cmpgt_ps, s1, opCode(setzero_ps)), opCode(cmpgt_ps, s2, opCode(setzero_ps))));
 	tp3 = opCode(mul_ps, s2, opCode(set_ps,-1.f, 1.f,-1.f, 1.f));
 	tp2 = opCode(shuffle_ps, tp3, tp3, 0b10110001);
 	tp3 = opCode(mul_ps, s1, tp2);
-- 
2.43.0


From 0093a659b7eaa1b8db56885b199a371199fa342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 017/103] fix: mending a branch jump shifted the velocity by 2
 pi instead of 2 pi R'

---
 lib/scalar/mendThetaXeon.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index 9f229fc..f6a3c2a 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -36,7 +36,7 @@
 
 /* Uses m2 as aux field to store F and B on a line/line basis
 distribution is n-th thread nth 4 lines of m2 */
-inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
+inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const double Rp, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
 {
 	size_t countF = 0;
 	size_t countB = 0;
@@ -80,7 +80,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_pd, +zP);
 		const _MData_ mVec  = opCode(set1_pd, -zP);
-		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI);
+		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI*Rp);
 		const _MData_ cVec  = opCode(set1_pd, zP*2.);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -433,7 +433,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_ps, +zP);
 		const _MData_ mVec  = opCode(set1_ps, -zP);
-		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI);
+		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI*Rp);
 		const _MData_ cVec  = opCode(set1_ps, zP*2.f);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -825,7 +825,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 
 template<typename Float, const int step>
-inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const double Rp, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t countF = 0;
@@ -905,11 +905,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDf > zP) {
 						mPy -= 2.*zP;
-						vPy -= 2.*M_PI;
+						vPy -= 2.*M_PI*Rp;
 						countF++;
 					} else if (mDf < zP) {
 						mPy += 2.*zP;
-						vPy += 2.*M_PI;
+						vPy += 2.*M_PI*Rp;
 						countF++;
 					}
 
@@ -926,11 +926,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDfB > zP) {
 						melB -= 2.*zP;
-						vPyB -= 2.*M_PI;
+						vPyB -= 2.*M_PI*Rp;
 						countB++;
 					} else if (mDfB < zP) {
 						melB += 2.*zP;
-						vPyB += 2.*M_PI;
+						vPyB += 2.*M_PI*Rp;
 						countB++;
 					}
 
@@ -997,7 +997,7 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 /* TODO iterate until a jumpless line is found */
 
 template<typename Float>
-inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const double Rp, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t count = 0;
@@ -1056,11 +1056,11 @@ inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, con
 				while (abs(mDf) > zP) {
 					if (mDf > zP) {
 						mPz -= 2.*zP;
-						vPz -= 2.*M_PI;
+						vPz -= 2.*M_PI*Rp;
 						count++;
 					} else {
 						mPz += 2.*zP;
-						vPz += 2.*M_PI;
+						vPz += 2.*M_PI*Rp;
 						count++;
 					}
 
@@ -1081,30 +1081,32 @@ size_t	mendThetaXeon (Scalar *field)
 	constexpr int	dStep = Align/sizeof(double);
 	constexpr int	fStep = Align/sizeof(float);
 	const double	R     = *(field->RV());
+	/* psi = R theta, so that a jump of 2 Pi R in psi is a jump of 2 Pi R' in psi' (same R' as in toThetaXeon) */
+	const double	Rp    = field->BckGnd()->Frw()*R/(*(field->zV()));
 	size_t		tJmp = 0;
 	unsigned long tota = 0;
 
 	switch (field->Precision()) {
 		case	FIELD_DOUBLE:
-		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, Rp, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, Rp, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, Rp, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		case	FIELD_SINGLE:
-		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, Rp, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, Rp, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, Rp, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		default:
-- 
2.43.0


From 4fa15d77142aca4524ae61610cbd007e46ef15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 018/103] fix: mendTheta threads wrote beyond the auxiliary
 field on small grids

---
 lib/scalar/mendThetaXeon.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index f6a3c2a..8e510ca 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -1,5 +1,6 @@
 #include <cstdio>
 #include <cmath>
+#include <algorithm>
 #include "scalar/scalarField.h"
 #include "enum-field.h"
 //#include "scalar/varNQCD.h"
@@ -45,8 +46,9 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 	/* check that m2 is sufficient,
 	we assume m2 is still the complex field with only 2 ghost regions, the minimum */
-	if (omp_get_num_threads()*4 > 2*Sf*(Lz+2))
-		LogError("Insufficient size of m2 for mendTheta. Race conditions possible and likely.");
+	const size_t nLine = Lx*(Align/((precision == FIELD_DOUBLE) ? sizeof(double) : sizeof(float)));
+	const size_t mThr  = std::max((size_t) 1, (2*Sf*(Lz+2))/(4*nLine));
+	const int    nThr  = std::min((size_t) omp_get_max_threads(), mThr);
 
 	char *strdaa = static_cast<char *>(s_);
 	#pragma omp parallel for schedule(static)
@@ -83,7 +85,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI*Rp);
 		const _MData_ cVec  = opCode(set1_pd, zP*2.);
 
-		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
+		#pragma omp parallel default(shared) reduction(+:countF,countB,count) num_threads(nThr)
 		{
 			size_t	idx, idxPx, Vo, idx2, idx2B, iNx, iNxB;
 			_MData_ mel, mDf, mDc, mDp, mDm, mPx, vPx;
@@ -436,7 +438,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI*Rp);
 		const _MData_ cVec  = opCode(set1_ps, zP*2.f);
 
-		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
+		#pragma omp parallel default(shared) reduction(+:countF,countB,count) num_threads(nThr)
 		{
 			size_t	idx, idxPx, Vo, idx2, idx2B, iNx, iNxB;
 			_MData_ mel, mDf, mDc, mDp, mDm, mPx, vPx;
-- 
2.43.0


From cf9442c5b1da8b2fd76b327188e80da411d144f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 019/103] fix: scaling m or v of a field wrote over its
 neighbours (reals counted as complex, v as long as m)

---
 lib/scalar/scaleXeon.cpp | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index fdd82b5..4bdc331 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -1,27 +1,48 @@
-#include <complex>
-
 #include "scalar/scalarField.h"
 #include "utils/utils.h"
 
 using namespace std;
 
+/* Number of real numbers in m (including ghosts), in v (allocated with one pair
+   of ghost slices, whatever Ng is, except in paxions where it is as m) and in m2
+   (always allocated as complex) */
+static size_t	scaleReals (Scalar *sField, FieldIndex fIdx)
+{
+	const bool   cplx  = (sField->Field() & FIELD_SAXION) || (sField->Field() == FIELD_NAXION);
+	const size_t nData = cplx ? 2 : 1;
+
+	switch (fIdx)
+	{
+		case FIELD_M:
+		return	sField->eSize()*nData;
+
+		case FIELD_V:
+		if (sField->Field() == FIELD_PAXION || sField->Field() == FIELD_FAXION)
+			return	sField->eSize();
+		return	sField->Surf()*(sField->Depth()+2)*nData;
+
+		default:
+		return	sField->eSize()*2;
+	}
+}
+
 void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 {
 	switch (sField->Precision())
 	{
 		case FIELD_DOUBLE:
 		{
-			complex<double> *field;
-			size_t vol = sField->eSize();
+			double *field;
+			size_t vol = scaleReals(sField, fIdx);
 
 			switch (fIdx)
 			{
 				case FIELD_M:
-				field = static_cast<complex<double>*> (sField->mCpu());
+				field = static_cast<double*> (sField->mCpu());
 				break;
 
 				case FIELD_V:
-				field = static_cast<complex<double>*> (sField->vCpu());
+				field = static_cast<double*> (sField->vCpu());
 				break;
 
 				case FIELD_M2:
@@ -30,7 +51,7 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 					return;
 				}
 
-				field = static_cast<complex<double>*> (sField->m2Cpu());
+				field = static_cast<double*> (sField->m2Cpu());
 				break;
 
 				default:
@@ -48,18 +69,18 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 
 		case FIELD_SINGLE:
 		{
-			complex<float> *field;
+			float *field;
 			float  fac = factor;
-			size_t vol = sField->eSize();
+			size_t vol = scaleReals(sField, fIdx);
 
 			switch (fIdx)
 			{
 				case FIELD_M:
-				field = static_cast<complex<float> *> (sField->mCpu());
+				field = static_cast<float *> (sField->mCpu());
 				break;
 
 				case FIELD_V:
-				field = static_cast<complex<float> *> (sField->vCpu());
+				field = static_cast<float *> (sField->vCpu());
 				break;
 
 				case FIELD_M2:
@@ -68,11 +89,12 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 					return;
 				}
 
-				field = static_cast<complex<float> *> (sField->m2Cpu());
+				field = static_cast<float *> (sField->m2Cpu());
 				break;
 
 				default:
 				LogError ("Error: unrecognized field type");
+				return;
 				break;
 			}
 
-- 
2.43.0


From 4bc022c7d0fbe843d0d4aecd245260eb0d33048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 020/103] fix: theta2Cmplx used R'/R = 1/R in the velocity,
 whatever the expansion

---
 lib/scalar/theta2CmplxXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/theta2CmplxXeon.cpp b/lib/scalar/theta2CmplxXeon.cpp
index b948dce..b48d2e5 100644
--- a/lib/scalar/theta2CmplxXeon.cpp
+++ b/lib/scalar/theta2CmplxXeon.cpp
@@ -22,7 +22,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<double> II = complex<double>{0,1};
 			size_t vol = sField->Size();
 			double r = *sField->RV();
-			double ir = 1/r;
+			double ir = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<double>*> (sField->mStart());
@@ -46,7 +46,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<float> II = complex<float>{0,1};
 			size_t vol = sField->Size();
 			float r = *sField->RV();
-			float ir = 1/r;
+			float ir = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<float>*> (sField->mStart());
-- 
2.43.0


From b9abd2a88076afbdc290b8aa03a0345e28838f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 021/103] fix: after closing the FFT no MPI plan could be made
 again (FFTW MPI was not cleaned up with the rest)

---
 lib/fft/fftCode.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 0869994..6464f9f 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -808,7 +808,7 @@ namespace AxionFFT {
 			LogMsg (VERB_PARANOID, "             %s", name.c_str());
 		}
 
-		FieldPrecision	prec;
+		FieldPrecision	prec = FIELD_NONE;
 
 		for (auto fft = fftPlans.cbegin(); fft != fftPlans.cend(); ) {
 			auto name = (*fft).first;
@@ -835,15 +835,13 @@ namespace AxionFFT {
 			case FIELD_SINGLE:
 				if (useThreads)
 					fftwf_cleanup_threads();
-				else
-					fftwf_cleanup();
+				fftwf_mpi_cleanup();
 			break;
 
 			case FIELD_DOUBLE:
 				if (useThreads)
 					fftw_cleanup_threads();
-				else
-					fftw_cleanup();
+				fftw_mpi_cleanup();
 				break;
 
 
-- 
2.43.0


From dc2276a4e6068274058acf513b33afe063217461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 022/103] fix: histograms of data starting with an infinite
 value were lost

---
 include/utils/binner.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/utils/binner.h b/include/utils/binner.h
index 9848468..e8fdc1b 100644
--- a/include/utils/binner.h
+++ b/include/utils/binner.h
@@ -5,6 +5,7 @@
 	#include <algorithm>
 	#include <cmath>
 	#include <functional>
+	#include <limits>
 	#include <string>
 	#include <mpi.h>
 
@@ -103,15 +104,16 @@
 		if ((inData == nullptr) || (dSize == 0))
 			return ;
 
-		auto	car = filter(inData[0]);
-		auto	cir = filter(inData[0]);
+		/* the first datum might be infinite as well */
+		double	car = -std::numeric_limits<double>::infinity();
+		double	cir =  std::numeric_limits<double>::infinity();
 		int	anf =0;
 		int Ninf = 0;
 
 		if (PaddedLength == DataLength) {
 
 			#pragma omp parallel for schedule(static) reduction(max:car) reduction(min:cir) reduction(+:anf)
-			for (size_t idx=1; idx<dSize; idx++) {
+			for (size_t idx=0; idx<dSize; idx++) {
 
 				double tmp = filter(inData[idx]);
 
@@ -129,7 +131,7 @@
 		} else if (PaddedLength > DataLength) {
 			LogMsg (VERB_NORMAL, "Padded loop");LogFlush();
 			#pragma omp parallel for schedule(static) reduction(max:car) reduction(min:cir) reduction(+:anf)
-			for (size_t idx=1; idx<dSize; idx++) {
+			for (size_t idx=0; idx<dSize; idx++) {
 
 				if (idx%PaddedLength >= DataLength)
 					continue;
-- 
2.43.0


From 80871e381e56154711e60da610a8ac82ba49bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 023/103] fix: reducing an axion field into a new one overwrote
 the original field and left the new m unset

---
 lib/reducer/reducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index 2153335..02b37bb 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -262,7 +262,8 @@ Scalar*	Reducer<Float>::runCpu	()
 				memcpy(mD, fOut, volData);
 			} else {
 				// Copy m to the second axionField
-				memcpy(mIn, fOut, volData);
+				Float *mD = static_cast<Float*>(outField->mStart());
+				memcpy(mD, fOut, volData);
 			}
 
 			transformField<Float,complex<Float>,Float,true>(vIn, fMid, fOut, "pSpecAx");
-- 
2.43.0


From a8d9cc92462185b10197d9ca6c088a603a1c0ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 024/103] fix: the FFT plan of v used by the reducer was not
 transposed, so its filter got the y and z modes exchanged

---
 lib/fft/fftCode.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 6464f9f..24b25c0 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -216,10 +216,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
@@ -417,10 +417,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
-- 
2.43.0


From 4f14c0f083588d38a4f3673f9f0d0bbf69dd420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 025/103] fix: the reducer took the ghost planes of v for data
 in paxion mode

---
 lib/reducer/reducer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index 02b37bb..4e3ed4a 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -246,7 +246,7 @@ Scalar*	Reducer<Float>::runCpu	()
 			// CASE AXION, AXION_MOD
 		} else {
 			Float          *mIn  = static_cast<Float*>         (axionField->mStart());
-			Float          *vIn  = static_cast<Float*>         (axionField->vCpu());
+			Float          *vIn  = static_cast<Float*>         (axionField->vStart());
 			Float          *fOut = static_cast<Float*>         (axionField->m2Cpu());
 			complex<Float> *fMid = static_cast<complex<Float>*>(axionField->m2Cpu());
 
@@ -269,9 +269,12 @@ Scalar*	Reducer<Float>::runCpu	()
 			transformField<Float,complex<Float>,Float,true>(vIn, fMid, fOut, "pSpecAx");
 
 			if (inPlace) {
-				memcpy(vIn, fOut, volData);
+				// v has ghosts too in paxion mode, their size is that of the reduced field
+				Float *vD = (axionField->Field() == FIELD_PAXION) ?
+					static_cast<Float*>(axionField->vCpu()) + (newLx*newLx)*axionField->getNg() : vIn;
+				memcpy(vD, fOut, volData);
 			} else {
-				Float *vD      = static_cast<Float*>(outField->vCpu());
+				Float *vD      = static_cast<Float*>(outField->vStart());
 				// Copy v to the second axionField
 				memcpy(vD, fOut, volData);
 			}
-- 
2.43.0


From 3d8b3e6667f0b4983d56b3ca6c893363a03ea415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 026/103] fix: expanding a field extrapolated from the wrong
 cells when the ratio was fractional or differed between z and x

---
 include/utils/simpleops.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/utils/simpleops.h b/include/utils/simpleops.h
index b5f4507..6f93c09 100644
--- a/include/utils/simpleops.h
+++ b/include/utils/simpleops.h
@@ -194,6 +194,7 @@
 		Lmax = floor((n+1)*N'/N)
 		*/
 		double r = ((double) nx)/((double) Nx);
+		double rz = ((double) nz)/((double) Nz);
 
 		#pragma omp parallel default(shared)
 		{
@@ -207,11 +208,13 @@
 			#pragma omp for schedule(static)
 			for (size_t riz = 0; riz < nz; riz++) {
 			 iz0 = (riz*Nz)/nz;
+			 if (riz*Nz % nz) iz0++;
 			 izM = ((riz+1)*Nz)/nz;
 			 if ((riz+1)*Nz % nz ==0) izM--;
 
 			 for (size_t riy = 0; riy < nx; riy++) {
 				iy0 = (riy*Nx)/nx;
+				if (riy*Nx % nx) iy0++;
 				iyM = ((riy+1)*Nx)/nx;
                                 if ((riy+1)*Nx % nx ==0) iyM--;
 				for (size_t rix = 0; rix < nx; rix++) {
@@ -236,13 +239,13 @@
 					//iy0 = (riy*Nx)/nx;
 					// if (riy*Nx % nx) iy0++;
 					ix0 = (rix*Nx)/nx;
-					// if (rix*Nx % nx) ix0++;
+					if (rix*Nx % nx) ix0++;
 					//izM = ((riz+1)*Nz)/nz;
 					//if ((riz+1)*Nz % nz ==0) izM--;
 					//iyM = ((riy+1)*Nx)/nx;
 					//if ((riy+1)*Nx % nx ==0) iyM--;
 					ixM = ((rix+1)*Nx)/nx;
-					if ((rix+1)*Nz % nx ==0) ixM--;
+					if ((rix+1)*Nx % nx ==0) ixM--;
 
 
 					for (size_t iz = iz0; iz <= izM; iz++) {
@@ -252,7 +255,7 @@
 
 								dx = r*ix - ((double) rix);
 								dy = r*iy - ((double) riy);
-								dz = r*iz - ((double) riz);
+								dz = rz*iz - ((double) riz);
 
 
 								s[ix+Nx*(iy+Nx*iz)] =
-- 
2.43.0


From d3cd76f89758c39df562041af969685ea92a0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 027/103] fix: the map of an energy slice was always taken from
 the first rank, reading beyond its data for the slices of the others

---
 lib/io/readWrite.pHdf5.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 779a710..b73d620 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -4040,7 +4040,10 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
 	hsize_t slb  = axion->Surf();
 	hsize_t lSz  = axion->Length();
-	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*slicenumbertoprint;
+	/*	Slice within its rank and rank which holds it, as in writeMapHdf5s	*/
+	int slicenumber = slicenumbertoprint % axion->Depth();
+	int prank       = slicenumbertoprint / axion->Depth();
+	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*slicenumber;
 	// char eCh[16] = dataname;
 
 	LogMsg (VERB_NORMAL, "[wem] Writing 2D energy map to Hdf5 measurement file");
@@ -4076,13 +4079,6 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		dataType = H5T_NATIVE_FLOAT;
 	}
 
-	int slicenumber = slicenumbertoprint ;
-	if (slicenumbertoprint > axion->Depth())
-	{
-		LogMsg (VERB_NORMAL, "Sliceprintnumberchanged to 0");
-		slicenumber = 0;
-	}
-
 	/*	Create a group for map data if it doesn't exist	*/
 	auto status = H5Lexists (meas_id, "/map", H5P_DEFAULT);
 
@@ -4107,7 +4103,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		exit (1);
 	}
 
-	if (myRank != 0) {
+	if (myRank != prank) {
 		H5Sselect_none(mapSpace);
 	}
 
@@ -4163,7 +4159,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 
 	hsize_t offset = 0;
 
-	if (myRank == 0) {
+	if (myRank == prank) {
 		H5Sselect_hyperslab(eSpace, H5S_SELECT_SET, &offset, NULL, &slb, NULL);
 	} else {
 		H5Sselect_none(eSpace);
-- 
2.43.0


From 4a66770cdf365a63e79dc1e7b4d5c1d5e6f5eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 028/103] fix: the YZ map of the slice one past the last was
 written with data from the next line

---
 lib/io/readWrite.pHdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index b73d620..1a2bcdc 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -3901,7 +3901,7 @@ void	writeMapHdf5s2	(Scalar *axion, int slicenumbertoprint)
 	//if (axion->Folded())
 	//{
 		int slicenumber = slicenumbertoprint ;
-		if (slicenumbertoprint > axion->Length())
+		if (slicenumbertoprint >= (int) axion->Length())
 		{
 			LogMsg (VERB_NORMAL, "[wm2] Sliceprintnumberchanged to 0");
 			slicenumber = 0;
-- 
2.43.0


From 09285852956ecd10b0ce6a3efa27dee153449463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 029/103] fix: string attributes of 32 characters were read
 into, and longer names written to, buffers of 16

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 1a2bcdc..62562ad 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -225,7 +225,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
-	char	prec[16], fStr[16], lStr[16], rStr[16], dStr[16], vStr[32], vPQStr[32], icStr[16], smStr[16];
+	char	prec[32], fStr[32], lStr[32], rStr[32], dStr[32], vStr[32], vPQStr[32], icStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -762,7 +762,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		hid_t	attr_type;
 		hsize_t	slab, offset;
 		FieldPrecision	precision;
-		char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16];
+		char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32];
 		int	length = 32;
 		const hsize_t maxD[1] = { H5S_UNLIMITED };
 		size_t	dataSize;
@@ -1581,7 +1581,7 @@ void	createMeas (Scalar *axion, int index)
 {
 	hid_t	plist_id, dataType;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16], dStr[16], rStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32], dStr[32], rStr[32];
 	int	length = 32;
 
 //	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -5352,7 +5352,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 
 	FieldPrecision	precision;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], smStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
-- 
2.43.0


From adea2f5edca25e19416168eb9e538b197681ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 030/103] fix: the PQ potentials 2 and 3 written in a
 configuration were not recognised when reading it

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 62562ad..b2ae6be 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1088,9 +1088,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "VPQ 1"))
 						vqcdType |= V_PQ1;
-					else if ( !strcmp(vStr, "VPQ2"))
+					else if ( !strcmp(vStr, "VPQ 2") || !strcmp(vStr, "VPQ2"))
 						vqcdType |= V_PQ2;
-					else if ( !strcmp(vStr, "VPQ3"))
+					else if ( !strcmp(vStr, "VPQ 3") || !strcmp(vStr, "VPQ3"))
 						vqcdType |= V_PQ3;
 					else {
 						LogError ("Error reading file %s: invalid PQ potential type %s. Use PQ1", base, vStr);
-- 
2.43.0


From 5372bd050a9b94b6f099d3d877ce6c612e83f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 031/103] fix: the expansion exponent was taken neither from
 the configuration file nor, when reading one, from the command line

---
 include/utils/parse.h      |  2 ++
 lib/io/readWrite.pHdf5.cpp | 18 +++++++++++-------
 lib/utils/parse.cpp        |  2 ++
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/utils/parse.h b/include/utils/parse.h
index bcfa1d5..7dc3040 100644
--- a/include/utils/parse.h
+++ b/include/utils/parse.h
@@ -67,6 +67,8 @@ extern bool uPrec;
 //extern bool uPot;
 extern bool uZin;
 extern bool uZfn;
+extern bool uFR;
+extern bool uMI;
 extern bool aMod;
 extern bool spectral;
 extern bool fpectral;
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index b2ae6be..4f375b6 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -861,16 +861,20 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 			/* expansion parameter; cosmology, R = z^frw  */
 
+			fTmp = myCosmos->Frw();
 			readAttribute (file_id, &fTmp,  "Frw",          H5T_NATIVE_DOUBLE);
 
 			// note: command line is given precedence
-			if (myCosmos->Frw() != fTmp) {
-				LogMsg (VERB_NORMAL, "Commandline input for frw (%.2f) does not match h5read value (%.2f); frw set to input %.2f",myCosmos->Frw(),fTmp,myCosmos->Frw());
-				fTmp = myCosmos->Frw();
-				if (fTmp == 0.0 ){
-					myCosmos->SetMink(true);
-					LogMsg (VERB_NORMAL, "Set Mink (frw = 0, no expansion)");
-				}
+			if (uFR || uMI) {
+				if (myCosmos->Frw() != fTmp)
+					LogMsg (VERB_NORMAL, "Commandline input for frw (%.2f) does not match h5read value (%.2f); frw set to input %.2f",myCosmos->Frw(),fTmp,myCosmos->Frw());
+			} else {
+				myCosmos->SetFrw(fTmp);
+			}
+
+			if (myCosmos->Frw() == 0.0 ){
+				myCosmos->SetMink(true);
+				LogMsg (VERB_NORMAL, "Set Mink (frw = 0, no expansion)");
 			}
 
 			/* Box length in ADM units */
diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index c4ef53e..81a9e8a 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -777,6 +777,8 @@ int	parseArgs (int argc, char *argv[])
 				printf("Warning: Contracting Universe?\n");
 			}
 
+			uFR = true;
+
 			PARSE2;
 		}
 
-- 
2.43.0


From b979735cb75819cd6f7d3a29fafd49b6bf472623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 032/103] fix: configurations without initial-condition label
 were read with an uninitialised one, and failing to open a file did not leave
 a null field

---
 lib/io/readWrite.pHdf5.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 4f375b6..6a3fd0d 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -221,7 +221,7 @@ void	enableErrorStack	()
 
 void	writeConf (Scalar *axion, int index, const bool restart)
 {
-	hid_t	file_id, mset_id, vset_id, plist_id, chunk_id;
+	hid_t	file_id, mset_id, vset_id = 0, plist_id, chunk_id;
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
@@ -564,6 +564,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		default:
 		case	CONF_NONE:
 			sprintf(icStr, "None");
+			writeAttribute(icGrp_id, &icStr, "Initial conditions",   attr_type);
 			break;
 	}
 
@@ -796,7 +797,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 		if ((file_id = H5Fopen (base, H5F_ACC_RDONLY, plist_id)) < 0)
 		{
-			*axion == nullptr;
+			*axion = nullptr;
 			LogError ("Error opening file %s", base);
 			return;
 		}
@@ -1180,6 +1181,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			{
 				hid_t icGrp_id = H5Gopen2(file_id, "/ic", H5P_DEFAULT);
 				readAttribute(icGrp_id, &mode0, "Axion zero mode", H5T_NATIVE_DOUBLE);
+				icStr[0] = '\0';
 				readAttribute(icGrp_id, &icStr, "Initial conditions",   attr_type);
 
 				if (!strcmp(icStr, "Smooth")) {
@@ -5387,7 +5389,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 	/*	Open the file and release the plist	*/
 	if ((file_id = H5Fopen (base, H5F_ACC_RDONLY, plist_id)) < 0)
 	{
-		*axion == nullptr;
+		*axion = nullptr;
 		LogError ("Error opening file %s", base);
 		return 0.0;
 	}
-- 
2.43.0


From 2f4047d261b9ba9cbc1dfaa85474dc4164e71e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 033/103] fix: planning the FFTs again erased the field reduced
 while reading a configuration

---
 lib/io/readWrite.pHdf5.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 6a3fd0d..15c8105 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1547,6 +1547,12 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			// memmove((*axion)->mStart(),auxion->mCpu(), sizeN*sizeN*sizeZ * auxion->DataSize());
 			// memmove((*axion)->vCpu(),  auxion->vCpu(), sizeN*sizeN*sizeZ * auxion->DataSize());
 			LogMsg(VERB_NORMAL, "[rc] 2 - remove plans from large axion");
+			/*	The planner overwrites m and v unless FFTW_ESTIMATE is used, keep the reduced field aside	*/
+			size_t bytes = (*axion)->Size()*(*axion)->DataSize();
+			std::vector<char> mTmp(bytes), vTmp(bytes);
+			memcpy (mTmp.data(), (*axion)->mStart(), bytes);
+			memcpy (vTmp.data(), (*axion)->vStart(), bytes);
+
 			AxionFFT::removePlan("pSpecAx");
 			AxionFFT::removePlan("SpSx");
 			AxionFFT::removePlan("RdSxV");
@@ -1554,6 +1560,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			AxionFFT::initPlan (*axion, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
 			AxionFFT::initPlan (*axion, FFT_SPSX,       FFT_FWDBCK,     "SpSx");
 			AxionFFT::initPlan (*axion, FFT_RDSX_V,     FFT_FWDBCK,    "RdSxV");
+
+			memcpy ((*axion)->mStart(), mTmp.data(), bytes);
+			memcpy ((*axion)->vStart(), vTmp.data(), bytes);
 			LogMsg(VERB_NORMAL, "[rc] 4 - Reduction complete!");
 			// LogMsg(VERB_NORMAL, "[rc] 8 - Remove auxion");
 			// delete auxion; kkils the FFTs do not use!
-- 
2.43.0


From 1bce953818cde9dc039db9d1b7eca5c33eaeb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 034/103] fix: the tuner never ended its search (or divided by
 zero) for lattices with less than four vectors per row

---
 include/utils/tunable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/tunable.h b/include/utils/tunable.h
index 5bef5df..ff96c46 100644
--- a/include/utils/tunable.h
+++ b/include/utils/tunable.h
@@ -94,7 +94,7 @@
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
 				} else {
-					yBlock = 3;
+					yBlock = (ySize > 4) ? 3 : ySize-1;
 					do {
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
-- 
2.43.0


From 970174541025e6565ff301890915b234c4a3826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 035/103] fix: vaxion3d never started when the ratio of axion
 and saxion masses is constant (search for z_doom without end)

---
 test/vaxions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/test/vaxions.cpp b/test/vaxions.cpp
index 79bf97c..16ebb60 100755
--- a/test/vaxions.cpp
+++ b/test/vaxions.cpp
@@ -615,6 +615,10 @@ double findzdoom(Scalar *axion)
 		a = std::log(DWfun2/DWfun)/std::log(ct2/ct);
 		k = DWfun2/std::pow(ct2,a);
 		// LogOut("ct %e DWfun %e ct2 %e DWfun2 %e meas %e k %e a %e\n", ct, DWfun, ct2, DWfun2, meas, k ,a );
+		if ((a == 0) && (DWfun2 <= DWfun0) ){
+			LogMsg(VERB_PARANOID,"[VAX findzdoom] the ratio of masses does not grow");
+			return (DWfun2 > 1) ? *axion->zV() : INFINITY;
+		}
 		if ((a == 0) && (DWfun2 > DWfun0) ){
 			LogMsg(VERB_PARANOID,"[VAX findzdoom] flat slope between ct %e ct2 %e", ct, ct2 );
 			if (DWfun2 > 1) {
-- 
2.43.0


From 87ebb7163eecdd29a269d990757456d21ff392ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 036/103] fix: the tuned propagators looped without end when
 the local depth is less than two boundary depths (negative range of slices)

---
 include/propagator/propClass.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 1af4115..bc7cdf0 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -539,7 +539,7 @@
 
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
 
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V , precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
@@ -552,7 +552,7 @@
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
 
-			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
@@ -572,7 +572,7 @@
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
 
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., 2*BO, V   , precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
@@ -689,7 +689,7 @@
 
 			const double	c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
 
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
@@ -705,7 +705,7 @@
 			ppar.Rpp    = axion->Rpp();
 			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
-			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
@@ -726,7 +726,7 @@
 			ppar.Rpp    = axion->Rpp();
 			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
@@ -770,7 +770,7 @@
 
 			const double c0 = c[s], d0 = d[s];
 
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
@@ -791,7 +791,7 @@
 
 			const double c0 = c[nStages];
 
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
@@ -1041,7 +1041,7 @@
 			ppar.ct     = *axion->zV();
 			ppar.R      = *axion->RV();
 			ppar.massA  = axion->AxionMass();
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
@@ -1053,7 +1053,7 @@
 			ppar.ct     = *axion->zV();
 			ppar.R      = *axion->RV();
 			ppar.massA  = axion->AxionMass();
-			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
@@ -1069,7 +1069,7 @@
 			ppar.ct     = *axion->zV();
 			ppar.R      = *axion->RV();
 			ppar.massA  = axion->AxionMass();
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
@@ -1125,7 +1125,7 @@
 			ppar.massA  = axion->AxionMass();
 			ppar.sign   = 1;
 			/*updates v(2) with m(1) lap data and NL function */
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
@@ -1137,7 +1137,7 @@
 			ppar.n      = axion->BckGnd()->DlogMARDlogct(ppar.ct);
 			ppar.massA  = axion->AxionMass();
 			ppar.sign   = -1;
-			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_V, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
@@ -1155,7 +1155,7 @@
 			ppar.n      = axion->BckGnd()->DlogMARDlogct(ppar.ct);
 			ppar.massA  = axion->AxionMass();
 			ppar.sign   = 1;
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, 2*BO, std::max(V, 2*BO), precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
-- 
2.43.0


From 22b40b2f2002671ca57f15ec7cbf90bf7a35a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 037/103] fix: after restarting, measurements of the list
 closer than one step to the restart time were skipped

---
 test/vaxions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/test/vaxions.cpp b/test/vaxions.cpp
index 16ebb60..9a6a5c0 100755
--- a/test/vaxions.cpp
+++ b/test/vaxions.cpp
@@ -234,6 +234,9 @@ int	main (int argc, char *argv[])
 				i_meas++;
 				LogOut("i_meas++ initial conditions coincided with 1st measurement\n");
 		}
+		/* the measurement at the time of the restart file was made before interrupting */
+		while (restart_flag && (i_meas+1 < measfilepar.ct.size()) && (measfilepar.ct[i_meas] - (*axion->zV()) < 1.0e-10))
+				i_meas++;
 
 	}
 
-- 
2.43.0


From 4964295adbf113bd514ae5c27e22904a436bc202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 038/103] Revert "fix: after restarting, measurements of the
 list closer than one step to the restart time were skipped"

This reverts commit 22b40b2f2002671ca57f15ec7cbf90bf7a35a4c9.
---
 test/vaxions.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/test/vaxions.cpp b/test/vaxions.cpp
index 9a6a5c0..16ebb60 100755
--- a/test/vaxions.cpp
+++ b/test/vaxions.cpp
@@ -234,9 +234,6 @@ int	main (int argc, char *argv[])
 				i_meas++;
 				LogOut("i_meas++ initial conditions coincided with 1st measurement\n");
 		}
-		/* the measurement at the time of the restart file was made before interrupting */
-		while (restart_flag && (i_meas+1 < measfilepar.ct.size()) && (measfilepar.ct[i_meas] - (*axion->zV()) < 1.0e-10))
-				i_meas++;
 
 	}
 
-- 
2.43.0


From 2958da5144ecb162df42150987dbf12f46a64d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 039/103] Revert "fix: vaxion3d never started when the ratio of
 axion and saxion masses is constant (search for z_doom without end)"

This reverts commit 970174541025e6565ff301890915b234c4a3826a.
---
 test/vaxions.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/test/vaxions.cpp b/test/vaxions.cpp
index 16ebb60..79bf97c 100755
--- a/test/vaxions.cpp
+++ b/test/vaxions.cpp
@@ -615,10 +615,6 @@ double findzdoom(Scalar *axion)
 		a = std::log(DWfun2/DWfun)/std::log(ct2/ct);
 		k = DWfun2/std::pow(ct2,a);
 		// LogOut("ct %e DWfun %e ct2 %e DWfun2 %e meas %e k %e a %e\n", ct, DWfun, ct2, DWfun2, meas, k ,a );
-		if ((a == 0) && (DWfun2 <= DWfun0) ){
-			LogMsg(VERB_PARANOID,"[VAX findzdoom] the ratio of masses does not grow");
-			return (DWfun2 > 1) ? *axion->zV() : INFINITY;
-		}
 		if ((a == 0) && (DWfun2 > DWfun0) ){
 			LogMsg(VERB_PARANOID,"[VAX findzdoom] flat slope between ct %e ct2 %e", ct, ct2 );
 			if (DWfun2 > 1) {
-- 
2.43.0


From 39ceaeb5e74bf7032774da79adaad654a2dded6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 040/103] fix: the tabulated cosmology was set up with
 uninitialised loop counters and an uninitialised path

---
 lib/cosmos/cosmos.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 632cc03..029f801 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -21,7 +21,7 @@ void Cosmos::Setup()
 
   /*Read Cosmology*/
 
-  char cosName[2048];
+  char cosName[2048] = ".";
   if (const char *cosPath = std::getenv("JAXIONS_DIR")) {
     if (strlen(cosPath) < 1022) {
       struct stat tStat;
@@ -32,7 +32,7 @@ void Cosmos::Setup()
       }
     }
   }
-  sprintf(cosName, "%s%s", cosName,  "/include/cosmos/jaxi-cosmo.txt");
+  strcat(cosName, "/include/cosmos/jaxi-cosmo.txt");
   std::vector<double>	etav, Rv, Tv, Rppv, chiv, pfv;
   FILE *cFile = nullptr;
   if (((cFile  = fopen(cosName, "r")) == nullptr)){
@@ -90,7 +90,7 @@ void Cosmos::Setup()
   LogFlush();
   {
     std::vector<double>	letav;
-    for (int i; i < etav.size();i++)
+    for (size_t i = 0; i < etav.size();i++)
       letav.push_back(std::log10(etav[i]));
 
     double lfA = std::log10(fA);
@@ -132,7 +132,7 @@ void Cosmos::Setup()
     in ADM units we thus have R_ctct/R = Rpp/ct^2
     should we tabulate however the log, which extrapolates safely to 0? */
 
-  for (int i; i < etav.size();i++){
+  for (size_t i = 0; i < etav.size();i++){
     etav[i] /= eta1;
     Rv[i]   /= R1;
     chiv[i] /= chi1;
-- 
2.43.0


From 4e0b5ada1cdd1163d7aecfe3e3fc7c00b612936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 041/103] fix: logarithmic derivative of the axion mass with a
 tabulated cosmology lacked a parenthesis

---
 lib/cosmos/cosmos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 029f801..1f41c45 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -296,7 +296,7 @@ double  Cosmos::DlogMARDlogct (const double ct)
 {
   if (ueCosm){
     double e = 1.e-6;
-    return (ct*std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
+    return ct*(std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
   }
   else {
     /*(nqcd/2 + 1)*frw*/
-- 
2.43.0


From fcaac8dffefe6b0e5b6dfb06953cbccb6b56a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 042/103] fix: derivatives of the scale factor and of the axion
 mass ignored the matter term of R

---
 lib/cosmos/cosmos.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 1f41c45..0ace284 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -178,6 +178,8 @@ double  Cosmos::Rpp  (const double ct)
   double rpp;
   if (ueCosm)
     rpp = sRpp(ct)/(ct*ct);
+  else if (frw == 1 && icdatastruc.grav > 0.0)
+    rpp = 0.5 * icdatastruc.grav/R(ct);
   else
   {
     // R = ct^frw
@@ -196,6 +198,8 @@ double  Cosmos::Rp  (const double ct)
     rp = (R(ct+1.e-3)-R(ct-1.e-3))/(2.e-3 * R(ct));
     LogMsg(VERB_NORMAL,"[Cos] calculating Rp =R(ct+e)-R(ct-e)/2eR = %e",rp);
   }
+  else if (frw == 1 && icdatastruc.grav > 0.0)
+    rp = (1 + 0.5 * ct * icdatastruc.grav)/R(ct);
   else {
   // R = ct^frw
   // R'/R = frw/ct
@@ -272,17 +276,17 @@ double  Cosmos::DAxionMass2Dct (const double ct)
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
 
       if (RNow >= zThRes && RNow <= zRestore)
         dMass2 = 0;
 
       if (RNow > zRestore)
-        dMass2 = nQcdr*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcdr*Rp(ct)*AxionMass2(ct);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
       else
         dMass2 = 0.0;
     }
@@ -301,24 +305,25 @@ double  Cosmos::DlogMARDlogct (const double ct)
   else {
     /*(nqcd/2 + 1)*frw*/
     double RNow = R(ct);
+    double dlR  = ct*Rp(ct);   /* frw if R = ct^frw */
     double dlmRlct;
 
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = dlR*(nQcd/2+1);
 
       if (RNow >= zThRes && RNow <= zRestore)
-        dlmRlct = frw;
+        dlmRlct = dlR;
 
       if (RNow > zRestore)
-        dlmRlct = frw*(nQcdr/2+1);
+        dlmRlct = dlR*(nQcdr/2+1);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = dlR*(nQcd/2+1);
       else
-        dlmRlct = frw;
+        dlmRlct = dlR;
     }
 
 LogMsg(VERB_PARANOID,"[Cos:] DlogMARDlogct %.2e ",dlmRlct);
-- 
2.43.0


From e35a5121534d79a56653c362023f372a453bee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 043/103] fix: axion angle conversions and energies took R' of
 a power law for any expansion

---
 lib/energy/energyThetaXeon.cpp | 2 +-
 lib/scalar/mendThetaXeon.cpp   | 2 +-
 lib/scalar/thetaXeon.cpp       | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/energy/energyThetaXeon.cpp b/lib/energy/energyThetaXeon.cpp
index 317dbc4..55e413f 100755
--- a/lib/energy/energyThetaXeon.cpp
+++ b/lib/energy/energyThetaXeon.cpp
@@ -496,7 +496,7 @@ void	energyThetaCpu	(Scalar *axionField, const double delta2, const double aMass
 	const double ood2 = 0.25/delta2;
 	double *R  = axionField->RV();
 	double *z  = axionField->zV();
-	double frw = axionField->BckGnd()->Frw();
+	double frw = axionField->BckGnd()->Rp(*z)*(*z);	/* d log R/d log ct, frw if R = ct^frw */
 
 	const FieldPrecision precision = axionField->Precision();
 	const size_t Lx = axionField->Length();
diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index 8e510ca..66a545a 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -1084,7 +1084,7 @@ size_t	mendThetaXeon (Scalar *field)
 	constexpr int	fStep = Align/sizeof(float);
 	const double	R     = *(field->RV());
 	/* psi = R theta, so that a jump of 2 Pi R in psi is a jump of 2 Pi R' in psi' (same R' as in toThetaXeon) */
-	const double	Rp    = field->BckGnd()->Frw()*R/(*(field->zV()));
+	const double	Rp    = field->BckGnd()->Rp(*field->zV())*R;
 	size_t		tJmp = 0;
 	unsigned long tota = 0;
 
diff --git a/lib/scalar/thetaXeon.cpp b/lib/scalar/thetaXeon.cpp
index 9ead872..aa33c08 100644
--- a/lib/scalar/thetaXeon.cpp
+++ b/lib/scalar/thetaXeon.cpp
@@ -28,9 +28,8 @@ void	toThetaKernelXeon (Scalar *sField, const Float shift)
 	Float *aField1  = static_cast<Float*>(sField->mFrontGhost()) ;
 	Float *aField2  = static_cast<Float*>(sField->mBackGhost()) ;
 
-	const Float z = static_cast<Float>(sField->zV()[0]);
 	const Float R = static_cast<Float>(sField->RV()[0]);
-	const Float F = static_cast<Float>(sField->BckGnd()->Frw())*R/z;
+	const Float F = static_cast<Float>(sField->BckGnd()->Rp(*sField->zV()))*R;
 
 	for (size_t cZ = 0; cZ < Lz; cZ++)
 	{
-- 
2.43.0


From ca9d88aa4123c4cc791c33eba37b232c3476fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 044/103] fix: time integrals of the saturated axion mass used
 the wrong mass, time and slope

---
 lib/scalar/scalarField.cpp | 123 ++++++++++---------------------------
 1 file changed, 33 insertions(+), 90 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 3165347..54b8aa8 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1220,113 +1220,56 @@ double	Scalar::AxionMassSq() {
 // and R = z^frw
 double	Scalar::IAxionMassSqn(double z0, double z, int nn) {
 
-	double aMass;
-	double RNow      = *RV();
 	double &zThRes   = bckgnd->ZThRes();
-	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
+	double  frw      = bckgnd->Frw();
 
 	// assume zrestore is infty
-	// exponent of the time integral
-	if (z > z0){
-		if (z <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z > zThRes) && (z0 < zThRes)){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-	} else {
-		if (z0 <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z0 > zThRes) && (z < zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z0 > zThRes && (z >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-	}
+	if (z < z0)
+		return -IAxionMassSqn(z, z0, nn);
+
+	// time at which the mass saturates, R = zThRes
+	double zSat = (frw > 0.) ? pow(zThRes, 1./frw) : ((zThRes > 1.) ? z : z0);
+	double zS   = std::min(std::max(zSat, z0), z);
+
+	// exponents of the time integral before and after
+	double e1 = frw*(nQcd+nn) + 1;
+	double e2 = frw*nn        + 1;
+
+	return	indi3*indi3*(pow(zS, e1)-pow(z0, e1))/e1
+	      + indi3*indi3*pow(zThRes, nQcd)*(pow(z, e2)-pow(zS, e2))/e2;
 }
 
 // 2nd time integral of the axion mass^2 R^n assuming it is a truncated power law
 // and R = z^frw
 double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 
-	double aMass;
-	double RNow      = *RV();
 	double &zThRes   = bckgnd->ZThRes();
-	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
+	double  frw      = bckgnd->Frw();
 
 	// assume zrestore is infty
-	// exponent of the time integral
-	if (z>z0){
-		if (z <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z > zThRes) && (z0 < zThRes)){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-	} else {
-		if (z0 <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z0 > zThRes) && (z < zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-	}
+	// time at which the mass saturates, R = zThRes
+	double zSat = (frw > 0.) ? pow(zThRes, 1./frw) : ((zThRes > 1.) ? std::max(z,z0) : std::min(z,z0));
+	// the interval is split there, in either direction of time
+	double zS   = std::min(std::max(zSat, std::min(z0,z)), std::max(z0,z));
+
+	// int_a^b dt int_a^t dt' m0 t'^(e-1)
+	auto II = [] (double a, double b, double m0, double e)
+		{ return m0*((pow(b, e+1)-pow(a, e+1))/(e*(e+1)) - pow(a, e)*(b-a)/e); };
+
+	// exponents of the time integral before and after, mass after
+	double e1 = frw*(nQcd+nn) + 1;
+	double e2 = frw*nn        + 1;
+	double m1 = indi3*indi3;
+	double m2 = indi3*indi3*pow(zThRes, nQcd);
+
+	double first  = (z > z0) ? II(z0, zS, m1, e1) : II(z0, zS, m2, e2);
+	double second = (z > z0) ? II(zS, z , m2, e2) : II(zS, z , m1, e1);
 
+	return	first + IAxionMassSqn(z0, zS, nn)*(z-zS) + second;
 }
 // Saxion mass squared, perhaps the following functions could be rewriten to use this one
 double  Scalar::SaxionMassSq  ()
-- 
2.43.0


From e510081fe0d09f9e89463fcf3c500ffb4d1456b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 045/103] fix: saxion shift at a given time was that of the
 present time

---
 lib/scalar/scalarField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 54b8aa8..886a899 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1429,13 +1429,13 @@ double  Scalar::Saskia  (const double ct)
 
 		case    V_QCD1:
 			if 			((pot & V_PQ) & (V_PQ1 | V_PQ3)){
-				double sh = SaxionShift();
+				double sh = SaxionShift(ct);
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ1 %e",sh);
 				return sh;
 			}
 			else if ((pot & V_PQ) == V_PQ2)
 			{
-				double sh = rsvPQ2(AxionMassSq()/bckgnd->LambdaP (*z));
+				double sh = rsvPQ2(AxionMassSq(ct)/bckgnd->LambdaP (ct));
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ2 %e",sh);
 				return sh ;
 			}
-- 
2.43.0


From 12a3e2277be6e4a9cde4fd5153f5cc1eac0a2204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 046/103] fix: automatic step to the threshold was negative
 when R is not a power law

---
 lib/scalar/scalarField.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 886a899..dc5e55b 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1341,7 +1341,17 @@ double	Scalar::dzSize	   (double zNow) {
 			// dct = pow(bckgnd->ZThRes(),1.0/bckgnd->Frw()) - zNow;
 			/* Rather, go a ministep ahead */
 			double zNext = zNow + dct;
-			dct = pow(bckgnd->ZThRes()+ 0.001*(RNext-bckgnd->ZThRes()),1.0/bckgnd->Frw()) - zNow;
+			/* time of that R between zNow and zNext, for any expansion */
+			double RStep = bckgnd->ZThRes()+ 0.001*(RNext-bckgnd->ZThRes());
+			double zLow  = zNow, zHigh = zNext;
+			for (int i = 0; i < 60; i++) {
+				double zMid = 0.5*(zLow + zHigh);
+				if (Rfromct(zMid) < RStep)
+					zLow  = zMid;
+				else
+					zHigh = zMid;
+			}
+			dct = zHigh - zNow;
 			LogMsg(VERB_PARANOID,"[sca:ct] >> dct decreased to %e just jump over Rc [ct,ct_Next,ct+sct]",dct, zNow, zNext,zNow+dct);
 		}
 	LogMsg(VERB_HIGH,"[sca:ct] dct = %e ct = %e",dct,zNow);
-- 
2.43.0


From fde1e7ff8b9bbf1286912611fc764f0469682d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 047/103] fix: the automatic step compared a frequency with the
 squared one of the expansion, at the present time instead of the given one

---
 lib/scalar/scalarField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index dc5e55b..3ad741e 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1298,7 +1298,7 @@ double	Scalar::dzSize	   (double zNow) {
 		{
 			double mSfq = 0.;
 			mAfq = sqrt(mAx2*(RNow*RNow) + 12.*oodl*oodl);
-			mAfq = std::max(mAfq,HubbleMassSq());
+			mAfq = std::max(mAfq,std::sqrt(std::max(bckgnd->Rpp(zNow), 0.)));
 			double facto = 1.;
 			if ((pot & V_PQ) == V_PQ2)
 							facto = 2. ;
-- 
2.43.0


From 1c10f26494d2014d6fadd163cc8abd6ddba5bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 048/103] fix: linear axion potential spectrum of a complex
 field used the angle measured from the imaginary axis

---
 lib/utils/kgvops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/utils/kgvops.cpp b/lib/utils/kgvops.cpp
index 510f51f..6e68388 100644
--- a/lib/utils/kgvops.cpp
+++ b/lib/utils/kgvops.cpp
@@ -912,7 +912,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_FLAT:
 								// m2sa[odx]  = Rscale*std::sqrt(2*(1-da[0]/std::sqrt(da[0]*da[0]+da[1]*da[1])));
 								m2sa[odx]  = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = Rscale   * std::atan2(da[0],da[1]);
+								m2sax[odx] = Rscale   * std::atan2(da[1],da[0]);
 							break;
 					case SPMASK_REDO:
 					case SPMASK_BALL:
@@ -921,7 +921,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 										m2sax[odx]= 0 ; }
 								else {
 										m2sa[odx] = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-										m2sax[odx] = Rscale*std::atan2(da[0],da[1]); }
+										m2sax[odx] = Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_GAUS:
 					case SPMASK_DIFF:
@@ -931,12 +931,12 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_VIL: {
 								Float mskk = std::sqrt(da[0]*da[0]+da[1]*da[1])/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_VIL2: {
 								Float mskk = (da[0]*da[0]+da[1]*da[1])/Rscale/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 				} //end mask
 			}
-- 
2.43.0


From 13c5a1e03b79c2a7594d6f0699a213668ca4f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 049/103] fix: z gradient of the GAUS/DIFF masked spectra has
 to be padded, not unpadded, before its FFT

---
 lib/spectrum/spectrum.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index a35c7c5..1dace01 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1318,7 +1318,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 						prof.stop();
 							prof.add(std::string("memmove"), 0.0, 0.0);
 
-					/* unpad m2 in place if SPMASK_GAUS/DIFF */
+					/* pad m2 in place if SPMASK_GAUS/DIFF (the z gradient was kept in the place of the mask) */
 
 						if (mask & (SPMASK_GAUS|SPMASK_DIFF)){
 								prof.start();
@@ -1326,10 +1326,10 @@ void	SpecBin::nRun	(nRunType nrt) {
 							size_t pl = (Ly+2)*field->Precision();
 							size_t ss	= Ly*Lz;
 
-							for (size_t sl=1; sl<LyLz; sl++) {
+							for (size_t sl=LyLz-1; sl>0; sl--) {
 								size_t	oOff = sl*dl;
 								size_t	fOff = sl*pl;
-								memmove	(m2C+oOff, m2C+fOff, dl);
+								memmove	(m2C+fOff, m2C+oOff, dl);
 								}
 							prof.stop();
 								prof.add(std::string("unpad"), 0.0, 0.0);
@@ -1535,17 +1535,17 @@ void	SpecBin::nRun	(nRunType nrt) {
 						prof.stop();
 							prof.add(std::string("memmove"), 0.0, 0.0);
 
-					/* unpad m2 in place if SPMASK_GAUS/DIFF */
+					/* pad m2 in place if SPMASK_GAUS/DIFF (the z gradient was kept in the place of the mask) */
 							prof.start();
 						if (mask & (SPMASK_GAUS|SPMASK_DIFF)){
 							size_t dl = Ly*field->Precision();
 							size_t pl = (Ly+2)*field->Precision();
 							size_t ss	= Ly*Lz;
 
-							for (size_t sl=1; sl<LyLz; sl++) {
+							for (size_t sl=LyLz-1; sl>0; sl--) {
 								size_t	oOff = sl*dl;
 								size_t	fOff = sl*pl;
-								memmove	(m2C+oOff, m2C+fOff, dl);
+								memmove	(m2C+fOff, m2C+oOff, dl);
 								}
 						}
 						prof.stop();
-- 
2.43.0


From a7e36d0d18fb08b76270538fe53c868886097179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 050/103] fix: linear potential spectrum with a GAUS/DIFF mask
 binned the mask instead of the masked field

---
 lib/spectrum/spectrum.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 1dace01..eedc873 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1167,7 +1167,14 @@ void	SpecBin::nRun	(nRunType nrt) {
 					char *m2C  = static_cast<char *>(field->m2Cpu());
 					char *m2Ch = static_cast<char *>(field->m2half());
 						prof.start();
-					memmove	(m2C, m2Ch, dataTotalSize2);
+					if (mask & (SPMASK_GAUS|SPMASK_DIFF)) {
+						/* m2half holds the mask, which is kept: build the linear version in m2 */
+						#pragma omp parallel for schedule(static)
+						for (size_t sl=0; sl<LyLz; sl++)
+							for (size_t ix=0; ix<Ly; ix++)
+								m2sa[sl*(Ly+2)+ix] = m2sax[sl*Ly+ix]*Rscale*std::arg(ma[LyLy+sl*Ly+ix]-zaskaF);
+					} else
+						memmove	(m2C, m2Ch, dataTotalSize2);
 						prof.stop();
 							prof.add(std::string("memmove"), 0.0, 0.0);
 
-- 
2.43.0


From 59474082429c9b5f993a698d982f6a45100fce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 051/103] fix: plain axion spectra of a complex field ignored
 the BALL mask, the soft masks in the potential, and misplaced the REDO mask
 by one slice there

---
 lib/spectrum/spectrum.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index eedc873..5d028ce 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1212,8 +1212,8 @@ void	SpecBin::nRun	(nRunType nrt) {
 					#pragma omp parallel for schedule(static)
 					for (size_t iz=0; iz < Lz; iz++) {
 						size_t zo = Ly*(Ly+2)*iz ;
-						size_t zi = Ly*Ly*iz ;
-						size_t zp = Ly*Ly*(iz+1) ;
+						size_t zi = Ly*Ly*(iz+1) ; // ma starts one slice before the bulk
+						size_t zp = Ly*Ly*(iz+2) ;
 						for (size_t iy=0; iy < Ly; iy++) {
 							size_t yo = (Ly+2)*iy ;
 							size_t yi = Ly*iy ;
@@ -1232,13 +1232,18 @@ void	SpecBin::nRun	(nRunType nrt) {
 											m2sa[odx] = mass*Rscale*std::arg(ma[idx]-zaskaF);
 											break;
 									case SPMASK_REDO:
-											if (strdaa[idx] & STRING_MASK){
+									case SPMASK_BALL:
+											if (strdaa[idx-LyLy] & STRING_MASK){
 													m2sa[odx] = 0 ;
 											}
 											else{
 													m2sa[odx]  = mass*Rscale*std::arg(ma[idx]-zaskaF);
 											}
 											break;
+									case SPMASK_GAUS:
+									case SPMASK_DIFF:
+											m2sa[odx]  = m2sax[idx-LyLy]*mass*Rscale*std::arg(ma[idx]-zaskaF);
+											break;
 									case SPMASK_VIL:
 											m2sa[odx]  = mass*(std::abs(ma[idx]-zaskaF))*std::arg(ma[idx]-zaskaF);
 											break;
@@ -1400,6 +1405,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 										m2sa[odx] = (2*Rscale/depta)*std::imag((ma[ixM]-ma[idx])/(ma[ixM]+ma[idx]-zaskaF-zaskaF));
 										break;
 								case SPMASK_REDO:
+								case SPMASK_BALL:
 										if (strdaa[idx-LyLy] & STRING_MASK)
 												m2sa[odx] = 0 ;
 										else
@@ -1484,6 +1490,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 										m2sax[odx] = (2*Rscale/depta)*std::imag((ma[izM]-ma[idx])/(ma[izM]+ma[idx]-zaskaF-zaskaF));
 										break;
 								case SPMASK_REDO:
+								case SPMASK_BALL:
 										if (strdaa[idx-LyLy] & STRING_MASK){
 												m2sa[odx] = 0 ;
 												m2sax[odx] = 0 ;
-- 
2.43.0


From a6d1567ff705a005bca5e20394e0cf3fd59f682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 052/103] fix: interpolation of the string-core correction took
 neighbours from the wrong entries of its table

---
 lib/utils/kgvops.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/lib/utils/kgvops.cpp b/lib/utils/kgvops.cpp
index 6e68388..0c19423 100644
--- a/lib/utils/kgvops.cpp
+++ b/lib/utils/kgvops.cpp
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <algorithm>
 #include <complex>
 
 #include <omp.h>
@@ -59,10 +60,10 @@ void	stringcorre	( Float *da, Float *re, int nr)
 		it misses a factor of e sqrt(1-cb^2)
 		but will be compensated at the end */
 		// LogOut("A %.2f B %.2f E %.2f cb %.2f\n",A,B,e,cb);
-		int iA = A*(N_A-1)/5;
-		int iB = B*(N_B-1)/5;
-		int iE = e*(N_E-1);
-		int iC = (cb+1)*(N_C-1)/2;
+		int iA = std::min((int) (A*(N_A-1)/5),N_A-2);
+		int iB = std::min((int) (B*(N_B-1)/5),N_B-2);
+		int iE = std::min((int) (e*(N_E-1)),N_E-2);
+		int iC = std::min((int) ((cb+1)*(N_C-1)/2),N_C-2);
 		int i0 = iC + N_C*iE + N_CE*iB + N_CEB*iA;
 		// LogOut("iA %d iB %d iE %d iC %d \n",iA,iB,iE,iC);
 		Float dA  = A*(N_A-1)/5-iA;
@@ -77,12 +78,12 @@ void	stringcorre	( Float *da, Float *re, int nr)
 		// face C 16->8 proyection
 		Float L000 = (Float) (LUTc[i0]*dC1 + LUTc[i0+1]*dC);
 		Float L001 = (Float) (LUTc[i0+N_C]*dC1 + LUTc[i0+N_C+1]*dC);
-		Float L010 = (Float) (LUTc[i0+N_E]*dC1 + LUTc[i0+N_E+1]*dC);
-		Float L011 = (Float) (LUTc[i0+N_E+N_C]*dC1 + LUTc[i0+N_E+N_C+1]*dC);
-		Float L100 = (Float) (LUTc[i0+N_B]*dC1 + LUTc[i0+N_B+1]*dC);
-		Float L101 = (Float) (LUTc[i0+N_B+N_C]*dC1 + LUTc[i0+N_B+N_C+1]*dC);
-		Float L110 = (Float) (LUTc[i0+N_B+N_E]*dC1 + LUTc[i0+N_B+N_E+1]*dC);
-		Float L111 = (Float) (LUTc[i0+N_B+N_E+N_C]*dC1 + LUTc[i0+N_B+N_E+N_C+1]*dC);
+		Float L010 = (Float) (LUTc[i0+N_CE]*dC1 + LUTc[i0+N_CE+1]*dC);
+		Float L011 = (Float) (LUTc[i0+N_CE+N_C]*dC1 + LUTc[i0+N_CE+N_C+1]*dC);
+		Float L100 = (Float) (LUTc[i0+N_CEB]*dC1 + LUTc[i0+N_CEB+1]*dC);
+		Float L101 = (Float) (LUTc[i0+N_CEB+N_C]*dC1 + LUTc[i0+N_CEB+N_C+1]*dC);
+		Float L110 = (Float) (LUTc[i0+N_CEB+N_CE]*dC1 + LUTc[i0+N_CEB+N_CE+1]*dC);
+		Float L111 = (Float) (LUTc[i0+N_CEB+N_CE+N_C]*dC1 + LUTc[i0+N_CEB+N_CE+N_C+1]*dC);
 		// face E 8->4
 		L000 = L000*dE1 + L001*dE;
 		L010 = L010*dE1 + L011*dE;
@@ -96,12 +97,12 @@ void	stringcorre	( Float *da, Float *re, int nr)
 
 		L000 = (Float) (LUTs[i0]*dC1             + LUTs[i0+1]*dC);
 		L001 = (Float) (LUTs[i0+N_C]*dC1         + LUTs[i0+N_C+1]*dC);
-		L010 = (Float) (LUTs[i0+N_E]*dC1         + LUTs[i0+N_E+1]*dC);
-		L011 = (Float) (LUTs[i0+N_E+N_C]*dC1     + LUTs[i0+N_E+N_C+1]*dC);
-		L100 = (Float) (LUTs[i0+N_B]*dC1         + LUTs[i0+N_B+1]*dC);
-		L101 = (Float) (LUTs[i0+N_B+N_C]*dC1     + LUTs[i0+N_B+N_C+1]*dC);
-		L110 = (Float) (LUTs[i0+N_B+N_E]*dC1     + LUTs[i0+N_B+N_E+1]*dC);
-		L111 = (Float) (LUTs[i0+N_B+N_E+N_C]*dC1 + LUTs[i0+N_B+N_E+N_C+1]*dC);
+		L010 = (Float) (LUTs[i0+N_CE]*dC1         + LUTs[i0+N_CE+1]*dC);
+		L011 = (Float) (LUTs[i0+N_CE+N_C]*dC1     + LUTs[i0+N_CE+N_C+1]*dC);
+		L100 = (Float) (LUTs[i0+N_CEB]*dC1         + LUTs[i0+N_CEB+1]*dC);
+		L101 = (Float) (LUTs[i0+N_CEB+N_C]*dC1     + LUTs[i0+N_CEB+N_C+1]*dC);
+		L110 = (Float) (LUTs[i0+N_CEB+N_CE]*dC1     + LUTs[i0+N_CEB+N_CE+1]*dC);
+		L111 = (Float) (LUTs[i0+N_CEB+N_CE+N_C]*dC1 + LUTs[i0+N_CEB+N_CE+N_C+1]*dC);
 		// face E 8->4
 		L000 = L000*dE1 + L001*dE;
 		L010 = L010*dE1 + L011*dE;
-- 
2.43.0


From be44d35212a85e63f9c5742c26f6914d9fce6b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 053/103] fix: the BALL mask left its auxiliary marks in the
 string data, so that later masks and string measures took them for strings

---
 lib/spectrum/spectrum.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 5d028ce..6fad65b 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -3274,6 +3274,12 @@ void	SpecBin::masker	(double radius_mask, StatusM2 out, bool l_cummask) {
 						   and labels it STRING_MASK*/
 							prof.start();
 						maskball	(radius_mask, STRING_ONLY, STRING_MASK);
+						/* remove the auxiliary marks set for maskball; a real plaquette
+						cannot be pierced in both senses, so only they have all string bits */
+						#pragma omp parallel for schedule(static)
+						for (size_t idx=0; idx < field->Size(); idx++)
+							if ((strdaa[idx] & STRING_ONLY) == STRING_ONLY)
+								strdaa[idx] &= ~STRING_ONLY;
 							prof.stop();
 								prof.add(std::string("M3.BALL"), 0.0, 0.0);
 					} // end internal CASE REDO and GAUS case switch
-- 
2.43.0


From a16448dea9636f329e437162caf25cffa2f9449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 054/103] fix: ghost exchange of the DIFF mask overlapped the
 local volume of slabs thinner than two ghost regions

---
 lib/spectrum/spectrum.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 6fad65b..e9b2990 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -3157,23 +3157,17 @@ void	SpecBin::masker	(double radius_mask, StatusM2 out, bool l_cummask) {
 
 						char *m2lsC  = static_cast<char *>(field->m2Start()) + field->Surf()*(field->Depth()-1)*field->Precision();
 						char *m2bgC  = static_cast<char *>(field->m2Start()) + field->Size()*field->Precision();
-						char *m2lscC = static_cast<char *>(field->m2Start()) + field->Surf()*(field->Depth()-field->getNg())*field->DataSize();
-						char *m2bgcC = static_cast<char *>(field->m2BackGhost());
 
 						size_t SurfTotalSize = LyLy*field->Precision();
 
 						/* Smoothing iteration loop */
 						for (size_t it=0; it<iter+1; it++)
 						{
-							/* exchange ghosts Float using the Complex-based function */
-									// copy last slice into the last std::complex slice (will be sent)
-									// the first slice is already at position m2Start
-									memcpy	(m2lscC, m2lsC, SurfTotalSize);
-									field->exchangeGhosts(FIELD_M2);
-									// move the slice received at the std::complex backghost into the Float-backghost
-									memmove	(m2bgC, m2bgcC, SurfTotalSize);
-									// move the slice received at the frontghost into the Float-Frontghost (defined by m2Start)
-									memmove	(m2C+(GR-LyLy)*field->Precision(), m2C, SurfTotalSize);
+							/* exchange the first and last Float slices; the received ones are placed
+							right after and before the local volume (exchangeGhosts moves complex
+							slices and overlaps with it if Lz < 2 Ng) */
+									field->sendGeneral(COMM_SDRV, SurfTotalSize, MPI_BYTE, m2sC, m2bgC, m2lsC, m2C+(GR-LyLy)*field->Precision());
+									field->sendGeneral(COMM_WAIT, SurfTotalSize, MPI_BYTE, m2sC, m2bgC, m2lsC, m2C+(GR-LyLy)*field->Precision());
 
 							/* Smooth and copy to m2_aux m2aF
 							(m2h does not work because is precisely the Float-backghost) */
-- 
2.43.0


From ab95608123f625f6ce6c0d2d66347d543e02b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 055/103] fix: ball masks ignored the strings of the
 neighbouring ranks when the slab has a single slice

---
 lib/spectrum/spectrum.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index e9b2990..b7470b7 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -716,21 +716,19 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 	int irF = 0;
 	int irB = 0;
 
-	if (Lz > 1){
-		#pragma omp parallel for reduction(+:irF,irB)
-		for (size_t idx = 0 ; idx < LyLy; idx++){
-			if (mFG[idx+LyLy] > 0) {
-				short Dz = mFG[idx+LyLy];
-				irB += Dz;
-				for (size_t dz =0; dz < Dz; dz++)
-					strdaa[idx + dz*LyLy] |= MASK_LABEL;
-			}
-			if (mBG[idx+LyLy] > 0){
-				short Dz = mBG[idx+LyLy];
-				irF += Dz;
-				for (size_t dz = 0; dz < Dz; dz++)
-					strdaa[idx + LyLy*(Lz-1-dz)] |= MASK_LABEL;
-			}
+	#pragma omp parallel for reduction(+:irF,irB)
+	for (size_t idx = 0 ; idx < LyLy; idx++){
+		if (mFG[idx+LyLy] > 0) {
+			short Dz = mFG[idx+LyLy];
+			irB += Dz;
+			for (size_t dz =0; dz < Dz; dz++)
+				strdaa[idx + dz*LyLy] |= MASK_LABEL;
+		}
+		if (mBG[idx+LyLy] > 0){
+			short Dz = mBG[idx+LyLy];
+			irF += Dz;
+			for (size_t dz = 0; dz < Dz; dz++)
+				strdaa[idx + LyLy*(Lz-1-dz)] |= MASK_LABEL;
 		}
 	}
 
-- 
2.43.0


From 9c49c86d4fc66b82521beb03efeb25e61b362431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 056/103] fix: HubbleConformal was zero for a
 radiation-dominated background, so that string velocities and string energies
 took the wrong time derivative

---
 lib/scalar/scalarField.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 3ad741e..c3db46d 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1199,13 +1199,8 @@ double  Scalar::Rpp  ()
 
 double  Scalar::HubbleConformal  ()
 {
-	// R'/R = frw/z
-	// since we have R=z^frw
-	//except in the case where frw = 0,1
-	int fr = (int) bckgnd->Frw();
-	double Rp = (fr == 0 || fr == 1) ? 0.0 : (bckgnd->Frw())/(*zV());
-	LogMsg(VERB_PARANOID,"[sca:HC] %.2e (legacy!)",Rp);
-	return Rp ;
+	// R'/R
+	return bckgnd->Rp(*z);
 }
 
 double	Scalar::AxionMass  () {
-- 
2.43.0


From b996ce5c4303aff9aae23f1e624503b7c2d28c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 057/103] fix: string length in cells pierced by three strings
 dropped the third segment

---
 lib/strings/length.cpp | 60 +++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index aef5713..a04258b 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -233,49 +233,49 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						// three strings are piercing the cube
 						// we consider 15 possible connection patterns and average over them
 						double dl1 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)));
+					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl2 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)))
 					 	  				 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl3 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)))
 					 		  			 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 				    double dl4 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl5 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl6 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl7 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl8 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl9 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(2)-pos_x.at(4))*(pos_x.at(2)-pos_x.at(4))+(pos_y.at(2)-pos_y.at(4))*(pos_y.at(2)-pos_y.at(4))+(pos_z.at(2)-pos_z.at(4))*(pos_z.at(2)-pos_z.at(4)));
 					  double dl10 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			  + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl11 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl12 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  double dl13 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 						  					+ sqrt((pos_x.at(4)-pos_x.at(3))*(pos_x.at(4)-pos_x.at(3))+(pos_y.at(4)-pos_y.at(3))*(pos_y.at(4)-pos_y.at(3))+(pos_z.at(4)-pos_z.at(3))*(pos_z.at(4)-pos_z.at(3)));
 					  double dl14 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			  + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
 					  double dl15 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 						  				  + sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  length += (dl1 + dl2 + dl3 + dl4 + dl5 + dl6 + dl7 + dl8 + dl9 + dl10 + dl11 + dl12 + dl13 + dl14 + dl15)/15.;
 				  }
@@ -601,49 +601,49 @@ StringData	stringlength2	(Scalar *field, StringData strDen_in, StringMeasureType
 						// three strings are piercing the cube
 						// we consider 15 possible connection patterns and average over them
 						double dl1 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl2 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
+						  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl3 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
+						  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)))
 						  				 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl4 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					 double dl5 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					  					 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					  					 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl6 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl7 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl8 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl9 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(2)-pos_x.at(4))*(pos_x.at(2)-pos_x.at(4))+(pos_y.at(2)-pos_y.at(4))*(pos_y.at(2)-pos_y.at(4))+(pos_z.at(2)-pos_z.at(4))*(pos_z.at(2)-pos_z.at(4)));
 					  double dl10 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl11 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 				  	double dl12 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-					   						+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					   						+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 						  					+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  double dl13 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(4)-pos_x.at(3))*(pos_x.at(4)-pos_x.at(3))+(pos_y.at(4)-pos_y.at(3))*(pos_y.at(4)-pos_y.at(3))+(pos_z.at(4)-pos_z.at(3))*(pos_z.at(4)-pos_z.at(3)));
 					  double dl14 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
 					  double dl15 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  length += (dl1 + dl2 + dl3 + dl4 + dl5 + dl6 + dl7 + dl8 + dl9 + dl10 + dl11 + dl12 + dl13 + dl14 + dl15)/15.;
 				  }
-- 
2.43.0


From 864b5c5db5d6831a9b09f7ad0a93b6ddc3761bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 058/103] fix: string energy densities were averaged over a
 cubic volume also in boxes of different depth

---
 lib/strings/length.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index a04258b..ab0bd4e 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -942,10 +942,10 @@ StringEnergyData stringenergy (Scalar *field)
 
 	strE.rho_a   = rhoa_sum/nout_sum;
 	strE.rho_s   = rhos_sum/nout_sum;
-	strE.rho_str = rhotot_sum/(Lx*Lx*Lx) - strE.rho_a - strE.rho_s;
-	strE.rho_a_Vil = rhoaV_sum/(Lx*Lx*Lx);
-	strE.rho_s_Vil = rhosV_sum/(Lx*Lx*Lx);
-	strE.rho_str_Vil = rhotot_sum/(Lx*Lx*Lx) - strE.rho_a_Vil - strE.rho_s_Vil;
+	strE.rho_str = rhotot_sum/(field->TotalSize()) - strE.rho_a - strE.rho_s;
+	strE.rho_a_Vil = rhoaV_sum/(field->TotalSize());
+	strE.rho_s_Vil = rhosV_sum/(field->TotalSize());
+	strE.rho_str_Vil = rhotot_sum/(field->TotalSize()) - strE.rho_a_Vil - strE.rho_s_Vil;
 	strE.nout = nout_sum;
 
 	commSync();
-- 
2.43.0


From e71b6b323f0ff2ae7db44b3885fb6ab9ea80a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 059/103] fix: string length ignored the XY plaquettes that
 close the last slice of each rank

---
 lib/strings/length.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index ab0bd4e..52f921f 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -88,12 +88,9 @@ void setCross (std::complex<double> m, std::complex<double> mu, std::complex<dou
 // Function that calculates the length of strings
 // -----------------------------------------------------
 
-	/* As it is written, it requires string information from
-	the slice forward in z, but stringData is not ghosted,
-	and so the last slice cannot be computed reliably,
-	the plaquette XY at Z+1 does not exist in the desired rank
-	THIS NEEDS TO BE FIXED
-	The current PATCH simply ignores the problematic plaquettes */
+	/* It requires string information from the slice forward in z,
+	but stringData is not ghosted, so the plaquettes XY at Z+1 of
+	the last slice are received from the forward rank */
 
 template<typename Float>
 StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType strmeas)
@@ -144,6 +141,11 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 	if(strmeas & STRMEAS_LENGTH) {
 		LogMsg	(VERB_HIGH, "[stringlength] Measure length");
 
+		/* string data of the first slice of the forward rank */
+		std::vector<char> sFwd(Lx*Lx);
+		field->sendGeneral(COMM_SDRV, Lx*Lx, MPI_BYTE, strdaa, sFwd.data(), NULL, NULL);
+		field->sendGeneral(COMM_WAIT, Lx*Lx, MPI_BYTE, strdaa, sFwd.data(), NULL, NULL);
+
 		double length = 0.;
 
 		#pragma omp parallel for reduction(+:length)
@@ -205,9 +207,7 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						pos_y.push_back(iy + 1.);
 						pos_z.push_back(rank*Lz + iz + du[0]);
 					}
-					/* In the case iz = Lz-1 this would segfault */
-					if ( iz < Lz - 1 )
-					if (strdaa[izM] & STRING_XY) {
+					if (((iz < Lz - 1) ? strdaa[izM] : sFwd[ix + yi]) & STRING_XY) {
 						double du[2];
 						setCross(ma[izM],ma[izxM],ma[iyzM],ma[ixyzM],du);
 						pos_x.push_back(ix + du[0]);
-- 
2.43.0


From 9c6f63be87e048ee2078879c06d3986fe86733b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 060/103] fix: string velocities read the time derivative
 beyond the last slice of each rank

---
 lib/strings/length.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index 52f921f..3921117 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -314,6 +314,13 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 
 		std::complex<Float> *va     = static_cast<std::complex<Float>*>(field->vCpu());
 
+		/* v is not ghosted, first slice of the forward rank */
+		const size_t Sz = Lx*Lx*Lz;
+		std::vector<std::complex<Float>> vFwd(Lx*Lx);
+		field->sendGeneral(COMM_SDRV, Lx*Lx*sizeof(std::complex<Float>), MPI_BYTE, va, vFwd.data(), NULL, NULL);
+		field->sendGeneral(COMM_WAIT, Lx*Lx*sizeof(std::complex<Float>), MPI_BYTE, va, vFwd.data(), NULL, NULL);
+		auto vz = [&](size_t i) { return (i < Sz) ? va[i] : vFwd[i-Sz]; };
+
 		#pragma omp parallel for reduction(+:gamma,gamma2,vel,vel2)
 		for (size_t iz=0; iz < Lz; iz++) {
 			size_t zi = Lx*Lx*iz ;
@@ -364,8 +371,8 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 							std::complex<double> phic = ma[izM]/Rscale;
 							std::complex<double> phid = ma[iyzM]/Rscale;
 							std::complex<double> dphib = (va[iyM]-Hc*ma[iyM])/(Rscale*Rscale);
-							std::complex<double> dphic = (va[izM]-Hc*ma[izM])/(Rscale*Rscale);
-							std::complex<double> dphid = (va[iyzM]-Hc*ma[iyzM])/(Rscale*Rscale);
+							std::complex<double> dphic = (vz(izM)-Hc*ma[izM])/(Rscale*Rscale);
+							std::complex<double> dphid = (vz(iyzM)-Hc*ma[iyzM])/(Rscale*Rscale);
 							g2v2b = std::abs(dphib)*std::abs(dphib)*(1.+std::abs(phib)*std::abs(phib)/(8.*c*c))/(mssq*c*c)
 					          + std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))*std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))/(16.*mssq*c*c*c*c);
 					    g2v2c = std::abs(dphic)*std::abs(dphic)*(1.+std::abs(phic)*std::abs(phic)/(8.*c*c))/(mssq*c*c)
@@ -383,9 +390,9 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 							std::complex<double> phib = ma[izM]/Rscale;
 							std::complex<double> phic = ma[ixM]/Rscale;
 							std::complex<double> phid = ma[izxM]/Rscale;
-							std::complex<double> dphib = (va[izM]-Hc*ma[izM])/(Rscale*Rscale);
+							std::complex<double> dphib = (vz(izM)-Hc*ma[izM])/(Rscale*Rscale);
 							std::complex<double> dphic = (va[ixM]-Hc*ma[ixM])/(Rscale*Rscale);
-							std::complex<double> dphid = (va[izxM]-Hc*ma[izxM])/(Rscale*Rscale);
+							std::complex<double> dphid = (vz(izxM)-Hc*ma[izxM])/(Rscale*Rscale);
 							g2v2b = std::abs(dphib)*std::abs(dphib)*(1.+std::abs(phib)*std::abs(phib)/(8.*c*c))/(mssq*c*c)
 					          + std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))*std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))/(16.*mssq*c*c*c*c);
 					    g2v2c = std::abs(dphic)*std::abs(dphic)*(1.+std::abs(phic)*std::abs(phic)/(8.*c*c))/(mssq*c*c)
-- 
2.43.0


From 22f9261fb8cfa41505bec649bf205668c2eb360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 061/103] fix: WKB phase of the modes with a saturated axion
 mass was short of a factor k

---
 lib/WKB/WKB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 91e0b98..d87e96b 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -83,7 +83,7 @@ namespace AxionWKB {
 				wIni        = sqrt(k2 + m2Ini);
 				wEnd        = sqrt(k2 + m2End);
 				// LogOut("in %f, %f\n",log((mEnd+wEnd)/(mIni+wIni)),mEnd/(wEnd+mEnd) - mIni/(wIni+mIni));
-				return 0.5*k*(log((mEnd+wEnd)/(mIni+wIni)) + mEnd/(wEnd+mEnd) - mIni/(wIni+mIni))/indi3;
+				return 0.5*k2*(log((mEnd+wEnd)/(mIni+wIni)) + mEnd/(wEnd+mEnd) - mIni/(wIni+mIni))/indi3;
 				}
 
 		mIni        = indi3*pow(zIni,nqcd/2+1) ;
-- 
2.43.0


From f465bdd315e794ee1675aec5cc8372a8c495d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 062/103] fix: WKB of a massless axion divided by the zero
 frequency of its zero mode and made the whole field NaN

---
 lib/WKB/WKB.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index d87e96b..dde0146 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -516,6 +516,14 @@ namespace AxionWKB {
 			// double version
 			std::complex<Float> Maux = m2C1[idx];
 			std::complex<Float> Daux = m2C2[idx];
+
+			// the zero mode of a massless axion moves freely
+			if (w1 == 0.0) {
+				mC[idx] = Maux + Daux*((Float) (zEnd-zIni));
+				vC[idx] = Daux;
+				continue;
+			}
+
 			std::complex<double> M0, D0, ap, am;
 			double ra, ia ;
 			ra = (double) real(Maux) ;
@@ -747,6 +755,14 @@ namespace AxionWKB {
 				Maux = mAux[idx];
 				Daux = vAux[idx];
 
+				// the zero mode of a massless axion moves freely
+				if (w1 == 0.0) {
+					m2IC[idx] = Maux + Daux*((cFloat) (zEnd-zIni));
+					vInC[idx] = Daux;
+					continue;
+				}
+
+
 				std::complex<double> M0, D0, ap, am;
 				double ra, ia ;
 				// M0 = (complex<double>) mAux[idx];
-- 
2.43.0


From 76e873ba4f5bc8f610a0a82ae0abe926030c9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:57 +0000
Subject: [PATCH 063/103] fix: WKB phases were interpolated in k^2 between
 integer momenta, wrong by up to a fifth of the phase for relativistic modes

---
 lib/WKB/WKB.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index dde0146..6611bf3 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -127,9 +127,11 @@ namespace AxionWKB {
 	{
 		// momenta in this rank from nx-ny-nz > (0,n1/2+1),(zBase,zBase+n1/Ranks),(0,n1)
 		// is only a bit more expensive to build it for the whole grid can be MPIed as well
-		superTable.resize(powMax+1);
+		// one entry per integer momentum squared, modes of any k are found without interpolation
+		const size_t momMax = 2*hLy*hLy + hTz*hTz;
+		superTable.resize(momMax+1);
 		superTable[0] = 0.0;
-		k2Table.resize(powMax+1);
+		k2Table.resize(momMax+1);
 		k2Table[0] = 0.0;
 
 		double lSize	   = axion->BckGnd()->PhysSize();
@@ -150,9 +152,9 @@ namespace AxionWKB {
 			LogMsg(VERB_NORMAL,"transition! indi3aux %f ",indi3aux);
 
 			#pragma omp parallel for schedule(static)
-			for (size_t ik=1; ik<powMax+1; ik++)
+			for (size_t ik=1; ik<momMax+1; ik++)
 			{
-				double k = k0*(ik);
+				double k = k0*sqrt((double) ik);
 				k2Table[ik] = k*k;
 				superTable[ik] = calculatePhiexact(zIni, zCri, k, nqcd,indi3) + calculatePhiexact(zCri, zEnd, k, 0.0,indi3aux);
 			}
@@ -165,8 +167,8 @@ namespace AxionWKB {
 
 			LogMsg(VERB_NORMAL,"no transition! indi3aux %f nqcd %f ",indi3aux,nqcd);
 			#pragma omp parallel for schedule(static)
-			for (size_t ik=1; ik<powMax+1; ik++){
-				double k = k0*(ik);
+			for (size_t ik=1; ik<momMax+1; ik++){
+				double k = k0*sqrt((double) ik);
 				k2Table[ik] = k*k;
 				superTable[ik] = calculatePhiexact(zIni, zEnd, k, nqcd, indi3aux);
 			}
@@ -177,7 +179,8 @@ namespace AxionWKB {
 	double WKB::interpolatephi(double dk, double k2){
 	// linear interpolation in k2 (good for small k2 in NR limit... ) to be improved
 	//dk is simply the double-version of the k-integer
-	size_t in = floor(dk);
+	size_t in = floor(dk*dk);
+	if (in + 1 >= superTable.size()) return superTable.back();
 	return superTable[in] + (k2-k2Table[in])*(superTable[in+1]-superTable[in])/(k2Table[in+1]-k2Table[in]);
 	}
 
@@ -409,14 +412,10 @@ namespace AxionWKB {
 	char base[256];
 	sprintf(base, "out/lookup-%0.2f>%0.2f.txt", zIni,zEnd);
 	file_wk = fopen(base,"w+");
-	for (size_t i=0; i<powMax; i++)
-		fprintf(file_wk,"%lf %lf\n",k2Table[i], superTable[i]);
+	for (size_t i=0; i*i<superTable.size(); i++)
+		fprintf(file_wk,"%lf %lf\n",k2Table[i*i], superTable[i*i]);
 	fclose(file_wk);
 	}
-		tk::spline sss;
-		sss.set_points(k2Table,superTable);
-
-		LogMsg(VERB_NORMAL,"Spline built!");
 		// use nQcd1 y 2
 		double nQcdI				 = field->BckGnd()->QcdExp();
 		double nQcdE				 = field->BckGnd()->QcdExp();
@@ -509,7 +508,7 @@ namespace AxionWKB {
 			complex<double> pha ;
 
 			// WKB phase
-			double phase = sss(k2);
+			double phase = superTable[mom];
 			pha = exp(im*phase);
 			pha *= prepha;
 
-- 
2.43.0


From babef5d6cbc3e50cc6ae1ddfe0b89eeef2f66fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:40 +0000
Subject: [PATCH 064/103] fix: WKB from and to the time of the mass threshold
 used different mass laws for the same instant

---
 lib/WKB/WKB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 6611bf3..a07679d 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -420,7 +420,7 @@ namespace AxionWKB {
 		double nQcdI				 = field->BckGnd()->QcdExp();
 		double nQcdE				 = field->BckGnd()->QcdExp();
 
-		if (zEnd > zC )
+		if (zEnd > zC || zIni >= zC)
 			nQcdE = 0.0;
 
 		if (zIni >= zC )
-- 
2.43.0


From 70d7fb55e6899002b9cae1e2be15b79dcc198b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:24 +0000
Subject: [PATCH 065/103] fix: WKB phases of massless modes kept in a second
 field lacked a factor

---
 lib/WKB/WKB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index a07679d..a6e191c 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -30,7 +30,8 @@ namespace AxionWKB {
 
 	//calculates v2*2F1 in the physical region
 	double v2h2F1 (double a, double b, double c, double z) {
-		if (abs(z) < 1) {
+		z = std::min(z, 1.0);	// v2 = 1 (massless) up to rounding
+		if (abs(z) <= 1) {
 			// if (v2 < some interesting small value limit) {
 			// 	return	simplified formula
 		// } else {
-- 
2.43.0


From e99c7ce04f8b1dedfc58eb88342a66bd72eea8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 066/103] fix: WKB with a second field took slices of the wrong
 place when there is more than one ghost slice

---
 lib/WKB/WKB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index a6e191c..68959b2 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -304,7 +304,7 @@ namespace AxionWKB {
 				LogMsg(VERB_NORMAL, "done!");
 
 				// pointers for copying 1->2
-				char *mOr = static_cast<char *>(field->mCpu()) + field->Surf()*field->DataSize();
+				char *mOr = static_cast<char *>(field->mStart());
 				char *vOr = static_cast<char *>(field->vCpu());
 
 				char *mDt = static_cast<char *>(tmp->mCpu());
@@ -669,7 +669,7 @@ namespace AxionWKB {
 			std::complex<cFloat> *vInC  = static_cast<std::complex<cFloat>*>(field->vCpu());
 			//
 			// tambien necesitare punteros float a m y v de axion1
-			cFloat	      	 *mIn  = static_cast<cFloat *>(field->mCpu()) + field->Surf();	// Theta ghosts
+			cFloat	      	 *mIn  = static_cast<cFloat *>(field->mStart());	// Theta ghosts
 			cFloat	      	 *vIn  = static_cast<cFloat *>(field->vCpu());
 			cFloat	      	 *m2In = static_cast<cFloat *>(field->m2Cpu());
 
@@ -840,7 +840,7 @@ namespace AxionWKB {
 			LogMsg(VERB_NORMAL,"done!\n\n ");
 
 			LogMsg(VERB_NORMAL,"and FT(psi_z) v->m2 ");
-			memcpy	(m2Tf, vTf, field->eSize()*field->DataSize());
+			memcpy	(m2Tf, vTf, Sm*padLine);
 			LogMsg(VERB_NORMAL,"done!\n");
 
 			LogMsg(VERB_NORMAL," invFFTWing AXION m2 inplace ... ");
-- 
2.43.0


From 9443cd6ed32351d19b70ebb7f479bf151846fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:25 +0000
Subject: [PATCH 067/103] fix: adiabatic term of the conversion to the
 non-relativistic field had the wrong powers of the scale factor

---
 lib/scalar/theta2PaxionXeon.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/scalar/theta2PaxionXeon.cpp b/lib/scalar/theta2PaxionXeon.cpp
index e5c7b7b..440b433 100644
--- a/lib/scalar/theta2PaxionXeon.cpp
+++ b/lib/scalar/theta2PaxionXeon.cpp
@@ -15,15 +15,14 @@ void	th2PaxionXeon (Scalar *sField)
 		const size_t S  = sField->Surf();
 
 		double mA    = sField->AxionMass();
-		double R2    = (*sField->RV())*(*sField->RV());
-		double ct    = (*sField->zV());
-		double frw   = (sField->BckGnd()->Frw());
+		double R     = (*sField->RV());
+		double Rp    = sField->BckGnd()->Rp(*sField->zV());
 		double mA2   = (sField->AxionMassSq());
 		double DmA2ct= sField->BckGnd()->DAxionMass2Dct(*sField->zV());
 
 		Float sqcms1 = (Float) sqrt(0.5*mA*(*sField->RV()));
 		Float sqcms2 = (Float) sqrt(2.0*mA*(*sField->RV()));
-		Float adiab  = (Float) (DmA2ct + 2*frw*mA2*R2/ct)/(4*mA2*mA) ;
+		Float adiab  = (Float) ((DmA2ct + 2*mA2*Rp)/(4*mA2*mA*R)) ; /* (mA R)'/(2 mA R)/(mA R) */
 		Float *cfield = static_cast<Float*> (sField->mStart());
 		Float *cveloc = static_cast<Float*> (sField->vCpu());
 		Float *faxion = static_cast<Float*> (sField->m2Cpu());
-- 
2.43.0


From 607ac91d615299b6ceec904e0aae1726a391426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:25 +0000
Subject: [PATCH 068/103] fix: gradient energy of the non-relativistic field
 was two powers of the scale factor too small

---
 lib/energy/energyPaxionXeon.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index e01d4f6..7191108 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -30,8 +30,7 @@ template<const bool map>
 void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_, void * __restrict__ m2_, const PropParms ppar, FieldPrecision precision, void * __restrict__ eRes_)
 {
 
-	const double R     = ppar.R;
-	const double ood2a = ppar.ood2a/R/R;
+	const double ood2a = ppar.ood2a;	/* includes the scale factors */
 	const double beta  = ppar.beta;
 	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
 
-- 
2.43.0


From 41ea2882bddd6b5ea398ef569a7a1e9dd68b4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:25 +0000
Subject: [PATCH 069/103] fix: energy maps of the non-relativistic field were
 displaced when there is more than one ghost slice

---
 lib/energy/energyPaxionXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index 7191108..b49d193 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -32,7 +32,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 
 	const double ood2a = ppar.ood2a;	/* includes the scale factors */
 	const double beta  = ppar.beta;
-	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
+	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Vo;	/* second half of m2 */
 
 	double * __restrict__ eRes = (double * __restrict__) eRes_;
 	double gxC = 0., gyC = 0., gzC = 0., ntC = 0., ptC = 0.;
@@ -94,7 +94,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 					X[2] = tmi/YC;
 					X[1] = tmi - X[2]*YC;
 					X[0] = idx - tmi*XC;
-					X[2]--;	// Removes ghosts
+					X[2] -= Ng;	// Removes ghosts
 				}
 
 				if (X[0] == XC-step)
-- 
2.43.0


From ef4afa445c49baa33138b7d489a529cdb5ca91dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 070/103] fix: conversion to the non-relativistic field wrote
 past the end of v when there is more than one ghost slice

---
 lib/scalar/scalarField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index c3db46d..ddcee01 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -229,10 +229,11 @@ const std::complex<float> If(0.,1.);
 			str = nullptr;
 			//this allocates a slightly larger v to host FFTs in place
 			LogMsg(VERB_NORMAL, "[sca] allocating m, v");
-			alignAlloc ((void**) &m, mAlign, mBytes+vBytes);
+			/* v becomes ghosted if the field is converted to PAXION */
+			alignAlloc ((void**) &m, mAlign, mBytes+std::max(vBytes, mBytes));
 			v = static_cast<void *>(static_cast<char *>(m) + mBytes );
 			trackAlloc ((void**) &str, n3);
-			totalCPU += mBytes+vBytes+n3;
+			totalCPU += mBytes+std::max(vBytes, mBytes)+n3;
 			break;
 		case FIELD_PAXION:
 			LogMsg(VERB_NORMAL, "[sca] allocating m,v for Paxion");
-- 
2.43.0


From 3b08d8bb03d42ca130c6f1533f8f27049f4d5456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 071/103] fix: self-interaction of the non-relativistic field
 was NaN for R growing as the square root of conformal time

---
 include/propagator/propPaxXeon.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 9ed1901..ed040bf 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -45,7 +45,9 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 
 	const double beta = ppar.beta;
 	const double u    = 2.0*ppar.frw - 1.0;
-	const double KKt  = ppar.sign*ppar.beta*ct*(pow(ct+dz,u)-pow(ct,u))/(8.0*R*R*u*pow(ct+dz,u));
+	/* integral of (ct/z)^2frw from ct to ct+dz, logarithmic for u = 0 */
+	const double dzk  = (std::abs(u) < 1.e-6) ? ct*std::log(1.0 + dz/ct) : ct*(pow(ct+dz,u)-pow(ct,u))/(u*pow(ct+dz,u));
+	const double KKt  = ppar.sign*ppar.beta*dzk/(8.0*R*R);
 	LogMsg(VERB_PARANOID,"PPX ct  %e dz  %e FRW %f R %e u %f sign %d beta %f",ct,dz,ppar.frw,R,u,ppar.sign,ppar.beta);
 	LogMsg(VERB_PARANOID,"PPX KKt %e ");
 	/* integrate in time assuming powerlaw int d z/ m_A R */
-- 
2.43.0


From ecfb1c6c883bf5619353214dc6b5146f84d82bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 072/103] fix: non-relativistic step and gravity applied twice
 to the rows beyond a block that does not divide the lattice

---
 include/gravity/gravityPaxionXeon.h | 4 ++--
 include/propagator/propPaxXeon.h    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gravity/gravityPaxionXeon.h b/include/gravity/gravityPaxionXeon.h
index 3b21a98..560d156 100644
--- a/include/gravity/gravityPaxionXeon.h
+++ b/include/gravity/gravityPaxionXeon.h
@@ -140,7 +140,7 @@
 				size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 				size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-				if (idx >= Vf)
+				if ((yC >= YC) || (zC >= zF))
 					continue;
 				{
 					X[0] = xC;
@@ -346,7 +346,7 @@
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index ed040bf..cf311b4 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -123,7 +123,7 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
@@ -326,7 +326,7 @@ else
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
-- 
2.43.0


From 48a53773949178fcb80bab5ce80664ffaf05458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 073/103] fix: second half of the self-interaction kick of the
 non-relativistic step covered the wrong interval

---
 include/propagator/propClass.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index bc7cdf0..63dbff5 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -1162,8 +1162,9 @@
 
 		}
 
-		ppar.ct     = *axion->zV();
-		ppar.R      = *axion->RV();
+		/* second half of the kick, from the middle of the step to its end */
+		ppar.ct     = *axion->zV() - 0.5*dz;
+		ppar.R      = axion->Rfromct(ppar.ct);
 		ppar.n      = axion->BckGnd()->DlogMARDlogct(ppar.ct);
 		ppar.massA  = axion->AxionMass();
 		ppar.sign   = 1;
-- 
2.43.0


From 858f965f718e608d6b79c01def2131a4edff6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 074/103] fix: relaxation of the gravitational potential in
 double precision read a null pointer

---
 include/gravity/gravityPaxionXeon.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/gravity/gravityPaxionXeon.h b/include/gravity/gravityPaxionXeon.h
index 560d156..5bcea77 100644
--- a/include/gravity/gravityPaxionXeon.h
+++ b/include/gravity/gravityPaxionXeon.h
@@ -379,45 +379,45 @@
 									idxMy = ( idx + Sf - nv*XC );
 									idxPy = ( idx + nv*XC );
 
-									mPy = opCode(load_pd, &m[idxPy]);
+									mPy = opCode(load_pd, &m2h[idxPy]);
 	#ifdef	__AVX512F__
-									mMy = opCode(permutexvar_pd, vShRg, opCode(load_pd, &m[idxMy]));
+									mMy = opCode(permutexvar_pd, vShRg, opCode(load_pd, &m2h[idxMy]));
 	#elif	defined(__AVX2__)
-									mMy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m[idxMy])), opCode(setr_epi32, 6,7,0,1,2,3,4,5)));
+									mMy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m2h[idxMy])), opCode(setr_epi32, 6,7,0,1,2,3,4,5)));
 	#elif	defined(__AVX__)
-									acu = opCode(permute_pd, opCode(load_pd, &m[idxMy]), 0b00000101);
+									acu = opCode(permute_pd, opCode(load_pd, &m2h[idxMy]), 0b00000101);
 									vel = opCode(permute2f128_pd, acu, acu, 0b00000001);
 									mMy = opCode(blend_pd, acu, vel, 0b00000101);
 	#else
-									acu = opCode(load_pd, &m[idxMy]);
+									acu = opCode(load_pd, &m2h[idxMy]);
 									mMy = opCode(shuffle_pd, acu, acu, 0x00000001);
 	#endif
 								}
 	else
 								{
 									idxMy = ( idx - nv*XC );
-									mMy = opCode(load_pd, &m[idxMy]);
+									mMy = opCode(load_pd, &m2h[idxMy]);
 
 									if (X[1] + nv >= YC)
 									{
 										idxPy = ( idx + nv*XC - Sf );
 	#ifdef	__AVX512F__
-										mPy = opCode(permutexvar_pd, vShLf, opCode(load_pd, &m[idxPy]));
+										mPy = opCode(permutexvar_pd, vShLf, opCode(load_pd, &m2h[idxPy]));
 	#elif	defined(__AVX2__)	//AVX2
-										mPy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m[idxPy])), opCode(setr_epi32, 2,3,4,5,6,7,0,1)));
+										mPy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m2h[idxPy])), opCode(setr_epi32, 2,3,4,5,6,7,0,1)));
 	#elif	defined(__AVX__)
-										acu = opCode(permute_pd, opCode(load_pd, &m[idxPy]), 0b00000101);
+										acu = opCode(permute_pd, opCode(load_pd, &m2h[idxPy]), 0b00000101);
 										vel = opCode(permute2f128_pd, acu, acu, 0b00000001);
 										mPy = opCode(blend_pd, acu, vel, 0b00001010);
 	#else
-										vel = opCode(load_pd, &m[idxPy]);
+										vel = opCode(load_pd, &m2h[idxPy]);
 										mPy = opCode(shuffle_pd, vel, vel, 0x00000001);
 	#endif
 									}
 									else
 									{
 										idxPy = ( idx + nv*XC );
-										mPy = opCode(load_pd, &m[idxPy]);
+										mPy = opCode(load_pd, &m2h[idxPy]);
 									}
 								}
 
@@ -431,8 +431,8 @@
 													opCode(add_pd,
 														opCode(add_pd, mPy, mMy),
 															opCode(add_pd,
-																opCode(add_pd, opCode(load_pd, &m[idxPx]), opCode(load_pd, &m[idxMx])),
-																	opCode(add_pd, opCode(load_pd, &m[idxPz]), opCode(load_pd, &m[idxMz]))
+																opCode(add_pd, opCode(load_pd, &m2h[idxPx]), opCode(load_pd, &m2h[idxMx])),
+																	opCode(add_pd, opCode(load_pd, &m2h[idxPz]), opCode(load_pd, &m2h[idxMz]))
 															)
 													),
 													opCode(mul_pd, mel, m6Vec));
-- 
2.43.0


From 4855ddc213a64095b28fa9c34926eb19fe6681fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 075/103] fix: mean density of the hybrid gravitational
 potential used the local sum

---
 include/gravity/potentialClass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index d3b09e4..4734bfd 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -795,7 +795,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 
 			MPI_Allreduce (&eA, &eAl, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
 
-			eA /= (double) tsize;
+			eA = eAl/((double) tsize);
 
 		LogMsg (VERB_PARANOID, "[bcon] contrast build, eA = %e ",eA);
 
-- 
2.43.0


From 6080b11927b2b8d9920ac1018a93a87fa783f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 076/103] fix: gravitational potential took the momenta of a
 cubic box also in boxes of different depth

---
 include/gravity/potentialClass.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index 4734bfd..c27b108 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -316,6 +316,7 @@ report (index, red, pad, fft, 1, "FFT");
 
 			/* ilap */
 			Float fnorm   = (Float) norm;
+			Float rz2     = (Float) (((double) Lx*Lx)/((double) Tz*Tz)); /* momenta along z in units of k0 */
 // LogMsg(VERB_PARANOID,"[GV] inverse lap (norm %e %e)",norm,fnorm);
 // LogMsg(VERB_PARANOID,"[GV] hLx %d",hLx);
 // LogMsg(VERB_PARANOID,"[GV] Tz %d",Tz);
@@ -331,7 +332,7 @@ report (index, red, pad, fft, 1, "FFT");
 				ky += (int) zBase;
 				if (ky > static_cast<int>(hLy)) ky -= static_cast<int>(Lx);
 				if (kz > static_cast<int>(hTz)) kz -= static_cast<int>(Tz);
-				Float k2    = (Float) (kx*kx + ky*ky + kz*kz);
+				Float k2    = (Float) (kx*kx + ky*ky) + kz*kz*rz2;
 				m2[idx]	*= fnorm/k2;
 			}
 			/* mode 0 to zero */
@@ -618,6 +619,7 @@ LogMsg(VERB_PARANOID,"[GV] end GraHybridCpu()");
 		size_t rTz   = Tz/ref;
 
 		Float rnorm   = (Float) (-1./(k0*k0*((double) rLx*rLx*rTz)));
+		Float rz2     = (Float) (((double) Lx*Lx)/((double) Tz*Tz));
 LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 
 		if ((ref*rLx != Lx) || (ref*rLz != Lz)) {
@@ -652,7 +654,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 			if (ky > static_cast<int>(hrLy)) ky -= static_cast<int>(rLx);
 			if (kz > static_cast<int>(hrTz)) kz -= static_cast<int>(rTz);
 
-			Float k2    = (Float) (kx*kx + ky*ky + kz*kz);
+			Float k2    = (Float) (kx*kx + ky*ky) + kz*kz*rz2;
 			/* We also shift it by delta/2*/
 			// Float phi = (Float) M_PI*( (((double) kx) / ((double) rLx)) + (((double) ky) / ((double) rLx)) + (((double) kz) / ((double) rTz))  ) ;
 			Float phix = (Float) M_PI* ( ((Float) (kx)) / ((Float) rLx)) ;
-- 
2.43.0


From c73bc7ed8f9d9d31d0951d806ab476a2984f91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 077/103] fix: correlation-length initial conditions wrote the
 modes through an uninitialised pointer

---
 lib/gen/genConf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 2a0123d..6441104 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -885,6 +885,8 @@ void	ConfGenerator::confcole(Cosmos *myCosmos, Scalar *axionField)
 		mopa.kCrt = axionField->BckGnd()->PhysSize()/(6.283185307179586*(*axionField->zV())*ic.kcr);
 		mopa.mocoty = MOM_COLE;
 		mopa.cmplx = true;
+		mopa.mp = axionField->m2Cpu();
+		mopa.vp = axionField->vStart();
 	momConf(axionField, mopa);
 	myPlan.run(FFT_BCK);
 
-- 
2.43.0


From 4cf77392f8161e9f0e71758d96f2a4a218ce122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 078/103] fix: mean of a generated field started from an
 uninitialised sum and counted ghost slices

---
 lib/gen/genConf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 6441104..bac9d0a 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1640,7 +1640,7 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 	/* Computes the average value of rho for normalisation purposes */
 	LogMsg(VERB_NORMAL,"[GEN] any mean %d ",ftipo);
 	void* meandro ;
-	double mean, Mean;
+	double mean = 0., Mean;
 
 	switch(ftipo){
 		case FIELD_M:
@@ -1676,8 +1676,8 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 		}
 
 	MPI_Allreduce(&mean, &Mean, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
-	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->eSize()));
-	return Mean/((double) axionField->eSize());
+	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->TotalSize()));
+	return Mean/((double) axionField->TotalSize());
 } //end rhomean
 
 
-- 
2.43.0


From 1b65963be94f7acd6a491d66487d2ffb02eb9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 079/103] fix: MOM_KCOLE modes were generated with the
 exponential spectrum of MOM_MEXP

---
 lib/gen/momConf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/gen/momConf.cpp b/lib/gen/momConf.cpp
index 14f0003..0548274 100644
--- a/lib/gen/momConf.cpp
+++ b/lib/gen/momConf.cpp
@@ -435,6 +435,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<double, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<double, MOM_KCOLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<double, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
@@ -484,6 +487,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<float, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<float, MOM_KCOLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<float, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
-- 
2.43.0


From 5c81786dc064d410df4f1a7ac62fc3ab19119b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 080/103] fix: requested zero mode went to the velocity in the
 tkachev and thermal initial conditions

---
 lib/gen/momConf.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/lib/gen/momConf.cpp b/lib/gen/momConf.cpp
index 0548274..13ea30d 100644
--- a/lib/gen/momConf.cpp
+++ b/lib/gen/momConf.cpp
@@ -353,16 +353,10 @@ void	momXeon (complex<Float> * __restrict__ fM, complex<Float> * __restrict__ fV
 				{
 					LogMsg (VERB_NORMAL, "mode0 set to %f in rank %d", mode0, commRank());
 					// fM[0] = complex<Float>(cos(mode0), sin(mode0));
-					if (Moco == MOM_MVSINCOS || Moco == MOM_MVTHERMAL)
-						fV[0] = exp( complex<Float>(0,mode0) );
-						else
 						fM[0] = exp( complex<Float>(0,mode0) );
 				}
 				else
 				{
-					if (Moco == MOM_MVSINCOS || Moco == MOM_MVTHERMAL)
-						mode0 = atan2(fV[0].imag(),fV[0].real());
-						else
 						mode0 = atan2(fM[0].imag(),fM[0].real());
 
 					LogMsg (VERB_NORMAL, "mode0 is been randomly set to %f by rank %d", mode0, commRank());
-- 
2.43.0


From 2702ecd78e665a7882f766c86108d9b87c79b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 081/103] fix: point-based initial conditions replaced the
 requested mode0 by zero or one

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index f20b8ac..ccb9bd0 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -34,7 +34,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	size_t local_z_start = rank*Lz;
 
 	/* used from ic */
-	double mod0  = ic.mode0 > 0.0;
+	double mod0  = ic.mode0;
 	double kCri  = ic.kcr;
 	/* for string wave */
 	int div = ic.kMax; // number of strings in one dimension
-- 
2.43.0


From 54aeb2d6dadfd838d754ed0fe9be608c5b77cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 082/103] fix: axiton initial conditions in double precision
 generated a plane wave

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index ccb9bd0..c398e7a 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -435,7 +435,7 @@ void	randConf (Scalar *field, IcData ic)
 				randXeon<double,CONF_PARRES> (ma, field, ic);
 				break;
 			case CONF_AXITON:
-				randXeon<double,CONF_PARRES> (ma, field, ic);
+				randXeon<double,CONF_AXITON> (ma, field, ic);
 				break;
 			case CONF_STRWAVE:
 				randXeon<double,CONF_STRWAVE> (ma, field, ic);
-- 
2.43.0


From 5f10daef8d265e69c0d65a8c4aac6b995fa4fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 083/103] fix: point-based initial conditions took the depth of
 a cubic box also in boxes of different depth

---
 lib/gen/randXeon.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index c398e7a..2a8c465 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -29,7 +29,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	const size_t V  = field->Size();
 	const double L  = field->BckGnd()->PhysSize();
 	int rank = commRank();
-	size_t Lz = Lx/commSize();
+	size_t Lz = field->Depth();
 	size_t Tz = field->TotalDepth();
 	size_t local_z_start = rank*Lz;
 
@@ -162,7 +162,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float theta = ((Float) ((x-Lx/2)*(x-Lx/2)+(y-Lx/2)*(y-Lx/2)+z*z));
 						theta = exp(-theta*kCri2)*mod0;
 						m[idx] = std::complex<Float>(cos(theta), sin(theta));
@@ -179,7 +179,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -197,7 +197,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -250,7 +250,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						x = ix;
 						if(1){
 						//CENTERED AT GRID, z=0
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float aL = ((Float) Lx)*((Float) strR);	//RADIUS
 						rho2 = (z)*(z)+(y-Lx/2)*(y-Lx/2);
 						Float rho = sqrt((Float) rho2)	;
-- 
2.43.0


From e37baf52c8fca5d40f46dc4e5fbeecb417010e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 084/103] fix: circular string loop was not a number on lattice
 sites at the core

---
 lib/gen/randXeon.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index 2a8c465..ac59a65 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -234,7 +234,8 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						// d12 /= ((Float) Sf) ;
 						// d22 /= ((Float) Sf) ;
 
-						Float theta = 3.14159265*(0.5 + (4.f*aL*aL - d12 - d22)/(4.f*sqrt(d12*d22)))*(-0.01 + zis)/abs(-0.01 + zis)	;
+						Float dd    = sqrt(d12*d22);	// zero on the string itself
+						Float theta = dd > 0 ? 3.14159265*(0.5 + (4.f*aL*aL - d12 - d22)/(4.f*dd))*(-0.01 + zis)/abs(-0.01 + zis) : 0	;
 						m[idx] = std::complex<Float>(cos(theta), sin(theta));
 						break;
 					}
@@ -260,7 +261,8 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						// d12 /= ((Float) Sf) ;
 						// d22 /= ((Float) Sf) ;
 						//Float zis = (Float) x ;
-						Float theta = 3.14159265*(0.5 + (4.f*aL*aL - d12 - d22)/(4.f*sqrt(d12*d22)))	;
+						Float dd    = sqrt(d12*d22);	// zero on the string itself
+						Float theta = dd > 0 ? 3.14159265*(0.5 + (4.f*aL*aL - d12 - d22)/(4.f*dd)) : 0	;
 						// theta = 3.14159265*theta*theta	;
 						if (ix>Lx/2)
 							theta *= -1 ;
-- 
2.43.0


From 8fde3ca868202917092b477d90407edbe836ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 085/103] fix: vilgors smoothed with an uninitialised weight
 and ignored the requested overdensity

---
 lib/gen/genConf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index bac9d0a..2a67c48 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -585,7 +585,7 @@ void	ConfGenerator::runCpu	()
 
 			if (ic.siter == 1) {
 				nN3 = min(kCrit*nN3,1.0);
-				int niter = (int) (0.8/nN3);
+				niter = (int) (0.8/nN3);
 				// LogOut("[GEN] estimated nN3 = %f -> n_critical = %f!",nN3,nc);
 			LogMsg(VERB_NORMAL,"[GEN] kCrit %f > modifies to nN3 = %f -> n_iterations = %d!",kCrit, nN3,niter);
 		} else if (ic.siter > 1) {
@@ -604,18 +604,18 @@ void	ConfGenerator::runCpu	()
 				// printf("hello from rank %d, r = %f\n",myRank,r);
 
 				nN3 = min(pow(kCrit,r)*nN3,1.0); ;
-				int niter = (int) (0.8/nN3);
+				niter = (int) (0.8/nN3);
 				LogMsg(VERB_NORMAL,"[GEN] random,kCrit %f,%f,%f > modifies to nN3 = %f -> n_iterations = %d!",r, kCrit,pow(kCrit,r), nN3,niter);
 			}
 
-			LogMsg(VERB_NORMAL,"[GEN] smoothXeon called with %d iterations and alpha = %f!",niter,alpha);
+			LogMsg(VERB_NORMAL,"[GEN] smoothXeon called with %d iterations and alpha = %f!",niter,ic.alpha);
 			if (niter>100) {
 					LogMsg(VERB_NORMAL,"WARNING!! More than 100 iterations is not particularly efficient! update VILGOR algorithm to use FFTs!!\n");
 			}
 
 
 			prof.start();
-			smoothXeon (axionField, niter, alpha);
+			smoothXeon (axionField, niter, ic.alpha);
 			prof.stop();
 			prof.add(smthName, 18.e-9*axionField->Size()*ic.siter, 8.e-9*axionField->Size()*axionField->DataSize()*ic.siter);
 
-- 
2.43.0


From a51f0474bf7eee7cce86aa76fa48da5de2b5cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 086/103] fix: axion waves of a saxion field were lost, or
 merged in single precision and in a racy loop

---
 lib/gen/genConf.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 2a67c48..c8cd478 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -3,6 +3,7 @@
 #include <cstring>
 #include <random>
 #include <complex>
+#include <algorithm>
 
 #include "enum-field.h"
 #include "scalar/scalarField.h"
@@ -1061,22 +1062,28 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 		double xit = (249.48 + 38.8431*logit + 1086.06*logit*logit)/(21775.3 + 3665.11*logit)  ;
 		if (ic.siter == 1)
 			xit *= ic.kcr;
+		/* psi' fills the first half of v, keeps psi in the second (m and m2 are used by putxi) */
+		size_t vol = axionField->Size();
+		memcpy	   (vs + vol*axionField->Precision(), ms, vol*axionField->Precision());
 		if (xit > 0.0)
 		{
 			LogMsg(VERB_NORMAL,"[GEN] Creating string on top of SPAX! \n");
-			/* moves ctheta to m2*/
-			memcpy	   (m2, ms, axionField->DataSize()*axionField->Size());
-			float *lerdo = static_cast<float*>(axionField->m2Cpu());
 			putxi(xit,ic.kMax);
 			normaliseField(axionField, FIELD_M);
 		}
+		else if (axionField->Precision() == FIELD_SINGLE)
+			std::fill_n(reinterpret_cast<complex<float>*>(ms), vol, complex<float>(1.f,0.f));
+		else
+			std::fill_n(reinterpret_cast<complex<double>*>(ms), vol, complex<double>(1.,0.));
+		/* moves psi' and psi to m2*/
+		memcpy	   (m2, vs, axionField->DataSize()*vol);
 
 		/* Build the scalar field merging the extra waves
 
 		we have :
 			strings in mStart, phi_s
-			extra waves psi = theta*R in m2Cpu
-			extra waves psi' = theta'*R+theta R' in vCpu
+			extra waves psi = theta*R in the second half of m2Cpu
+			extra waves psi' = theta'*R+theta R' in the first half of m2Cpu
 		we need :
 			conformal scalar Phi = phi_s * exp(i theta) * R, theta = psi/R IN MSTART
 			conformal velocity Phi' = phi_s * exp(i theta) = phi_s * exp(i theta) * (R' + i theta')
@@ -1087,8 +1094,6 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 		phi' = (rho'  + rho i theta')exp(I theta)
 				 > (rho'  + rho i theta'+extra)exp(I (theta+extra))
 */
-		size_t vol = axionField->Size();
-
 
 		if (axionField->Precision() == FIELD_SINGLE)
 		{
@@ -1096,8 +1101,8 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				float Rp   = myCosmos->Rp(*axionField->zV());
 				complex<float> *co_m = static_cast<complex<float>*>(axionField->mStart());
 				complex<float> *co_v = static_cast<complex<float>*>(axionField->vCpu());
-				float *f_m  = static_cast<float*>(axionField->m2Cpu());
-				float *f_v  = static_cast<float*>(axionField->vCpu());
+				float *f_v  = static_cast<float*>(axionField->m2Cpu());
+				float *f_m  = f_v + vol;
 				#pragma omp parallel for default(shared) schedule(static)
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
@@ -1113,13 +1118,13 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				double Rp   = myCosmos->Rp(*axionField->zV());
 				complex<double> *co_m = static_cast<complex<double>*>(axionField->mStart());
 				complex<double> *co_v = static_cast<complex<double>*>(axionField->vCpu());
-				double *f_m  = static_cast<double*>(axionField->m2Cpu());
-				double *f_v  = static_cast<double*>(axionField->vCpu());
+				double *f_v  = static_cast<double*>(axionField->m2Cpu());
+				double *f_m  = f_v + vol;
 				#pragma omp parallel for default(shared) schedule(static)
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
-					float theta  = f_m[idx]/R;
-					float thetap = f_v[idx]/R-theta*Rp;
+					double theta  = f_m[idx]/R;
+					double thetap = f_v[idx]/R-theta*Rp;
 					co_m[idx] = co_m[idx]*exp(complex<double>(0.0,theta))*R;
 					co_v[idx] = complex<double>(Rp,thetap)*co_m[idx];
 				}
-- 
2.43.0


From 8a4fc9fb02af6794ab5a1adcf962bc71c9e20f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 087/103] fix: vilgor initial conditions were not a number for
 correlation lengths below the lattice spacing

---
 lib/gen/genConf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index c8cd478..6b254f2 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -342,7 +342,7 @@ void	ConfGenerator::runCpu	()
 				// (9.31021 + 1.38292e-6*logi + 0.713821*logi*logi)/(42.8748 + 0.788167*logi);
 
 			/*This is the expression that follows from the definition of xi*/
-			double nN3 = (6.0*xit*axionField->Delta()*axionField->Delta()/ic.zi/ic.zi);
+			double nN3 = min((6.0*xit*axionField->Delta()*axionField->Delta()/ic.zi/ic.zi),1.0);
 			double nc = sizeN*std::sqrt((nN3/4.7)*pow(1.-pow(nN3,1.5),-1./1.5));
 			// LogOut("[GEN] estimated nN3 = %f -> n_critical = %f!",nN3,nc);
 			LogMsg(VERB_NORMAL,"[GEN] xit(logi)= %f estimated nN3 = %f -> n_critical = %f!",xit, nN3, nc);
-- 
2.43.0


From cd2b7672ee8931deac512c70df1903041fc1e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 088/103] fix: --verbose 0 and --verbose 2 left the normal
 verbosity, 3 gave 2

---
 lib/utils/parse.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 81a9e8a..31a5c95 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -603,12 +603,13 @@ int	parseDims (int argc, char *argv[])
 				printf("Error: I need a verbosity level.\n");
 				exit(1);
 			}
-			int mocho;
+			int mocho = VERB_NORMAL;
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&mocho));
 
-			if (mocho > VERB_HIGH)      verb = VERB_HIGH;      //2
-			if (mocho > VERB_PARANOID)  verb = VERB_PARANOID;  //3
-			if (mocho < VERB_SILENT)    verb = VERB_SILENT;    //0
+			verb = VERB_NORMAL;                                //1
+			if (mocho >= VERB_HIGH)     verb = VERB_HIGH;      //2
+			if (mocho >= VERB_PARANOID) verb = VERB_PARANOID;  //3
+			if (mocho <= VERB_SILENT)   verb = VERB_SILENT;    //0
 
 
 			i++;
-- 
2.43.0


From cb0577cbc692fb52a8daad15e992fde26c10e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 089/103] fix: --lz2e was ignored when given before --msa

---
 lib/utils/parse.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 31a5c95..0fc907c 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -69,6 +69,7 @@ bool uSize    = false;
 bool uQcd     = false;
 bool uLambda  = false;
 bool uMsa     = false;
+bool uLz2e    = false;
 bool uI3      = false;
 bool uPot     = false;
 bool uGamma   = false;
@@ -1567,7 +1568,8 @@ int	parseArgs (int argc, char *argv[])
 
 			uMsa  = true;
 			lType = LAMBDA_Z2; //obsolete?
-      lz2e  = 2.0;
+			if (!uLz2e)
+				lz2e  = 2.0;
 			PARSE2;
 		}
 
@@ -1580,6 +1582,7 @@ int	parseArgs (int argc, char *argv[])
 			}
 
 			lz2e = atof(argv[i+1]);
+			uLz2e = true;
 
 			PARSE2;
 		}
-- 
2.43.0


From d458c91c471cf54031f92dbe56baf23ea4125229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 090/103] fix: --wkb was compared with the default final time
 when given before --zf

---
 lib/utils/parse.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 0fc907c..20bbe9a 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -79,6 +79,7 @@ bool uZrs     = false;
 bool uZin     = false;
 bool uZfn     = false;
 bool uLogi    = false;
+bool uWKB     = false;
 bool uMI      = false;
 bool uFR      = false;
 bool ufA      = false;
@@ -1127,12 +1128,7 @@ int	parseArgs (int argc, char *argv[])
 
 			wkb2z = atof(argv[i+1]);
 
-			if (wkb2z < zFinl)
-			{
-				printf("Error: z_wkb must be > zf. No WKB will be done!\n");
-				wkb2z = -1.0	;
-				exit(1);
-			}
+			uWKB = true;
 
 			PARSE2;
 		}
@@ -2624,6 +2620,12 @@ if (icdatst.cType == CONF_SMOOTH )
   zInit = icdatst.zi; //legacy
 
 
+	if (uWKB && wkb2z < zFinl)
+	{
+		printf("Error: z_wkb must be > zf. No WKB will be done!\n");
+		exit(1);
+	}
+
 	vqcdType |= vpqType;
  	vqcdType |= (vqcdTypeDamp | vqcdTypeEvol);
 
-- 
2.43.0


From 9241174ef26382c6e637e699bf35a70e4f5fd3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 091/103] fix: options with a missing argument crashed, and the
 axiton tracker options wrote over their neighbours

---
 lib/utils/parse.cpp | 67 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 4 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 20bbe9a..1ec085a 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -817,12 +817,24 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--sliceprint"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a slice number.\n");
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&slicepp));
 			PARSE2;
 		}
 
 		if (!strcmp(argv[i], "--p2Dslice"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a slice number.\n");
+				exit(1);
+			}
+
 			p2dmapo = true ;
 			defaultmeasType |= MEAS_2DMAP;
 			maty |= MAPT_XYMV;
@@ -833,6 +845,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--p2DsliceYZ"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a slice number.\n");
+				exit(1);
+			}
+
 			p2dmapo = true ;
 			defaultmeasType |= MEAS_2DMAP;
 			maty |= MAPT_YZMV;
@@ -918,6 +936,12 @@ int	parseArgs (int argc, char *argv[])
 
     if (!strcmp(argv[i], "--idxprint"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need an index.\n");
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%lu", reinterpret_cast<size_t*>(&deninfa.idxprint));
 			PARSE2;
 		}
@@ -1767,6 +1791,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--meas2theta"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a measurement type.\n");
+				exit(1);
+			}
+
 
 			MeasureType loco = (MeasureType) atoi(argv[i+1]);
 
@@ -1970,12 +2000,12 @@ int	parseArgs (int argc, char *argv[])
 			icdatst.axtinfo.gradients    = false; //default
 
 			char ff[] = "-";
-			if (argv[i+1][0] == ff[0]){
+			if (i+1 == argc || argv[i+1][0] == ff[0]){
 				icdatst.axtinfo.nMax = -2; //default
 				PARSE1;
 			}
 			else {
-				sscanf(argv[i+1], "%zu", &icdatst.axtinfo.nMax);
+				sscanf(argv[i+1], "%d", &icdatst.axtinfo.nMax);
 				PARSE2;
 			}
 
@@ -1983,6 +2013,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.th_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a threshold.\n");
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.th_threshold);
       icdatst.axtinfo.th_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -1990,6 +2026,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.vh_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a threshold.\n");
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.ve_threshold);
       icdatst.axtinfo.ve_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -1997,6 +2039,12 @@ int	parseArgs (int argc, char *argv[])
 
     if (!strcmp(argv[i], "--axitontracker.con_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a threshold.\n");
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.con_threshold);
       icdatst.axtinfo.con_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -2004,14 +2052,25 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.ct_threshold"))
 		{
-			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.ct_threshold);
+			if (i+1 == argc)
+			{
+				printf("Error: I need a threshold.\n");
+				exit(1);
+			}
+
       icdatst.axtinfo.ct_threshold = atof(argv[i+1]);
 			PARSE2;
 		}
 
 		if (!strcmp(argv[i], "--axitontracker.printradius"))
 		{
-			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.printradius);
+			if (i+1 == argc)
+			{
+				printf("Error: I need a radius.\n");
+				exit(1);
+			}
+
+			sscanf(argv[i+1], "%d", &icdatst.axtinfo.printradius);
 			PARSE2;
 		}
 
-- 
2.43.0


From 168cc320c04370dd5681cbefe9d15dcdab911604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 092/103] fix: negative values of unsigned options and six
 laplacian neighbours were accepted despite their error messages

---
 lib/utils/parse.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 1ec085a..5557052 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -1068,7 +1068,7 @@ int	parseArgs (int argc, char *argv[])
 
 			sscanf(argv[i+1], "%zu", &sizeN);
 
-			if (sizeN < 2)
+			if (atol(argv[i+1]) < 2)
 			{
 				printf("Error: Size must be larger than 2.\n");
 				exit(1);
@@ -1778,7 +1778,7 @@ int	parseArgs (int argc, char *argv[])
 
 			MeasureType loco = (MeasureType) atoi(argv[i+1]);
 
-			if (loco < 0)
+			if (atoi(argv[i+1]) < 0)
 			{
 				printf("Error: Measurement type must be >= 0.\n");
 				exit(1);
@@ -1800,7 +1800,7 @@ int	parseArgs (int argc, char *argv[])
 
 			MeasureType loco = (MeasureType) atoi(argv[i+1]);
 
-			if (loco < 0)
+			if (atoi(argv[i+1]) < 0)
 			{
 				printf("Error: Measurement 2theta type must be >= 0.\n");
 				exit(1);
@@ -1835,7 +1835,7 @@ int	parseArgs (int argc, char *argv[])
 
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&spmask));
 
-			if (spmask < 0)
+			if (atoi(argv[i+1]) < 0)
 			{
 				printf("Error: Spectrum masking type is a positive integer.\n");
 				exit(1);
@@ -1854,7 +1854,7 @@ int	parseArgs (int argc, char *argv[])
 
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&nrt));
 
-			if (nrt < 0)
+			if (atoi(argv[i+1]) < 0)
 			{
 				printf("Error: Spectrum masking type is a positive integer.\n");
 				exit(1);
@@ -1942,7 +1942,7 @@ int	parseArgs (int argc, char *argv[])
 
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&strmeas));
 
-			if (strmeas < 0)
+			if (atoi(argv[i+1]) < 0)
 			{
 				printf("Error: String measurement type is a positive integer.\n");
 				exit(1);
@@ -2093,7 +2093,7 @@ int	parseArgs (int argc, char *argv[])
 			sscanf(argv[i+1], "%zu", &kMax); //legacy
 			sscanf(argv[i+1], "%zu", &icdatst.kMax);
 
-			if (kMax < 0)
+			if (atol(argv[i+1]) < 0)
 			{
 				printf("Error: the maximum momentum must be equal or greater than zero.\n");
 				exit(1);
@@ -2113,7 +2113,7 @@ int	parseArgs (int argc, char *argv[])
 			sscanf(argv[i+1], "%zu", &iter);
 			sscanf(argv[i+1], "%zu", &icdatst.siter);
 
-			if (iter < 0)
+			if (atol(argv[i+1]) < 0)
 			{
 				printf("Error: Number of iterations must be equal or greater than zero.\n");
 				exit(1);
@@ -2508,7 +2508,7 @@ int	parseArgs (int argc, char *argv[])
 			bopt = true;
 			pType |= PROP_BASE;
 
- 			if (icdatst.Nghost < 0 || icdatst.Nghost > 6)
+ 			if (icdatst.Nghost < 0 || icdatst.Nghost > 5)
 			{
 				printf("Error: The number of laplacian neighbours must be 0,1,2,3,4 or 5\n");
 				exit(1);
-- 
2.43.0


From 1aa5222f94fd1fdcb7e88bbed119eef3a21400b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 093/103] fix: --axitontracker.gradients swallowed the
 following option

---
 lib/utils/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 5557052..d45e554 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -2077,7 +2077,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--axitontracker.gradients"))
 		{
 			icdatst.axtinfo.gradients = true;
-			PARSE2;
+			PARSE1;
 		}
 
 		/* IC's*/
-- 
2.43.0


From 73f12c39d62f1ea30bdcd4ff5baa7d1118d1677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 094/103] fix: keep the particle velocities of a gadget void
 file in a buffer of their own

They were written past the end of the velocity field, on top of other allocations.
---
 lib/gadget/gadget_output.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index b543b7e..59f64c0 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -4,6 +4,7 @@
 #include <complex>
 #include <hdf5.h>
 #include <random>
+#include <vector>
 #include <fftw3-mpi.h>
 
 #include "scalar/scalarField.h"
@@ -617,6 +618,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
     */
     LogOut("\n[gadgetme] Creating particle coordinates and velocities ... ");
     size_t lPos = 0;
+    std::vector<float> vBuffer(slab*3);	// Velocities of the particles of one slab
     for (hsize_t zDim = 0; zDim < Nslabs; zDim++)
     {
         offset = (((hsize_t) (myRank*Nslabs)) + zDim)*slab;
@@ -640,7 +642,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	    if (dataSize == 4) 
 	    {	
 	        float *axOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+dataSize*(slab*(Lz*2+1))));
-		float  *vOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->vBackGhost())+dataSize*(slab*(Lz*2+1))));
+		float  *vOut = vBuffer.data();
                 float  *mOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+ (slab*(Lz+1))*dataSize));
 
                 for (hssize_t i=0; i<nPrti; i++)
@@ -753,7 +755,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	if ((rErr < 0)) { LogError ("Error writing position dataset"); prof.stop(); exit(0); }
 	
 	H5Sselect_hyperslab(vSpc2, H5S_SELECT_SET, vOffset, stride, vSlab, nullptr);
-	auto vErr = H5Dwrite (vSt2_id, dataType, memSpace, vSpc2, plist_id, static_cast<char *> (axion->vBackGhost())+(slab*(Lz*2+1)*dataSize));
+	auto vErr = H5Dwrite (vSt2_id, dataType, memSpace, vSpc2, plist_id, vBuffer.data());
 	if ((vErr < 0)) { LogError ("Error writing velocity dataset"); prof.stop(); exit(0); }
 	
         H5Sselect_hyperslab(mSpce, H5S_SELECT_SET, &offset, NULL, &slab, NULL);
-- 
2.43.0


From 5eab89ffb576bc1131f57435b70bcc59c97179cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 095/103] fix: balance the gadget particles over existing sites
 only

---
 lib/gadget/gadget_output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 59f64c0..96c18ee 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -1262,7 +1262,7 @@ void    createGadget_Halo(Scalar *axion, size_t realN=0, size_t nParts=0, double
 
 		std::random_device rSd;
 		std::mt19937_64 rng(rSd());
-		std::uniform_int_distribution<size_t> uni  (0, slab*Lz);
+		std::uniform_int_distribution<size_t> uni  (0, slab*Lz-1);
 
 		LogOut("[gad] Balancing locally adding/substracting points...\n",aPart,nPrt);
 		// while (aPart != total)   [old global version]
-- 
2.43.0


From a1d8035ccc007f8d5d8391e789183b106bd6fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 096/103] fix: a site with more particles than a slab no longer
 overflows the slab of a gadget file

---
 lib/gadget/gadget_output.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 96c18ee..3d3bf24 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -3,6 +3,7 @@
 #include <cstring>
 #include <complex>
 #include <hdf5.h>
+#include <algorithm>
 #include <random>
 #include <vector>
 #include <fftw3-mpi.h>
@@ -1393,7 +1394,8 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 
 				if (dataSize == 4) {
 					float	*axOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+dataSize*(slab*(Lz*2+1))));
-					for (hssize_t i=0; i<remain; i++)
+					const hssize_t toPlace = std::min(remain, (hssize_t) slab);
+					for (hssize_t i=0; i<toPlace; i++)
 					{
 						float xO = (nX + 0.5f + gauss(rng) )*bSize/((float) totlX);
 						float yO = (nY + 0.5f + gauss(rng) )*bSize/((float) totlX);
@@ -1417,7 +1419,7 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 					// no double precision version
 				}
 
-				remain = 0;
+				remain -= tPrti;
 			}
 
 		/* main function */
-- 
2.43.0


From 61f81893c782f5cccb66564a9e961b27162b7033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 097/103] fix: send the particles of a partly written site to
 the rank that misses them

When the leftover of the site covered the request the sender left the loop without sending anything, and the receiver waited forever.
---
 lib/gadget/gadget_output.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 3d3bf24..4bf2eaa 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -1565,11 +1565,11 @@ printf("Rank %d received request for %d particles\n", rSend, toSend); fflush(std
 						i++;
 					}
 
-					if (pSent == toSend)
-						break;
+					/* What is left of the last site may be enough */
+					const bool lastSite = (pSent == toSend);
 
 printf("Rank %d is preparing the data to be sent\n", rSend); fflush(stdout);
-					do {
+					if (!lastSite) do {
 if ((pSent%1024) == 0)
 printf("Rank %d preparing particle %06d\n", rSend, pSent); fflush(stdout);
 						int nPhere = axTmp[lPos];
@@ -1597,7 +1597,7 @@ printf("Rank %d preparing particle %06d\n", rSend, pSent); fflush(stdout);
 					}	while(true);
 
 					MPI_Send (&toSend, 1, MPI_INT, rRecv, 28, MPI_COMM_WORLD);
-					size_t ePos = (i==slab) ? lPos : lPos+1;
+					size_t ePos = (i==slab || lastSite) ? lPos : lPos+1;
 					MPI_Send(&iPos, 1, MPI_UNSIGNED_LONG_LONG, rRecv, 29, MPI_COMM_WORLD);
 					MPI_Send(&ePos, 1, MPI_UNSIGNED_LONG_LONG, rRecv, 30, MPI_COMM_WORLD);
 					MPI_Send(&(axTmp[gAddr]), (ePos-iPos), MPI_INT, rRecv, 26, MPI_COMM_WORLD);
-- 
2.43.0


From 5968dd68d8e585e7e2f863b6318004cdd7c8831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 098/103] fix: gadget particles displaced by more than a box
 stay in the box

---
 lib/gadget/gadget_output.cpp | 40 +++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 4bf2eaa..7c63f85 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -4,6 +4,7 @@
 #include <complex>
 #include <hdf5.h>
 #include <algorithm>
+#include <cmath>
 #include <random>
 #include <vector>
 #include <fftw3-mpi.h>
@@ -798,6 +799,15 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	
 }
 
+/*
+   Takes a coordinate back to the periodic box, however far it went
+*/
+static inline float wrapBox (float x, double bSize)
+{
+	float y = x - bSize*std::floor(x/bSize);
+	return (y >= 0.f && y < bSize) ? y : 0.f;
+}
+
 /*
    Main function that generates a gadget snapshot for the halo mapping 
 */
@@ -1401,13 +1411,9 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 						float yO = (nY + 0.5f + gauss(rng) )*bSize/((float) totlX);
 						float zO = (nZ + 0.5f + gauss(rng) )*bSize/((float) totlZ);
 
-						if (xO < 0.0f) xO += bSize;
-						if (yO < 0.0f) yO += bSize;
-						if (zO < 0.0f) zO += bSize;
-
-						if (xO > bSize) xO -= bSize;
-						if (yO > bSize) yO -= bSize;
-						if (zO > bSize) zO -= bSize;
+						xO = wrapBox(xO, bSize);
+						yO = wrapBox(yO, bSize);
+						zO = wrapBox(zO, bSize);
 
 						axOut[tPrti*3+0] = xO;
 						axOut[tPrti*3+1] = yO;
@@ -1434,13 +1440,9 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 					float yO = (yC + 0.5f + gauss(rng) )*bSize/((float) totlX);
 					float zO = (zC + 0.5f + gauss(rng) )*bSize/((float) totlZ);
 
-					if (xO < 0.0f) xO += bSize;
-					if (yO < 0.0f) yO += bSize;
-					if (zO < 0.0f) zO += bSize;
-
-					if (xO > bSize) xO -= bSize;
-					if (yO > bSize) yO -= bSize;
-					if (zO > bSize) zO -= bSize;
+					xO = wrapBox(xO, bSize);
+					yO = wrapBox(yO, bSize);
+					zO = wrapBox(zO, bSize);
 
 					axOut[tPrti*3+0] = xO;
 					axOut[tPrti*3+1] = yO;
@@ -1516,13 +1518,9 @@ printf("Rank %d processing site %06d\n", rRecv, i); fflush(stdout);
 								float yO = (yC + 0.5f + gauss(rng) )*bSize/((float) totlX);
 								float zO = (zC + 0.5f + gauss(rng) )*bSize/((float) totlZ);
 
-								if (xO < 0.0f) xO += bSize;
-								if (yO < 0.0f) yO += bSize;
-								if (zO < 0.0f) zO += bSize;
-
-								if (xO > bSize) xO -= bSize;
-								if (yO > bSize) yO -= bSize;
-								if (zO > bSize) zO -= bSize;
+								xO = wrapBox(xO, bSize);
+								yO = wrapBox(yO, bSize);
+								zO = wrapBox(zO, bSize);
 
 								axOut[tPrti*3+0] = xO;
 								axOut[tPrti*3+1] = yO;
-- 
2.43.0


From 0e70105a45a38ccd2685dc5f17649deaecd92ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 099/103] fix: corners of the cloud-in-cell interpolation at
 the faces of the box

---
 lib/gadget/gadget_output.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 7c63f85..f385709 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -237,17 +237,10 @@ void CIC_interp(Scalar *axion, float * grad3, float * mass, size_t idx, float x_
 	xYz = O[2]; //idxPy
 	xyZ = idx + S; //idxPz
 
-	if (X[1] != totlX - 1) XYz = Xyz + totlX;     // (1,1,0)
-	else                   XYz = xYz + 1;         // (1,1,0)
-
-	if (X[0] != totlX - 1) XyZ = xyZ + 1;         // (1,0,1)
-	else                   XyZ = xyZ + totlX;     // (1,0,1)
-
-	if (X[1] != totlX - 1) xYZ = xyZ + totlX;     // (0,1,1)
-	else                   xYZ = xYz + S;         // (0,1,1)
-
-	if (X[1] != totlX - 1) XYZ = Xyz + totlX + S; // (1,1,1)
-	else                   XYZ = xYz + 1 + S;     // (1,1,1)
+	XYz = Xyz + (xYz - xyz);	// (1,1,0)
+	XyZ = Xyz + S;			// (1,0,1)
+	xYZ = xYz + S;			// (0,1,1)
+	XYZ = XYz + S;			// (1,1,1)
 
 	if (!mass_flag)
 	{	
-- 
2.43.0


From 47ec9989f5e27aa567903f24f032625e652c8481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 100/103] fix: interpolate the masses of the last slice with
 the following one

The slice after the last one held unrelated data.
---
 lib/gadget/gadget_output.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index f385709..3958d49 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -468,7 +468,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	float * im    = static_cast<float *>(axion->vStart());
 	float * newEn = static_cast<float *>(axion->m2Cpu());
 	#pragma omp parallel for schedule(static)
-	for (size_t idx = 0; idx < rOff; idx++)
+	for (size_t idx = 0; idx < rOff + slab; idx++)	// One slice more for the interpolation
 	    newEn[idx] = re[idx]*re[idx]+im[idx]*im[idx];
     }
     else
@@ -602,7 +602,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
     /* Prepare the mass field in Solar Masses */
     float * mData = static_cast<float *>(axion->m2Cpu());
     #pragma omp parallel for schedule(static)
-    for (size_t idx = 0; idx<rOff; idx++)
+    for (size_t idx = 0; idx<rOff+slab; idx++)
         mData[idx] *= avMass;
 
 
-- 
2.43.0


From e8b0fc4fb7af7a5a95a9c0a9304d9bd7560dce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:01 +0000
Subject: [PATCH 101/103] fix: share out the gadget particles so that every
 rank can place its own

Rank 0 took whatever was left by the rounding of the others, and never
ended when its own density had no place for it.
---
 lib/gadget/gadget_output.cpp | 40 +++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 3958d49..9b6217b 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -1066,31 +1066,29 @@ void    createGadget_Halo(Scalar *axion, size_t realN=0, size_t nParts=0, double
 	scaleField(axion,FIELD_M2,factor);
 	LogOut("\n[gad3] Energy field normalised!\n"); // m2 now holds the density contrast 
 
-	double localoca = round(eMean_local*rOff/neweMean);
-	size_t nPrt_local = (size_t) localoca;
-	printf("[gad] rank %d should take %lu particles\n",commRank(),nPrt_local);
-	fflush(stdout);
-	commSync();
+	/*	The share of every rank is rounded down, and the ranks with the largest rests take one particle
+		more, so that a rank is never asked for particles where its density leaves no place for them	*/
+	const double share = eMean_local*rOff/neweMean;
+	size_t nPrt_local = (size_t) floor(share);
+	double myRest = share - nPrt_local;
 
 	size_t nPrt_temp;
 	MPI_Allreduce(&nPrt_local, &nPrt_temp, 1, MPI_UNSIGNED_LONG_LONG, MPI_SUM, MPI_COMM_WORLD);
-	if (nPrt_temp > nPrt)
-	{
-		//LogOut("[gad3] sum is %lu, which is %lu too many \n",nPrt_temp,nPrt_temp-nPrt);
-		LogOut("[gad3] Rank 0 readjusts itself from %lu to nPart = %lu\n",nPrt_local,nPrt_local + (nPrt-nPrt_temp) );
-		if (commRank()==0)
-			nPrt_local = nPrt_local + (nPrt-nPrt_temp);
-	}
-	else 
-	{
-		//LogOut("[gad3] sum is %lu, which is %lu too few \n",nPrt_temp,nPrt-nPrt_temp);
-		LogOut("[gad3] Rank 0 readjusts itself from %lu to nPart = %lu ...",nPrt_local,nPrt_local + (nPrt-nPrt_temp) );
-		if (commRank()==0){
-			nPrt_local = nPrt_local + (nPrt-nPrt_temp);
-			LogOut("Done! \n");
-			}
 
-	}
+	std::vector<double> rests(commSize());
+	MPI_Allgather(&myRest, 1, MPI_DOUBLE, rests.data(), 1, MPI_DOUBLE, MPI_COMM_WORLD);
+
+	hssize_t ahead = 0;
+	for (int i=0; i<commSize(); i++)
+		if ((rests[i] > myRest) || ((rests[i] == myRest) && (i < myRank)))
+			ahead++;
+
+	if (ahead < ((hssize_t) nPrt) - ((hssize_t) nPrt_temp))
+		nPrt_local++;
+
+	printf("[gad] rank %d should take %lu particles\n",commRank(),nPrt_local);
+	fflush(stdout);
+	commSync();
 
 	/*	Create space for writing the raw data to disk with chunked access	*/
 	
-- 
2.43.0


From c36b76238189621efe006140cc85ea474448260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:46 +0000
Subject: [PATCH 102/103] fix: histograms of the field with more than one ghost
 slice start at its first slice

With a laplacian of more neighbours the data binned for theta, rho and log theta^2
began inside the lower ghost slices, which hold the values of an earlier time.
---
 lib/meas/measa.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 83147ef..84ad710 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -849,7 +849,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 				 [s=shhhs] (complex<Float> x) { return (double) arg(x-s); });
-					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 									 [] (complex<Float> x) { return (double) arg(x); });
 					thBin.run();
 					writeBinner(thBin, "/bins", "thetaB");
@@ -864,7 +864,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 					[z=z_now,s=shhhs] (complex<Float> x) { return (double) abs(x-s)/z; } );
-					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										[z=R_now] (complex<Float> x) { return (double) abs(x)/z; } );
 					rhoBin.run();
 					writeBinner(rhoBin, "/bins", "rhoB");
@@ -873,7 +873,7 @@ writePMapHdf5s (axiona, LAB);
 					{
 						// LogOut("binL ");
 						LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										 [] (complex<Float> x) { return (double) log10(1.0e-10+pow(arg(x),2)); });
 						logth2Bin.run();
 						writeBinner(logth2Bin, "/bins", "logtheta2B");
@@ -884,7 +884,7 @@ writePMapHdf5s (axiona, LAB);
 		{
 			// LogOut("binthetha ");
 			LogMsg(VERB_NORMAL, "[Meas %d] bin theta ",indexa);
-				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 								 [z=R_now] (Float x) { return (double) (x/z); });
 				thBin.run();
 				writeBinner(thBin, "/bins", "thetaB");
@@ -898,7 +898,7 @@ writePMapHdf5s (axiona, LAB);
 				{
 					// LogOut("bintt2 ");
 					LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 									 [z=R_now] (Float x) -> float { return (double) log10(1.0e-10+pow(x/z,2)); });
 					logth2Bin2.run();
 					writeBinner(logth2Bin2, "/bins", "logtheta2B");
-- 
2.43.0


From c086ca8a5f6eafb87a4d61d7652b36f8977d49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:05 +0000
Subject: [PATCH 103/103] fix: write the spectrum with the axiton mask that has
 no radius only once

With several mask radii the second write of sPmaskedV failed and left the
measurement file unreadable.
---
 lib/meas/measa.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 84ad710..d232504 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -316,6 +316,8 @@ MeasData	Measureme  (Scalar *axiona, MeasInfo info)
 									sprintf(PRELABEL, "%s", "sPmaskedV");
 										specAna.masker(rmasktab[ii], SPMASK_AXITV, M2_ENERGY, cummask);
 											writeArray(specAna.data(SPECTRUM_P), specAna.PowMax(), "/pSpectrum", PRELABEL);
+											/* this mask has no radius, one spectrum is enough */
+											break;
 										}
 					}
 
-- 
2.43.0

