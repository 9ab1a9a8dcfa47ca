From 14f85633fa203bd9b3618c5666f7008fee054c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:33 +0000
Subject: [PATCH 001/126] fix: keep the preferred members when a bounded
 archive is truncated

moeoFitDivBoundedArchive sorted its members worst first and then cut the end,
so it threw away the best individuals.
---
 moeo/src/archive/moeoFitDivBoundedArchive.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/archive/moeoFitDivBoundedArchive.h b/moeo/src/archive/moeoFitDivBoundedArchive.h
index 32e13ec..60f2948 100644
--- a/moeo/src/archive/moeoFitDivBoundedArchive.h
+++ b/moeo/src/archive/moeoFitDivBoundedArchive.h
@@ -150,13 +150,13 @@ private:
          */
         Wrapper(moeoComparator < MOEOT > & _comp) : comp(_comp) {}
         /**
-         * Returns true if _moeo1 is greater than _moeo2 according to the comparator
+         * Returns true if _moeo1 is greater than _moeo2 according to the comparator, so that std::sort puts the best first
          * _moeo1 the first individual
          * _moeo2 the first individual
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            return comp(_moeo1,_moeo2);
+            return comp(_moeo2,_moeo1);
         }
     private:
         /** the comparator */
-- 
2.43.0


From bcc913c381ebb36ad52c96283bc9f5034659a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:33 +0000
Subject: [PATCH 002/126] fix: do not read past the population in the SPEA2
 archive

When every individual of the population had entered the archive, or when the
population was empty, the update read one element past its end.
---
 moeo/src/archive/moeoSPEA2Archive.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/archive/moeoSPEA2Archive.h b/moeo/src/archive/moeoSPEA2Archive.h
index d2c64b8..b43f6fc 100644
--- a/moeo/src/archive/moeoSPEA2Archive.h
+++ b/moeo/src/archive/moeoSPEA2Archive.h
@@ -178,7 +178,7 @@ public:
             i=0;
 
             //While we have a better element in pop than the worst <= -1 in the archive, replace the worst(of archive) by the best(of pop)
-            while ( (i<borne) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) && ( j < copy_pop.size() ) )
+            while ( (i<borne) && ( j < copy_pop.size() ) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) )
             {
                 operator[](i)= back();
                 pop_back();
@@ -188,7 +188,7 @@ public:
             }
 
             //If their are others goods elements in pop (fitness=0) , keep only archive's size elements between the archive's elements and the good element in the pop (k ieme smallest distance is used)
-            if (copy_pop[j].fitness > -1)
+            if ((j < copy_pop.size()) && (copy_pop[j].fitness > -1))
             {
                 unsigned int inf=j;
                 unsigned int p;
-- 
2.43.0


From 8083fbd6b5aca059781897ba183b26cf55ed7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:33 +0000
Subject: [PATCH 003/126] fix: make the 2D hypervolume archive compile and stop
 reading past its end

The ordering functor could not be called on a const object, which C++17
rejects. The contribution of the last member was computed from the element
after it.
---
 moeo/src/archive/moeo2DMinHypervolumeArchive.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moeo/src/archive/moeo2DMinHypervolumeArchive.h b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
index de022bb..d49aa21 100644
--- a/moeo/src/archive/moeo2DMinHypervolumeArchive.h
+++ b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
@@ -51,7 +51,7 @@ struct comp
 {
 	// returns a "before" b
 	// all objectives = min
-	bool operator() (const MOEOT & a, const MOEOT & b)
+	bool operator() (const MOEOT & a, const MOEOT & b) const
 	{
 		return  ((a.objectiveVector()[1] < b.objectiveVector()[1]) || ((a.objectiveVector()[1] == b.objectiveVector()[1]) && (a.objectiveVector()[0] < b.objectiveVector()[0])));
 	}
@@ -341,7 +341,10 @@ protected:
 				res= _objVec[0] - (*hint).objectiveVector()[0];
 				tmp=(*hint).objectiveVector()[1];
 				hint++;
-				res*= ((*hint).objectiveVector()[1] - tmp);
+				if(hint==end())
+					res=maxValue;
+				else
+					res*= ((*hint).objectiveVector()[1] - tmp);
 				hint--;
 			}
 		}
-- 
2.43.0


From 2f8f007405142f5a3e59809776ef8d7daf32e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:33 +0000
Subject: [PATCH 004/126] fix: initialise the result of a population update of
 the epsilon archive

---
 moeo/src/archive/moeoEpsilonHyperboxArchive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeoEpsilonHyperboxArchive.h b/moeo/src/archive/moeoEpsilonHyperboxArchive.h
index 7ea2e1f..3af4814 100644
--- a/moeo/src/archive/moeoEpsilonHyperboxArchive.h
+++ b/moeo/src/archive/moeoEpsilonHyperboxArchive.h
@@ -231,7 +231,7 @@ public:
      */
     bool operator()(const eoPop < MOEOT > & _pop)
     {
-    	bool res, tmp = false;
+    	bool res = false, tmp = false;
     	for(unsigned int i=0; i<_pop.size(); i++){
     		tmp = (*this)(_pop[i]);
     		res = res || tmp;
-- 
2.43.0


From 2ea813af4baaf5a806c14437ce69865f20a20941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 005/126] fix: clear the set of copies of the dominance matrix
 between uses

---
 moeo/src/utils/moeoDominanceMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moeo/src/utils/moeoDominanceMatrix.h b/moeo/src/utils/moeoDominanceMatrix.h
index 474e492..2b878bf 100644
--- a/moeo/src/utils/moeoDominanceMatrix.h
+++ b/moeo/src/utils/moeoDominanceMatrix.h
@@ -96,6 +96,7 @@ public:
         resize(i+j);
         countVector.resize(i+j);
         rankVector.resize(i+j);
+        copySet.clear();
         for (unsigned int k=0; k < i+j; k++) {
             (*this)[k].resize(i+j);
             countVector[k]=0;
-- 
2.43.0


From e8dd83d8681c1ba0f3bfcf0210b559d1289cfc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 006/126] fix: rank fronts in each objective's own direction,
 duplicates included

---
 .../moeoDominanceDepthFitnessAssignment.h     | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
index 96f295b..db8d408 100644
--- a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
+++ b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
@@ -149,20 +149,23 @@ private:
     {
     public:
         /**
-         * Returns true if _moeo1 > _moeo2 on the first objective, then on the second, and so on
+         * Returns true if _moeo1 is better than _moeo2 on the first objective, then on the second, and so on (each one in its own direction)
          * @param _moeo1 the first solution
          * @param _moeo2 the second solution
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            if (MOEOT::ObjectiveVector::maximizing(0))
-                return cmp(_moeo2.objectiveVector(), _moeo1.objectiveVector());
-            else
-                return cmp(_moeo1.objectiveVector(), _moeo2.objectiveVector());
+            const ObjectiveVector obj1 = _moeo1.objectiveVector();
+            const ObjectiveVector obj2 = _moeo2.objectiveVector();
+            for (unsigned int i=0; i<ObjectiveVector::nObjectives(); i++)
+            {
+                if ( fabs(obj1[i] - obj2[i]) > ObjectiveVector::Traits::tolerance() )
+                {
+                    return ObjectiveVector::maximizing(i) ? (obj1[i] > obj2[i]) : (obj1[i] < obj2[i]);
+                }
+            }
+            return false;
         }
-    private:
-        /** the corresponding comparator for objective vectors */
-        moeoObjectiveObjectiveVectorComparator < ObjectiveVector > cmp;
     }
     objComparator;
     
@@ -196,7 +199,7 @@ private:
     void twoObjectives (eoPop < MOEOT > & _pop)
     {
         double value_obj1;
-        unsigned int front;
+        unsigned int front = 0;
         unsigned int last_front = 0;
         bool equiv_flag;
         
@@ -237,13 +240,17 @@ private:
         for(unsigned int i=0; i<sortedptrpop.size(); i++)
         {
             equiv_flag = false;
-            // check for equivalent solutions and assign them to the worst front
+            // check for equivalent solutions (assigned to the worst front if they have to be removed)
             if (i>0)
             {
-                if ( (rm_equiv_flag_in_2D) && (sortedptrpop[i]->objectiveVector() == sortedptrpop[i-1]->objectiveVector()) )
+                if (sortedptrpop[i]->objectiveVector() == sortedptrpop[i-1]->objectiveVector())
                 {
                     equiv_flag = true;
-                    fronts.back().push_back(i);
+                    // without removal, an equivalent solution belongs to the front of the previous one
+                    if (rm_equiv_flag_in_2D)
+                        fronts.back().push_back(i);
+                    else
+                        fronts[front].push_back(i);
                 }
             }
             if (!equiv_flag)
-- 
2.43.0


From 071c2f22c76ec80695c3fe678fc1b4763c940562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 007/126] fix: avoid NaN crowding when an objective is constant

---
 moeo/src/diversity/moeoCrowdingDiversityAssignment.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
index 8f9b554..354bb2f 100644
--- a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
+++ b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
@@ -131,6 +131,11 @@ class moeoCrowdingDiversityAssignment : public moeoDiversityAssignment < MOEOT >
           // min & max
           min = _pop[0].objectiveVector()[obj];
           max = _pop[_pop.size()-1].objectiveVector()[obj];
+          if (min == max)
+            {
+              min -= tiny();
+              max += tiny();
+            }
           // set the diversity value to infiny for min and max
           _pop[0].diversity(inf());
           _pop[_pop.size()-1].diversity(inf());
-- 
2.43.0


From 3e69e43608b6cae0cd03d9cae87981538014c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 008/126] fix: reject an objective index equal to the number of
 objectives

---
 moeo/src/comparator/moeoOneObjectiveComparator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/comparator/moeoOneObjectiveComparator.h b/moeo/src/comparator/moeoOneObjectiveComparator.h
index f354385..4abca86 100644
--- a/moeo/src/comparator/moeoOneObjectiveComparator.h
+++ b/moeo/src/comparator/moeoOneObjectiveComparator.h
@@ -54,7 +54,7 @@ class moeoOneObjectiveComparator : public moeoComparator < MOEOT >
      */
     moeoOneObjectiveComparator(unsigned int _obj) : obj(_obj)
     {
-      if (obj > MOEOT::ObjectiveVector::nObjectives())
+      if (obj >= MOEOT::ObjectiveVector::nObjectives())
         {
           throw eoException("Problem with the index of objective in moeoOneObjectiveComparator");
         }
-- 
2.43.0


From 7687b5ee12b8f67554fb1b86af9f5540451775cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 009/126] fix: keep a reference to the caller's normalizer in
 the Euclidean distance

---
 moeo/src/distance/moeoEuclideanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoEuclideanDistance.h b/moeo/src/distance/moeoEuclideanDistance.h
index 5c43c75..4406e2f 100644
--- a/moeo/src/distance/moeoEuclideanDistance.h
+++ b/moeo/src/distance/moeoEuclideanDistance.h
@@ -61,7 +61,7 @@ class moeoEuclideanDistance : public moeoObjSpaceDistance < MOEOT >
       ctr with a normalizer
       @param _normalizer the normalizer used for every ObjectiveVector
       */
-    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> _normalizer):normalizer(_normalizer)
+    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> & _normalizer):normalizer(_normalizer)
 	  {}
     /**
       default ctr
-- 
2.43.0


From efae62f5b73a5e4dd6faf72f10bca9cae56d19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 010/126] fix: give the Manhattan distance the return type of
 its base class

---
 moeo/src/distance/moeoManhattanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoManhattanDistance.h b/moeo/src/distance/moeoManhattanDistance.h
index 37d70c8..ac818e6 100644
--- a/moeo/src/distance/moeoManhattanDistance.h
+++ b/moeo/src/distance/moeoManhattanDistance.h
@@ -74,7 +74,7 @@ class moeoManhattanDistance : public moeoObjSpaceDistance < MOEOT >
      * @param _obj1 the first objective vector
      * @param _obj2 the second objective vector
      */
-    double operator()(const ObjectiveVector & _obj1, const ObjectiveVector & _obj2)
+    const Fitness operator()(const ObjectiveVector & _obj1, const ObjectiveVector & _obj2)
     {
       double result = 0.0;
       double tmp1, tmp2;
-- 
2.43.0


From 08c2fd9b2d6ded52c790184e27ec7f3f8f8dcd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 011/126] fix: avoid a null range when normalizing the
 hypervolume

---
 moeo/src/metric/moeoHyperVolumeMetric.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/moeo/src/metric/moeoHyperVolumeMetric.h b/moeo/src/metric/moeoHyperVolumeMetric.h
index ce1ee0c..a757cf4 100644
--- a/moeo/src/metric/moeoHyperVolumeMetric.h
+++ b/moeo/src/metric/moeoHyperVolumeMetric.h
@@ -162,6 +162,12 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 	                min = std::min(min, _set[j][i]);
 	                max = std::max(max, _set[j][i]);
 	            }
+	            // a null range cannot be used for normalizing
+	            if (normalize && (min == max))
+	            {
+	                min -= tiny();
+	                max += tiny();
+	            }
 	            bounds[i] = eoRealInterval(min, max);
 	        }
     	}
@@ -342,6 +348,12 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 
   private:
 
+	    /** a small value used when a range is null */
+	    static double tiny()
+	    {
+	        return 1e-6;
+	    }
+
 	    /*boolean indicates if data must be normalized or not*/
 	    bool normalize;
 
-- 
2.43.0


From 93f18499a55beb640d79528cea3533d1724265cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 012/126] fix: avoid a null range when normalizing the epsilon
 indicator

---
 moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
index 570d3e5..8c05aee 100644
--- a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
+++ b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
@@ -123,6 +123,12 @@ public:
                 min = std::min(min, _set2[j][i]);
                 max = std::max(max, _set2[j][i]);
             }
+            // a null range cannot be used for normalizing
+            if (min == max)
+            {
+                min -= tiny();
+                max += tiny();
+            }
             bounds[i] = eoRealInterval(min, max);
         }
     }
@@ -130,6 +136,12 @@ public:
 
 protected:
 
+    /** a small value used when a range is null */
+    static double tiny()
+    {
+        return 1e-6;
+    }
+
     /*vectors contains bounds for normalization*/
     std::vector < eoRealInterval > bounds;
 
-- 
2.43.0


From bd3738db6a88c53b0215fc1d04fb7e4333ae13be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 013/126] fix: forget the best individuals of the previous
 population

---
 moeo/src/utils/moeoBestObjVecStat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moeo/src/utils/moeoBestObjVecStat.h b/moeo/src/utils/moeoBestObjVecStat.h
index 604ca90..f77adec 100644
--- a/moeo/src/utils/moeoBestObjVecStat.h
+++ b/moeo/src/utils/moeoBestObjVecStat.h
@@ -65,7 +65,7 @@ public:
 	*/
 	const MOEOT & bestindividuals(unsigned int which) {
 		typedef typename moeoObjVecStat<MOEOT>::Traits traits;
-		if(which > traits::nObjectives() ) throw eoException("which is larger than the number of objectives");
+		if(which >= traits::nObjectives() ) throw eoException("which is larger than the number of objectives");
 		return *(best_individuals[which]);
 	}
 
@@ -97,6 +97,7 @@ private :
       typedef typename moeoObjVecStat<MOEOT>::Traits traits;
 
       value().resize(traits::nObjectives());
+      best_individuals.clear();
 
       for (unsigned o = 0; o < traits::nObjectives(); ++o)
       {
-- 
2.43.0


From 492f89dde83d57f5e5ffe000113ce000368e5d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:30 +0000
Subject: [PATCH 014/126] fix: shuffle populations and initial permutations
 with the EO generator

---
 eo/src/eoInit.h |  6 +++---
 eo/src/eoPop.h  | 13 +++++--------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/eo/src/eoInit.h b/eo/src/eoInit.h
index 5230b29..7e30234 100644
--- a/eo/src/eoInit.h
+++ b/eo/src/eoInit.h
@@ -198,9 +198,9 @@ class eoInitPermutation: public eoInit<EOT> // FIXME inherit from eoInitWithDim
                 chrom[idx] = idx+startFrom;
             }
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
-            std::shuffle(chrom.begin(), chrom.end(), gen);
+            // use the EO generator, so that runs depend on its seed only
+            for (size_t i = chrom.size(); i > 1; --i)
+                std::swap(chrom[i-1], chrom[eo::rng.random(i)]);
             chrom.invalidate();
         }
 
diff --git a/eo/src/eoPop.h b/eo/src/eoPop.h
index fe91102..29c0500 100644
--- a/eo/src/eoPop.h
+++ b/eo/src/eoPop.h
@@ -183,10 +183,9 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
         */
         void shuffle(void)
         {
-            std::random_device rd;
-            std::mt19937 gen(rd());
-            //UF_random_generator<unsigned int> gen; // FIXME refactor
-            std::shuffle(begin(), end(), gen);
+            // use the EO generator, so that runs depend on its seed only
+            for (size_t i = size(); i > 1; --i)
+                std::iter_swap(begin() + (i-1), begin() + eo::rng.random(i));
         }
 
 
@@ -197,10 +196,8 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
 
             std::transform(begin(), end(), result.begin(), Ref());
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
-            //UF_random_generator<unsigned int> gen; // FIXME refactor
-            std::shuffle(result.begin(), result.end(), gen);
+            for (size_t i = size(); i > 1; --i)
+                std::iter_swap(result.begin() + (i-1), result.begin() + eo::rng.random(i));
         }
 
 
-- 
2.43.0


From e3c504b21bdef11eb39243285aa936e584beeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:30 +0000
Subject: [PATCH 015/126] fix: draw the number of bits of eoBucketBitMutation
 with the EO generator

---
 eo/src/ga/eoStandardBitMutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/ga/eoStandardBitMutation.h b/eo/src/ga/eoStandardBitMutation.h
index 32ece13..77d31ce 100644
--- a/eo/src/ga/eoStandardBitMutation.h
+++ b/eo/src/ga/eoStandardBitMutation.h
@@ -301,7 +301,7 @@ class eoBucketBitMutation : public eoMonOp<EOT>
 
             int nbBits;
             if (gapBit > 0) {
-                nbBits = rand() % gapBit + startBit;
+                nbBits = eo::rng.random(gapBit) + startBit;
             } else {
                 nbBits = endBit;
             }
-- 
2.43.0


From 137c9ecb1ded6d3896842a345e416b773513db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:30 +0000
Subject: [PATCH 016/126] fix: shuffle the order of moRndVectorVNSelection with
 the EO generator

---
 mo/src/neighborhood/moRndVectorVNSelection.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 86a9d00..a318963 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -86,14 +86,9 @@ public:
       for(unsigned int i = 0; i < LSvector.size(); i++) {
           order.push_back(i); }
 
-#if __cplusplus >= 201103L
-    std::random_device rd;
-    std::mt19937 gen(rd());
-    std::shuffle(order.begin(), order.end(), gen);
-#else
-    UF_random_generator<unsigned int> gen(order.size());
-    std::random_shuffle(order.begin(), order.end(), gen);
-#endif
+    // use the EO generator, so that runs depend on its seed only
+    for(unsigned int i = order.size(); i > 1; i--)
+      std::swap(order[i-1], order[eo::rng.random(i)]);
 
     currentOrder = 0;
     current = order[currentOrder];
-- 
2.43.0


From d9afa54bd07181d26045442547f28f87d23f0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:30 +0000
Subject: [PATCH 017/126] fix: draw archive and unvisited selections with the
 EO generator, accept an empty archive

---
 moeo/src/selection/moeoDetArchiveSelect.h      | 11 +++++------
 moeo/src/selection/moeoNumberUnvisitedSelect.h |  6 +++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/moeo/src/selection/moeoDetArchiveSelect.h b/moeo/src/selection/moeoDetArchiveSelect.h
index c3f94d0..65e6123 100644
--- a/moeo/src/selection/moeoDetArchiveSelect.h
+++ b/moeo/src/selection/moeoDetArchiveSelect.h
@@ -42,6 +42,7 @@
 #define MOEODETARCHIVESELECT_H
 
 #include <eoSelect.h>
+#include <utils/eoRNG.h>
 #include <cassert>
 
 template<class MOEOT>
@@ -74,15 +75,13 @@ class moeoDetArchiveSelect : public eoSelect<MOEOT>
 					std::vector <int> permutation;
 					for(unsigned int i=0; i < archive_size; i++)
 						permutation.push_back(i);
-					// UF_random_generator<unsigned int> rndGen(permutation.size());
-					// random_shuffle(permutation.begin(), permutation.end(), rndGen);
-					std::random_device rd;
-					std::mt19937 gen(rd());
-					std::shuffle(permutation.begin(), permutation.end(), gen);
+					// use the EO generator, so that runs depend on its seed only
+					for (unsigned int i=archive_size; i>1; i--)
+						std::swap(permutation[i-1], permutation[eo::rng.random(i)]);
 					for (unsigned int i=0; i<max; i++)
 						_dest.push_back(archive[permutation[i]]);
 				}
-				else {
+				else if (archive_size > 0) {
 					for (unsigned int i=0; i<min; i++){
 						_dest.push_back(archive[i%archive_size]);
 					}
diff --git a/moeo/src/selection/moeoNumberUnvisitedSelect.h b/moeo/src/selection/moeoNumberUnvisitedSelect.h
index 5a23843..52a81dd 100644
--- a/moeo/src/selection/moeoNumberUnvisitedSelect.h
+++ b/moeo/src/selection/moeoNumberUnvisitedSelect.h
@@ -74,9 +74,9 @@ public:
                 res.push_back(i);
         }
         if(number < res.size()){
-            std::random_device rd;
-            std::mt19937 gen(rd());
-            std::shuffle(res.begin(), res.end(), gen);
+            // use the EO generator, so that runs depend on its seed only
+            for (unsigned int i=res.size(); i>1; i--)
+                std::swap(res[i-1], res[eo::rng.random(i)]);
             res.resize(number);
         }
         return res;
-- 
2.43.0


From 752ab58b18bce3f27b7f31058f283c7904d463fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:30 +0000
Subject: [PATCH 018/126] fix: spin the roulette of moeoRouletteSelect over the
 sum of fitness

---
 moeo/src/selection/moeoRouletteSelect.h | 8 +++++++-
 moeo/src/selection/moeoSelectors.h      | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/moeo/src/selection/moeoRouletteSelect.h b/moeo/src/selection/moeoRouletteSelect.h
index 3a293b1..b82c68f 100644
--- a/moeo/src/selection/moeoRouletteSelect.h
+++ b/moeo/src/selection/moeoRouletteSelect.h
@@ -72,8 +72,14 @@ class moeoRouletteSelect:public moeoSelectOne < MOEOT >
      */
     const MOEOT & operator  () (const eoPop < MOEOT > & _pop)
     {
+      // the wheel is as large as the sum of all fitness values
+      double total = 0.0;
+      for (unsigned int i=0; i<_pop.size(); i++)
+        {
+          total += static_cast<double>(_pop[i].fitness());
+        }
       // use the selector
-      return mo_roulette_wheel(_pop,tSize);
+      return mo_roulette_wheel(_pop,total);
     }
 
 
diff --git a/moeo/src/selection/moeoSelectors.h b/moeo/src/selection/moeoSelectors.h
index 1b61eaf..238f7d7 100644
--- a/moeo/src/selection/moeoSelectors.h
+++ b/moeo/src/selection/moeoSelectors.h
@@ -142,7 +142,7 @@ const MOEOT& mo_roulette_wheel(const eoPop<MOEOT>& _pop, double total, eoRng& _g
 
   typename eoPop<MOEOT>::const_iterator i = _pop.begin();
 
-  while (roulette > 0.0)
+  while (roulette > 0.0 && i != _pop.end())
     {
       roulette -= static_cast<double>((i++)->fitness());
     }
@@ -161,7 +161,7 @@ MOEOT& mo_roulette_wheel(eoPop<MOEOT>& _pop, double total, eoRng& _gen = rng)
 
   typename eoPop<MOEOT>::iterator i = _pop.begin();
 
-  while (roulette > 0.0)
+  while (roulette > 0.0 && i != _pop.end())
     {
       // fitness only
       roulette -= static_cast<double>((i++)->fitness());
-- 
2.43.0


From 9df48d5fc015cc941af6d5ff411306c4758d4065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:49 +0000
Subject: [PATCH 019/126] fix: apply the transform given to moeoSEEA

---
 moeo/src/algo/moeoSEEA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/algo/moeoSEEA.h b/moeo/src/algo/moeoSEEA.h
index 055fc80..c8da679 100644
--- a/moeo/src/algo/moeoSEEA.h
+++ b/moeo/src/algo/moeoSEEA.h
@@ -137,7 +137,7 @@ public:
         while (continuator (_pop))
         {
             // generate offspring, worths are recalculated if necessary
-            genBreed (_pop, offspring);
+            breed (_pop, offspring);
 
             popEval (_pop, offspring); // eval of offspring
             // after replace, the new pop is in _pop
-- 
2.43.0


From 02077a1a90c29882588cad6b8c54e5eb31d742cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:59 +0000
Subject: [PATCH 020/126] fix: throw the errors of bit and real crossovers

---
 eo/src/es/eoRealOp.h |  4 ++--
 eo/src/ga/eoBitOp.h  | 16 ++++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index 8c95741..e1110c5 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -473,7 +473,7 @@ template<class EOT> class eoRealUXover: public eoQuadOp<EOT>
   eoRealUXover(const float& _preference = 0.5): preference(_preference)
     {
       if ( (_preference <= 0.0) || (_preference >= 1.0) )
-        std::runtime_error("UxOver --> invalid preference");
+        throw std::runtime_error("UxOver --> invalid preference");
     }
 
   /// The class name.
@@ -488,7 +488,7 @@ template<class EOT> class eoRealUXover: public eoQuadOp<EOT>
   bool operator()(EOT& _eo1, EOT& _eo2)
     {
       if ( _eo1.size() != _eo2.size())
-            std::runtime_error("UxOver --> chromosomes sizes don't match" );
+            throw std::runtime_error("UxOver --> chromosomes sizes don't match" );
       bool changed = false;
       for (unsigned int i=0; i<_eo1.size(); i++)
         {
diff --git a/eo/src/ga/eoBitOp.h b/eo/src/ga/eoBitOp.h
index 50e2320..ad12a69 100644
--- a/eo/src/ga/eoBitOp.h
+++ b/eo/src/ga/eoBitOp.h
@@ -131,7 +131,7 @@ class eoDetSingleBitFlip: public eoMonOp<Chrom>
 
       // Shuffle indices
       for(unsigned i=0; i<indices.size(); ++i) {
-          unsigned other = eo::rng.random(indices.size());
+          unsigned other = eo::rng.random(i+1);
           std::swap(indices[i], indices[other]);
       }
 
@@ -341,7 +341,7 @@ template<class Chrom> class eoUBitXover: public eoQuadOp<Chrom>
   eoUBitXover(const double& _preference = 0.5): preference(_preference)
     {
       if ( (_preference <= 0.0) || (_preference >= 1.0) )
-        std::runtime_error("UxOver --> invalid preference");
+        throw std::runtime_error("UxOver --> invalid preference");
     }
   /// The class name.
   virtual std::string className() const { return "eoUBitXover"; }
@@ -355,7 +355,7 @@ template<class Chrom> class eoUBitXover: public eoQuadOp<Chrom>
   bool operator()(Chrom& chrom1, Chrom& chrom2)
     {
       if ( chrom1.size() != chrom2.size())
-            std::runtime_error("UxOver --> chromosomes sizes don't match" );
+            throw std::runtime_error("UxOver --> chromosomes sizes don't match" );
       bool changed = false;
       for (unsigned int i=0; i<chrom1.size(); i++)
         {
@@ -387,7 +387,7 @@ public:
     eoNPtsBitXover(const unsigned& _num_points = 2) : num_points(_num_points)
         {
             if (num_points < 1)
-                std::runtime_error("NxOver --> invalid number of points");
+                throw std::runtime_error("NxOver --> invalid number of points");
         }
 
     /** The class name */
@@ -400,6 +400,8 @@ public:
     */
     bool operator()(Chrom& chrom1, Chrom& chrom2) {
         unsigned max_size(std::min(chrom1.size(), chrom2.size()));
+        if (max_size < 2) // nowhere to cut
+            return false;
         unsigned max_points(std::min(max_size - 1, num_points));
         std::vector<bool> points(max_size, false);
 
@@ -451,9 +453,9 @@ template<class Chrom> class eoBitGxOver: public eoQuadOp<Chrom>
     gene_size(_gene_size), num_points(_num_points)
     {
       if (gene_size < 1)
-        std::runtime_error("GxOver --> invalid gene size");
+        throw std::runtime_error("GxOver --> invalid gene size");
       if (num_points < 1)
-        std::runtime_error("GxOver --> invalid number of points");
+        throw std::runtime_error("GxOver --> invalid number of points");
     }
 
   /// The class name
@@ -468,6 +470,8 @@ template<class Chrom> class eoBitGxOver: public eoQuadOp<Chrom>
     {
       unsigned max_genes = std::min(chrom1.size(), chrom2.size()) / gene_size;
       unsigned cut_genes = std::min(max_genes, num_points);
+      if (cut_genes == 0) // no complete gene to exchange
+        return false;
 
       std::vector<bool> points(max_genes, false);
 
-- 
2.43.0


From 524383dc523836f702849e5fb486bd5c9fa41810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:00 +0000
Subject: [PATCH 021/126] fix: default rate of bit mutations follows each
 chromosome

---
 eo/src/ga/eoStandardBitMutation.h | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/eo/src/ga/eoStandardBitMutation.h b/eo/src/ga/eoStandardBitMutation.h
index 77d31ce..4b4db34 100644
--- a/eo/src/ga/eoStandardBitMutation.h
+++ b/eo/src/ga/eoStandardBitMutation.h
@@ -29,10 +29,8 @@ class eoStandardBitMutation : public eoMonOp<EOT>
         virtual bool operator()(EOT& chrom)
         {
             assert(chrom.size()>0);
-            if(_rate == 0) {
-                _rate = (double) 1/chrom.size();
-            }
-            _nb = eo::rng.binomial(chrom.size(),_rate);
+            double rate = (_rate == 0) ? (double) 1/chrom.size() : _rate;
+            _nb = eo::rng.binomial(chrom.size(),rate);
             _bitflip.number_bits(_nb);
             return _bitflip(chrom);
         }
@@ -97,12 +95,10 @@ class eoConditionalBitMutation : public eoStandardBitMutation<EOT>
         virtual bool operator()(EOT& chrom)
         {
             assert(chrom.size()>0);
-            if(this->_rate == 0) {
-                this->_rate = (double) 1/chrom.size();
-            }
+            double rate = (this->_rate == 0) ? (double) 1/chrom.size() : this->_rate;
             this->_nb = 0;
             while(this->_nb < 1) {
-                this->_nb = eo::rng.binomial(chrom.size(),this->_rate);
+                this->_nb = eo::rng.binomial(chrom.size(),rate);
             }
             this->_bitflip.number_bits(this->_nb);
             return this->_bitflip(chrom);
@@ -133,10 +129,8 @@ class eoShiftedBitMutation : public eoStandardBitMutation<EOT>
         virtual bool operator()(EOT& chrom)
         {
             assert(chrom.size()>0);
-            if(this->_rate == 0) {
-                this->_rate = (double) 1/chrom.size();
-            }
-            this->_nb = eo::rng.binomial(chrom.size(),this->_rate);
+            double rate = (this->_rate == 0) ? (double) 1/chrom.size() : this->_rate;
+            this->_nb = eo::rng.binomial(chrom.size(),rate);
             if(this->_nb == 0) {
                 this->_nb = 1;
             }
@@ -177,13 +171,9 @@ class eoNormalBitMutation : public eoMonOp<EOT>
         virtual bool operator()(EOT& chrom)
         {
             assert(chrom.size() > 0);
-            if(_mean == 0) {
-                _mean = (double) 1/chrom.size();
-            }
-            if(_variance == 0) {
-                _variance = std::log(chrom.size());
-            }
-            _nb = eo::rng.normal(_mean, _variance);
+            double mean = (_mean == 0) ? (double) 1/chrom.size() : _mean;
+            double variance = (_variance == 0) ? std::log(chrom.size()) : _variance;
+            _nb = eo::rng.normal(mean, variance);
             if(_nb >= chrom.size()) {
                 _nb = eo::rng.random(chrom.size());
             }
-- 
2.43.0


From fa725c04c4691fa8957825f2aef00fc36d61d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:23 +0000
Subject: [PATCH 022/126] fix: variable length uniform crossovers start each
 trial afresh

---
 eo/src/eoVariableLengthCrossover.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/eo/src/eoVariableLengthCrossover.h b/eo/src/eoVariableLengthCrossover.h
index c61f916..1c90253 100644
--- a/eo/src/eoVariableLengthCrossover.h
+++ b/eo/src/eoVariableLengthCrossover.h
@@ -236,6 +236,8 @@ public :
     EOT tmp1, tmp2;
     unsigned index=0;
     do {
+      tmp1.clear();
+      tmp2.clear();
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
@@ -296,15 +298,16 @@ public :
   {
     unsigned i;
     EOT tmp1;
-    bool tmpIsOne=true, tmpIsTwo=true;
+    bool tmpIsOne;
     unsigned index=0;
     do {
+      tmp1.clear();
+      tmpIsOne = true;
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
             {
               tmp1.push_back(_eo1[i]);
-              tmpIsTwo = false;
             }
           else
             tmpIsOne=false;
@@ -317,8 +320,6 @@ public :
               tmp1.push_back(_eo2[i]);
               tmpIsOne = false;
             }
-          else
-            tmpIsTwo = false;
         }
       index++;
     } while ( ( (tmp1.size()<Min) || (tmp1.size()>Max) )
@@ -331,11 +332,6 @@ public :
       }
 
     _eo1.swap(tmp1);
-    if (tmpIsTwo)
-      {
-        //	_eo1.fitness(_eo2.fitness());     NO FITNESS EXISTS HERE!
-        return false;
-      }
     if (tmpIsOne)                  // already has the right fitness
       {                            // WRONG: NO FITNESS EXISTS HERE!
         return false;
-- 
2.43.0


From bce724cafd6940534bd2a4e136c54b0eb64f325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:31 +0000
Subject: [PATCH 023/126] fix: bounded uniform and normal mutations scale by
 the range once

---
 eo/src/es/eoNormalMutation.h | 6 +++---
 eo/src/es/eoRealOp.h         | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/eo/src/es/eoNormalMutation.h b/eo/src/es/eoNormalMutation.h
index 266b101..ca9ba87 100644
--- a/eo/src/es/eoNormalMutation.h
+++ b/eo/src/es/eoNormalMutation.h
@@ -58,7 +58,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
    * @param _p_change the probability to change a given coordinate
    */
   eoNormalVecMutation(double _sigma, const double& _p_change = 1.0):
-    sigma(_sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
+    sigma(1, _sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
 
   /**
    * Constructor with bounds
@@ -75,7 +75,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          sigma[i] *= _sigma*bounds.range(i);
+          sigma[i] *= bounds.range(i);
   }
 
   /** The class name */
@@ -92,7 +92,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
         {
           if (rng.flip(p_change))
             {
-              _eo[lieu] += sigma[lieu]*rng.normal();
+              _eo[lieu] += sigma[sigma.size() > 1 ? lieu : 0]*rng.normal();
               bounds.foldsInBounds(lieu, _eo[lieu]);
               hasChanged = true;
             }
diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index e1110c5..3b64638 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -73,7 +73,7 @@ template<class EOT> class eoUniformMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          epsilon[i] *= _epsilon*bounds.range(i);
+          epsilon[i] *= bounds.range(i);
   }
 
   /**
@@ -173,7 +173,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          epsilon[i] *= _epsilon*bounds.range(i);
+          epsilon[i] *= bounds.range(i);
   }
 
   /**
@@ -190,7 +190,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          epsilon[i] *= _epsilon[i]*bounds.range(i);
+          epsilon[i] *= bounds.range(i);
   }
 
   /// The class name.
@@ -207,7 +207,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
           {
             unsigned lieu = rng.random(_eo.size());
             // actually, we should test that we don't re-modify same variable!
-            _eo[lieu] = 2*epsilon[0]*rng.uniform()-epsilon[0];
+            _eo[lieu] += 2*epsilon[0]*rng.uniform()-epsilon[0];
           }
       else
         {
-- 
2.43.0


From 29b22dce232fd9f9171f74f264d2f3cec8ec0a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:31 +0000
Subject: [PATCH 024/126] fix: bounds keep inside values, survive copies and
 use the given generator

---
 eo/src/utils/eoIntBounds.h        | 10 +++++++---
 eo/src/utils/eoRealBounds.cpp     | 10 ++++++++--
 eo/src/utils/eoRealBounds.h       | 10 +++++++---
 eo/src/utils/eoRealVectorBounds.h |  4 +---
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index 73b1854..c430c49 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -285,6 +285,9 @@ public :
     long iloc;
     double dlargloc = 2 * range() ;
 
+    if (isInBounds(_r))
+      return;
+
     if (fabs(_r) > 1.0E9)		// iloc too large!
       {
         _r = uniform();
@@ -688,12 +691,12 @@ public:
   /** random generator of uniform doubles in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** random generator of uniform ints in bounds
    * std::exception if unbounded
    */
-  virtual long int random(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->random();}
+  virtual long int random(eoRng & _rng = eo::rng)  const {return repBound->random(_rng);}
 
   /** for memory managements - ugly */
   virtual eoIntBounds * dup() const  {return repBound->dup();}
@@ -714,9 +717,10 @@ public:
   {
     std::string s;
     _is >> s;
+    eoIntBounds * newBound = getBoundsFromString(s); // may throw
     if (repBound)
       delete repBound;
-    repBound = getBoundsFromString(s);
+    repBound = newBound;
   }
 
 private:
diff --git a/eo/src/utils/eoRealBounds.cpp b/eo/src/utils/eoRealBounds.cpp
index c80c655..0b60271 100644
--- a/eo/src/utils/eoRealBounds.cpp
+++ b/eo/src/utils/eoRealBounds.cpp
@@ -55,8 +55,14 @@ eoRealVectorBounds::eoRealVectorBounds(const eoRealVectorBounds & _b):
   ownedBounds = _b.ownedBounds;
   // duplicate all pointers!
   if (ownedBounds.size()>0)
-    for (unsigned i=0; i<ownedBounds.size(); i++)
-      ownedBounds[i] = ownedBounds[i]->dup();
+    {
+      clear();
+      for (unsigned i=0; i<ownedBounds.size(); i++)
+        {
+          ownedBounds[i] = ownedBounds[i]->dup();
+          insert(end(), factor[i], ownedBounds[i]);
+        }
+    }
 }
 
 
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index c760318..7ed5601 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -271,7 +271,10 @@ public :
     long iloc;
     double dlargloc = 2 * range() ;
 
-    if (fabs(_r) > 1.0E9)		// iloc too large!
+    if (isInBounds(_r))
+      return;
+
+    if (fabs(_r) > 1.0E9 || dlargloc == 0)		// iloc too large!
       {
         _r = uniform();
         return;
@@ -657,7 +660,7 @@ public:
   /** random generator of uniform numbers in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** for memory managements - ugly */
   virtual eoRealBounds * dup() const  {return repBound->dup();}
@@ -678,9 +681,10 @@ public:
   {
     std::string s;
     _is >> s;
+    eoRealBounds * newBound = getBoundsFromString(s); // may throw
     if (repBound)
       delete repBound;
-    repBound = getBoundsFromString(s);
+    repBound = newBound;
   }
 
 private:
diff --git a/eo/src/utils/eoRealVectorBounds.h b/eo/src/utils/eoRealVectorBounds.h
index d877853..e7e14b5 100644
--- a/eo/src/utils/eoRealVectorBounds.h
+++ b/eo/src/utils/eoRealVectorBounds.h
@@ -187,9 +187,7 @@ public:
    */
   virtual double uniform(unsigned _i, eoRng & _rng = eo::rng)
   {
-    (void)_rng;
-
-    double r= (*this)[_i]->uniform();
+    double r= (*this)[_i]->uniform(_rng);
     return r;
   }
 
-- 
2.43.0


From 07e591d44a1b6f898103fc7becefe1051c130a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:19 +0000
Subject: [PATCH 025/126] fix: correlated ES mutation rotates all pairs of
 variables

---
 eo/src/es/eoEsMutate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/eoEsMutate.h b/eo/src/es/eoEsMutate.h
index 1b2bd55..578c1aa 100644
--- a/eo/src/es/eoEsMutate.h
+++ b/eo/src/es/eoEsMutate.h
@@ -187,7 +187,7 @@ public:
             for (i = 0; i < _eo.size(); i++)
                 VarStp[i] = _eo.stdevs[i] * rng.normal();
             unsigned nq = _eo.correlations.size() - 1;
-            for (k = 0; k < _eo.size()-1; k++)
+            for (k = 0; k < _eo.size(); k++)
             {
                 n1 = _eo.size() - k - 1;
                 n2 = _eo.size() - 1;
-- 
2.43.0


From 8ed2ae74316c736399eadec6393e103b7efcc673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:05 +0000
Subject: [PATCH 026/126] fix: eoHowMany keeps its value when negated and
 accepts new rates and counts

---
 eo/src/utils/eoHowMany.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/eo/src/utils/eoHowMany.h b/eo/src/utils/eoHowMany.h
index 7804398..83109a0 100644
--- a/eo/src/utils/eoHowMany.h
+++ b/eo/src/utils/eoHowMany.h
@@ -165,25 +165,28 @@ public:
     else
       count = int(rate);           // and rate will not be used
 
-    // minimal check
-    if ( rate < 0.0 )
+    // minimal check (negative counts are allowed)
+    if ( interpret_as_rate && rate < 0.0 )
       throw eoException("Negative rate read in eoHowMany::readFrom");
   }
 
   /** The unary - operator: reverses the computation */
   eoHowMany operator-()
   {
+    eoHowMany result(*this);
     if (!count)                   // only rate is used
-      rate = 1.0-rate;
+      result.rate = 1.0-rate;
     else
-      count = -count;
-    return (*this);
+      result.count = -count;
+    return result;
   }
 
   void value(double _rate, bool _interpret_as_rate)
   {
     if (_interpret_as_rate)
       {
+        rate = _rate;
+        count = 0;
         if (_rate<0)
           {
             rate = 1.0+_rate;
-- 
2.43.0


From 1f9c4ae25dd8ab98267a17e237bb4913aedf3d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:05 +0000
Subject: [PATCH 027/126] fix: eoEliteSelect returns the best individual

---
 eo/src/eoSequentialSelect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSequentialSelect.h b/eo/src/eoSequentialSelect.h
index 002aca7..310382c 100644
--- a/eo/src/eoSequentialSelect.h
+++ b/eo/src/eoSequentialSelect.h
@@ -104,7 +104,7 @@ class eoEliteSelect: public eoSequentialSelect<EOT>
         virtual const EOT& operator()(const eoPop<EOT>& pop)
         {
             this->setup(pop);
-            return pop[0]; // the best one
+            return eoSequentialSelect<EOT>::operator()(pop); // the best one
         }
 };
 
-- 
2.43.0


From 7b5333d900373de782000a6c7b563aecf067b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:05 +0000
Subject: [PATCH 028/126] fix: universal sampling of a population without worth

---
 eo/src/eoStochasticUniversalSelect.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eo/src/eoStochasticUniversalSelect.h b/eo/src/eoStochasticUniversalSelect.h
index e6ddfe7..0c8702e 100644
--- a/eo/src/eoStochasticUniversalSelect.h
+++ b/eo/src/eoStochasticUniversalSelect.h
@@ -70,6 +70,11 @@ public:
 
       unsigned i = std::upper_bound(cumulative.begin(), cumulative.end(), fortune) - cumulative.begin();
 
+      if (cumulative.back() == 0) { // no worth at all: everyone is selected once
+          for (unsigned k = 0; k < _pop.size(); ++k)
+              indices.push_back(k);
+      }
+
       while (indices.size() < _pop.size()) {
 
           while (cumulative[i] < fortune) {i++;} // linear search is good enough as we average one step each time
-- 
2.43.0


From ffbd15e1162099d7e7821bfa3f0674cb2903380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:05 +0000
Subject: [PATCH 029/126] fix: inverse tournament over a single individual ends

---
 eo/src/utils/selectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/selectors.h b/eo/src/utils/selectors.h
index fda0633..634a5d7 100644
--- a/eo/src/utils/selectors.h
+++ b/eo/src/utils/selectors.h
@@ -309,7 +309,7 @@ It inverse_deterministic_tournament(It _begin, It _end, unsigned _t_size, eoRng&
     {
         It competitor = _begin + _gen.random(_end - _begin);
 
-        if (competitor == worst)
+        if (competitor == worst && _end - _begin > 1)
         {
             --i;
             continue; // try again
-- 
2.43.0


From 13feb4b765c6f02b085f9faee7e870c66a3f7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:05 +0000
Subject: [PATCH 030/126] fix: tournaments on worths compile in debug mode

---
 eo/src/eoSelectFromWorth.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoSelectFromWorth.h b/eo/src/eoSelectFromWorth.h
index bbd0380..fc1c9d9 100644
--- a/eo/src/eoSelectFromWorth.h
+++ b/eo/src/eoSelectFromWorth.h
@@ -114,7 +114,7 @@ public:
         unsigned index = it - perf2Worth.value().begin();
 #ifndef NDEBUG
         // check whether the stuff is still in sync
-        check_sync(index, pop[index]);
+        this->check_sync(index, pop[index]);
 #endif
         return pop[index];
     }
@@ -156,7 +156,7 @@ public:
 
 #ifndef NDEBUG
   // check whether the stuff is still in sync
-  check_sync(index, _pop[index]);
+  this->check_sync(index, _pop[index]);
 #endif
 
     return _pop[index];
-- 
2.43.0


From 69b09ca0577a35e49ae4cfd1ea43cfe3c403d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:05 +0000
Subject: [PATCH 031/126] fix: linear scaling of equal fitnesses

---
 eo/src/eoLinearFitScaling.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eo/src/eoLinearFitScaling.h b/eo/src/eoLinearFitScaling.h
index 269518f..c126356 100644
--- a/eo/src/eoLinearFitScaling.h
+++ b/eo/src/eoLinearFitScaling.h
@@ -77,6 +77,10 @@ public:
 
         // the coefficients for linear scaling
         double denom = pSize*(bestFitness - averageFitness);
+        if (denom == 0) { // all equal: no scaling possible
+            value().assign(pSize, 1.0/pSize);
+            return;
+        }
         double alpha = (pressure-1)/denom;
         double beta = (bestFitness - pressure*averageFitness)/denom;
 
-- 
2.43.0


From ca9b5f3d2236794513721e6d1557b73dcc9b1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:05 +0000
Subject: [PATCH 032/126] fix: eoElitism keeps only the elite

---
 eo/src/eoMerge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoMerge.h b/eo/src/eoMerge.h
index 1564f39..1696727 100644
--- a/eo/src/eoMerge.h
+++ b/eo/src/eoMerge.h
@@ -96,7 +96,7 @@ public :
     std::vector<const EOT*> result;
     _pop.nth_element(combienLocal, result);
 
-    for (size_t i = 0; i < result.size(); ++i)
+    for (size_t i = 0; i < combienLocal; ++i)
       {
         _offspring.push_back(*result[i]);
       }
-- 
2.43.0


From cf979eed865618ffac5956e2098842d52232c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:06 +0000
Subject: [PATCH 033/126] fix: weak elitism saves every better elite

---
 eo/src/eoReduceMergeReduce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoReduceMergeReduce.h b/eo/src/eoReduceMergeReduce.h
index d12a2b6..f61b9b1 100644
--- a/eo/src/eoReduceMergeReduce.h
+++ b/eo/src/eoReduceMergeReduce.h
@@ -118,9 +118,9 @@ public:
             {
               unsigned toSave = 0;
               _parents.sort();
+              temp.sort();
               EOT & eoLimit = _parents[elite-1];
-              unsigned index=0;
-              while ( (temp[index++] > eoLimit) && (index < temp.size()) )
+              while ( (toSave < temp.size()) && (temp[toSave] > eoLimit) )
                 toSave++;
               if (toSave)
                 for (unsigned i=0; i<toSave; i++)
-- 
2.43.0


From f73292934058734e5f86e6d2c7e24cb755979176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:06 +0000
Subject: [PATCH 034/126] fix: splits refuse to eliminate more than the
 population

---
 eo/src/eoReduceSplit.h | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index b310087..be06057 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -64,9 +64,9 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoTruncateSplit: Cannot truncate to a larger size!\n");
+    unsigned newsize = popSize - eliminated;
 
     _newgen.nth_element(newsize);
 
@@ -141,9 +141,9 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoRandomSplit: Cannot truncate to a larger size!\n");
+    unsigned newsize = popSize - eliminated;
 
     _newgen.shuffle();
 
@@ -180,14 +180,13 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoLinearRandomSplit: Cannot truncate to a larger size!\n");
 
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
     for (unsigned i=0; i<eliminated; i++)
       {
-        unsigned loser=random(_newgen.size());
+        unsigned loser=eo::rng.random(_newgen.size());
         typename eoPop<EOT>::iterator it = _newgen.begin()+loser;
         if (returnEliminated)
           _eliminated.push_back(*it);
@@ -232,8 +231,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
 
@@ -257,7 +255,7 @@ private:
 To be used in SSGA-like replacements (e.g. see eoSSGAStochTournamentReplacement)
 */
 template <class EOT>
-class eoStochTournamentTruncateSplit : public eoReduce<EOT>
+class eoStochTournamentTruncateSplit : public eoReduceSplit<EOT>
 {
 public:
   /** Ctor: must provide amount of reduction,
@@ -299,14 +297,13 @@ end of old version    */
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
 
 
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
-    for (unsigned i=0; i<_eliminated.size(); i++)
+    for (unsigned i=0; i<eliminated; i++)
       {
         typename eoPop<EOT>::iterator it = inverse_stochastic_tournament(_newgen.begin(), _newgen.end(), t_rate);
         if (returnEliminated)
-- 
2.43.0


From dfbdbafeb60a57d381082e54645a4aaff8af87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:06 +0000
Subject: [PATCH 035/126] fix: reserve room for each operator of an
 eoSequentialOp

---
 eo/src/eoOpContainer.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoOpContainer.h b/eo/src/eoOpContainer.h
index 0636bd0..d012ddc 100644
--- a/eo/src/eoOpContainer.h
+++ b/eo/src/eoOpContainer.h
@@ -112,9 +112,8 @@ public:
                     //            {
                     // apply it to all the guys in the todo std::list
 
-                    //(*ops[i])(_pop);
-
-                    ops[i]->apply(_pop);
+                    // not ops[i]->apply(): room must be reserved for what this operator adds
+                    (*ops[i])(_pop);
 
                     //            }
                     // check for out of individuals and do nothing with that...
-- 
2.43.0


From 9ee360187f5be52d6f7d021e13bf225b3d20fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:06 +0000
Subject: [PATCH 036/126] fix: do not skip individuals after an
 eoProportionalOp inside an eoSequentialOp

---
 eo/src/eoOpContainer.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eo/src/eoOpContainer.h b/eo/src/eoOpContainer.h
index d012ddc..cd4782c 100644
--- a/eo/src/eoOpContainer.h
+++ b/eo/src/eoOpContainer.h
@@ -162,7 +162,6 @@ public:
       {
           // std::clog << "\t" << ops[i]->className() << std::endl;
         (*ops[i])(_pop);
-        ++_pop;
       }
       catch( typename eoPopulator<EOT>::OutOfIndividuals&)
       {}
-- 
2.43.0


From 335e2228063a1b6d29b8be5c3259caef6830eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:19 +0000
Subject: [PATCH 037/126] fix: let callers catch the end of an eoSeqPopulator

---
 eo/src/eoPopulator.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eo/src/eoPopulator.h b/eo/src/eoPopulator.h
index 9c8d28a..06ff2e8 100644
--- a/eo/src/eoPopulator.h
+++ b/eo/src/eoPopulator.h
@@ -167,7 +167,7 @@ public:
     /** the select method simply returns next individual in the src pop */
     const EOT& select(void) {
         if(current >= eoPopulator< EOT >::src.size()) {
-            throw OutOfIndividuals();
+            throw typename eoPopulator< EOT >::OutOfIndividuals();
         }
 
         const EOT& res = src[current++];
@@ -177,8 +177,6 @@ public:
 
 private:
 
-    struct OutOfIndividuals {};
-
     unsigned current;
 };
 
-- 
2.43.0


From 813a8175b18b13412021e859a81835edc6b900a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:18 +0000
Subject: [PATCH 038/126] fix: include <map> in eoStParseTreeOp.h

---
 eo/src/gp/eoStParseTreeOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/gp/eoStParseTreeOp.h b/eo/src/gp/eoStParseTreeOp.h
index d5b520b..64a9fdf 100644
--- a/eo/src/gp/eoStParseTreeOp.h
+++ b/eo/src/gp/eoStParseTreeOp.h
@@ -30,7 +30,7 @@
 
 #include "../EO.h"
 #include "../eoOp.h"
-#include <map.h>
+#include <map>
 #include <iostream>
 #include <set>
 
-- 
2.43.0


From 39b955a1a0ee423a2c06fceb36e1c2ed5fad8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:45 +0000
Subject: [PATCH 039/126] fix: Store the wrapped continuator of
 eoInvertedContinue under the name it is used with

---
 eo/src/eoInvertedContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoInvertedContinue.h b/eo/src/eoInvertedContinue.h
index 9b723a5..9d1ff05 100644
--- a/eo/src/eoInvertedContinue.h
+++ b/eo/src/eoInvertedContinue.h
@@ -55,7 +55,7 @@ public:
   virtual std::string className(void) const { return "eoInvertedContinue"; }
   
 private:
-  eoContinue<EOT> &eval;
+  eoContinue<EOT> &cont;
 
 };
 
-- 
2.43.0


From 7a1e7f50fd86e5bfb65b5dce51796c29303d3ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:12 +0000
Subject: [PATCH 040/126] fix: Let eoSteadyFitContinue start from its first
 call when given a past generation

---
 eo/src/eoSteadyFitContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSteadyFitContinue.h b/eo/src/eoSteadyFitContinue.h
index 0b63c5e..d8fc820 100644
--- a/eo/src/eoSteadyFitContinue.h
+++ b/eo/src/eoSteadyFitContinue.h
@@ -53,7 +53,7 @@ public:
   eoSteadyFitContinue( unsigned long _minGens, unsigned long _steadyGen,
                  unsigned long& _currentGen)
     : eoCountContinue<EOT>( _currentGen ), repMinGenerations( _minGens ), repSteadyGenerations( _steadyGen),
-      steadyState(_currentGen>_minGens)
+      steadyState(false)
     {};
 
   /** Returns false when a certain number of generations is
-- 
2.43.0


From 01ae19f48a558a415dcb1ea503d1acdaa30539bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:12 +0000
Subject: [PATCH 041/126] fix: Count the evaluations of the time-limited
 evaluators

---
 eo/src/eoEvalTimeThrowException.h     | 2 +-
 eo/src/eoEvalUserTimeThrowException.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoEvalTimeThrowException.h b/eo/src/eoEvalTimeThrowException.h
index 5b72de6..f2c6589 100644
--- a/eo/src/eoEvalTimeThrowException.h
+++ b/eo/src/eoEvalTimeThrowException.h
@@ -47,7 +47,7 @@ public:
             if( elapsed >= _max ) {
                 throw eoMaxTimeException(elapsed);
             } else {
-                func(eo);
+                eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
diff --git a/eo/src/eoEvalUserTimeThrowException.h b/eo/src/eoEvalUserTimeThrowException.h
index a117484..609a15e 100644
--- a/eo/src/eoEvalUserTimeThrowException.h
+++ b/eo/src/eoEvalUserTimeThrowException.h
@@ -61,7 +61,7 @@ public:
             if( current >= _max ) {
                 throw eoMaxTimeException( current );
             } else {
-                this->func(eo);
+                eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
-- 
2.43.0


From 31cd38fd0907afb12ce6b021e49cad033d7e4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:12 +0000
Subject: [PATCH 042/126] fix: Take eoFastGA's default number of offspring from
 the population of each run

---
 eo/src/eoFastGA.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/eo/src/eoFastGA.h b/eo/src/eoFastGA.h
index 91300d4..aac0b44 100644
--- a/eo/src/eoFastGA.h
+++ b/eo/src/eoFastGA.h
@@ -86,15 +86,16 @@ public:
 #endif
         // Set lambda to the pop size
         // if it was not set up at construction.
-        if(_offsprings_size == 0) {
+        double offsprings_size = _offsprings_size;
+        if(offsprings_size == 0) {
             // eo::log << eo::debug << "Set offspring size to: " << pop.size() << std::endl;
-            _offsprings_size = pop.size();
+            offsprings_size = pop.size();
         }
 
         do {
             eoPop<EOT> offsprings;
 
-            for(size_t i=0; i < _offsprings_size; ++i) {
+            for(size_t i=0; i < offsprings_size; ++i) {
                 // eo::log << eo::xdebug << "\tOffspring #" << i << std::endl;
 
                 if(eo::rng.flip(_rate_crossover)) {
@@ -148,7 +149,7 @@ public:
                     offsprings.push_back(sol3);
                 }
             }
-            assert(offsprings.size() == _offsprings_size);
+            assert(offsprings.size() == offsprings_size);
 
             _pop_eval(pop, offsprings);
             _replace(pop, offsprings);
-- 
2.43.0


From 962912c6f43d6bb8aea5e35342a5fb326742eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:12 +0000
Subject: [PATCH 043/126] fix: Build an instance in
 eoForgeOperator::instantiate_ptr and honour its cache

---
 eo/src/eoForge.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 3940715..9473379 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -139,7 +139,7 @@ class eoForgeOperator : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr(bool no_cache = true) override
         {
-            if(no_cache or _instantiated == nullptr) {
+            if(no_cache or _instantiated_ptr == nullptr) {
                 // if(_instantiated) {
                     // delete _instantiated;
                 // }
@@ -202,8 +202,8 @@ class eoForgeOperator<Itf,Op> : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr( bool no_cache = true ) override
         {
-            if(no_cache or _instantiated == nullptr) {
-                _instantiated_ptr = std::shared_ptr<Op>();
+            if(no_cache or _instantiated_ptr == nullptr) {
+                _instantiated_ptr = std::make_shared<Op>();
             }
             return _instantiated_ptr;
         }
-- 
2.43.0


From ea2b7f063889825ef755025ff1c4f3a8156dcbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:12 +0000
Subject: [PATCH 044/126] fix: Replace the stored forge in eoForgeMap::setup

---
 eo/src/eoForge.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 9473379..3983b77 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -479,7 +479,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
             delete this->at(name); // Silent on nullptr.
             auto pfo = new eoForgeOperator<Itf,Op,std::decay_t<Args>...>(
                     std::forward<Args>(args)...);
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         /** Specialization for empty constructors.
@@ -489,7 +489,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
         {
             delete this->at(name);
             auto pfo = new eoForgeOperator<Itf,Op>;
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         virtual ~eoForgeMap()
-- 
2.43.0


From ee7b3717903f820f8da2c2d34b19d4d0f58e80fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:17 +0000
Subject: [PATCH 045/126] fix: Name the argument type of eoUF for
 eoUnaryFunctorCounter

---
 eo/src/eoFunctor.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eo/src/eoFunctor.h b/eo/src/eoFunctor.h
index 7a81252..b92b164 100644
--- a/eo/src/eoFunctor.h
+++ b/eo/src/eoFunctor.h
@@ -126,6 +126,9 @@ public :
     /// virtual dtor here so there is no need to define it in derived classes
     virtual ~eoUF() {}
 
+    /// the type of the argument, as used by eoUnaryFunctorCounter
+    typedef A1 first_argument_type;
+
     /// The pure virtual function that needs to be implemented by the subclass
     virtual R operator()(A1) = 0;
 
-- 
2.43.0


From 5bb32c062f033d92241d0ef7521f0a11870f6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:43 +0000
Subject: [PATCH 046/126] fix: Refuse the element just past the population in
 eoNthElementFitnessStat

---
 eo/src/utils/eoStat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoStat.h b/eo/src/utils/eoStat.h
index 9803f66..54d9516 100644
--- a/eo/src/utils/eoStat.h
+++ b/eo/src/utils/eoStat.h
@@ -250,7 +250,7 @@ public :
 
     virtual void operator()(const std::vector<const EOT*>& _pop)
     {
-        if (whichElement > _pop.size())
+        if (whichElement >= _pop.size())
             throw eoException("fitness requested of element outside of pop");
 
         doit(_pop, Fitness());
-- 
2.43.0


From d169947fb4b7132d181324cdb2996a11bbbea51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:43 +0000
Subject: [PATCH 047/126] fix: Write every monitored vector in eoFileSnapshot

---
 eo/src/utils/eoFileSnapshot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoFileSnapshot.h b/eo/src/utils/eoFileSnapshot.h
index 3c70958..1c4b1e5 100644
--- a/eo/src/utils/eoFileSnapshot.h
+++ b/eo/src/utils/eoFileSnapshot.h
@@ -148,7 +148,7 @@ public :
         vv[0]=v;
         for (unsigned i=1; i<vec.size(); i++)
           {
-            ptParam = static_cast<const eoValueParam<std::vector<double> >* >(vec[1]);
+            ptParam = static_cast<const eoValueParam<std::vector<double> >* >(vec[i]);
             vv[i] = ptParam->value();
             if (vv[i].size() != v.size())
               throw eoException("Dimension error in eoSnapshotMonitor");
-- 
2.43.0


From 6463a46599a08fea3e4c8b7b49b90a371ab993eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:43 +0000
Subject: [PATCH 048/126] fix: Stop at the end of the population in eoPopStat
 and eoSortedPopStat

---
 eo/src/utils/eoPopStat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoPopStat.h b/eo/src/utils/eoPopStat.h
index 8102af0..e9b0a43 100644
--- a/eo/src/utils/eoPopStat.h
+++ b/eo/src/utils/eoPopStat.h
@@ -71,7 +71,7 @@ void operator()(const eoPop<EOT>& _pop)
 {
   value() = "\n# ====== pop dump =====\n";
   unsigned howmany=combien?combien:_pop.size();
-  for (unsigned i = 0; i < howmany; ++i)
+  for (unsigned i = 0; i < howmany && i < _pop.size(); ++i)
   {
       std::ostringstream os;
       os << _pop[i] << std::endl;
@@ -121,7 +121,7 @@ public:
         {
     value() = "";                  // empty
     unsigned howMany=combien?combien:_pop.size();
-    for (unsigned i = 0; i < howMany; ++i)
+    for (unsigned i = 0; i < howMany && i < _pop.size(); ++i)
       {
         std::ostringstream os;
         os << *_pop[i] << std::endl;
-- 
2.43.0


From c90349b636ee88f5ca5051f44970f2750e5d6702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:55 +0000
Subject: [PATCH 049/126] fix: Recognise the sections of a saved eoState when
 loading it

---
 eo/src/utils/eoState.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoState.cpp b/eo/src/utils/eoState.cpp
index 6a46dc6..d7245ce 100644
--- a/eo/src/utils/eoState.cpp
+++ b/eo/src/utils/eoState.cpp
@@ -36,7 +36,14 @@ bool eoState::is_section(const std::string& str, std::string& name)
         return false;
     //else
 
-    std::string::size_type end = str.find(_tag_section_sc);
+    pos += _tag_section_so.size();
+
+    // lines are read without their newline, which may end the closing tag
+    std::string closing = _tag_section_sc;
+    if (! closing.empty() && closing[closing.size()-1] == '\n')
+        closing.erase(closing.size()-1);
+
+    std::string::size_type end = str.find(closing, pos);
 
     if (end == std::string::npos)
         return false;
@@ -44,7 +51,7 @@ bool eoState::is_section(const std::string& str, std::string& name)
 
     // affect name, passed by reference
     // Note: substr( start, count )
-    name = str.substr( pos + _tag_section_so.size(), end - _tag_section_so.size() );
+    name = str.substr( pos, end - pos );
 
     return true;
 }
-- 
2.43.0


From 8a1a9bfe959638c1104b79f3b38fd880d6c188cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:55 +0000
Subject: [PATCH 050/126] fix: Save the pending normal deviate of eoRng with
 all its digits

---
 eo/src/utils/eoRNG.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index e91c6af..c6c6c34 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -125,9 +125,10 @@ public :
     @see reseed for details on usage of the seeding value.
     */
     eoRng(uint32_t s)
-        : state(0), next(0), left(-1), cached(false)
+        : state(0), next(0), left(-1), cached(false), cacheValue(0.0)
         {
             state = new uint32_t[N+1];
+            next = state;
             initialize(2*s);
         }
 
@@ -362,7 +363,10 @@ public :
                 _os << state[i] << ' ';
             }
             _os << int(next - state) << ' ';
+            // enough digits to read back the very same value
+            const std::streamsize precision = _os.precision(17);
             _os << left << ' ' << cached << ' ' << cacheValue;
+            _os.precision(precision);
         }
 
     /** @brief Read RNG
-- 
2.43.0


From 8982ea13eb1c3a98f2fd55858b848aecae4898a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:21 +0000
Subject: [PATCH 051/126] fix: Read fitness values made of several words in
 EO::readFrom

---
 eo/src/EO.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/eo/src/EO.h b/eo/src/EO.h
index 09bb2d2..7ad6477 100644
--- a/eo/src/EO.h
+++ b/eo/src/EO.h
@@ -129,18 +129,19 @@ public:
    */
   virtual void readFrom(std::istream& _is)
   {
-        std::string fitness_str;
-        _is >> fitness_str;
+        _is >> std::ws;
 
-        if (fitness_str == invalidTag)
+        if (_is.peek() == invalidTag[0])
         {
+                std::string fitness_str;
+                _is >> fitness_str;
                 invalidFitness = true;
         }
         else
         {
+                // some fitness types are printed as several words
                 invalidFitness = false;
-                std::istringstream iss(fitness_str);
-                iss >> repFitness;
+                _is >> repFitness;
         }
   }
 
-- 
2.43.0


From 165400804f5576f34b995d247d21df3ec65c3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:21 +0000
Subject: [PATCH 052/126] fix: Read back empty bit strings

---
 eo/src/ga/eoBit.h             | 3 ++-
 moeo/src/core/moeoBitVector.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eo/src/ga/eoBit.h b/eo/src/ga/eoBit.h
index 320a5b7..955472a 100644
--- a/eo/src/ga/eoBit.h
+++ b/eo/src/ga/eoBit.h
@@ -109,7 +109,8 @@ public:
       unsigned s;
       is >> s;
       std::string bits;
-      is >> bits;
+      if (s > 0)
+        is >> bits;
       if (is)
         {
           resize(bits.size());
diff --git a/moeo/src/core/moeoBitVector.h b/moeo/src/core/moeoBitVector.h
index ff41832..41ac0d0 100644
--- a/moeo/src/core/moeoBitVector.h
+++ b/moeo/src/core/moeoBitVector.h
@@ -95,7 +95,8 @@ class moeoBitVector : public moeoVector < MOEOObjectiveVector, bool, MOEOFitness
       unsigned int s;
       _is >> s;
       std::string bits;
-      _is >> bits;
+      if (s > 0)
+        _is >> bits;
       if (_is)
         {
           resize(bits.size());
-- 
2.43.0


From 949bdafa45b3b0d0eb7793c99583227baa50a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:21 +0000
Subject: [PATCH 053/126] fix: Make room for the described term in
 eoScalarFitnessAssembledTraits

---
 eo/src/eoScalarFitnessAssembled.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoScalarFitnessAssembled.h b/eo/src/eoScalarFitnessAssembled.h
index 50e9038..db472d7 100644
--- a/eo/src/eoScalarFitnessAssembled.h
+++ b/eo/src/eoScalarFitnessAssembled.h
@@ -54,7 +54,7 @@ public:
     if ( _idx < TermDescriptions.size() )
       TermDescriptions[_idx] = _descr;
     else{
-      TermDescriptions.resize(_idx, "Unnamed variable" );
+      TermDescriptions.resize(_idx+1, "Unnamed variable" );
       TermDescriptions[_idx] = _descr;
     }
   }
-- 
2.43.0


From f454ed15cf40c7524657cfc3c42a4b7a249ab9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:42 +0000
Subject: [PATCH 054/126] fix: Keep the first digit of each number read by
 eoValueParam<std::vector<double> >

---
 eo/src/utils/eoParam.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index 969ea00..52bef0a 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -352,7 +352,9 @@ inline void eoValueParam<std::vector<double> >::setValue(const std::string& _val
         char c;
         do {
             is >> c;
-        } while((std::string::npos != delimiter.find(c)) && (! is.eof()));
+        } while(is && (std::string::npos != delimiter.find(c)));
+        if (is)
+            is.putback(c); // first character of the number
         is >> repValue[i];
     }
 }
-- 
2.43.0


From 9861c3820bc33c308c81e12d947c47624cc2c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:42 +0000
Subject: [PATCH 055/126] fix: Cut the arguments of eoParamParamType at their
 own end

---
 eo/src/utils/eoParam.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index 52bef0a..614fbd3 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -488,9 +488,11 @@ public:
             while ( (pos=t.find_first_not_of(delim)) < t.size())
             {
                 size_t posEnd = t.find_first_of(delim, pos);
-                std::string u = t.substr(pos,posEnd);//(t, pos);
+                std::string u = t.substr(pos,posEnd-pos);//(t, pos);
                 /*u.resize(posEnd - pos);*/
                 second.push_back(u);
+                if (posEnd == std::string::npos) // no closing parenthesis
+                    break;
                 t = t.substr(posEnd+1);
             }
         }
-- 
2.43.0


From 66e7c0d9fe724342847f83f256cbe18149443fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:51 +0000
Subject: [PATCH 056/126] fix: Draw the uniform deviate of eoRng::powerlaw in
 [0,1)

---
 eo/src/utils/eoRNG.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index c6c6c34..8dc0263 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -235,7 +235,7 @@ public :
      */
     double powerlaw(double min, double max, double gamma)
        {
-            double x = uniform(min,max);
+            double x = uniform();
             return std::pow(
                      x * (std::pow(max,-gamma+1) - std::pow(min,-gamma+1))
                        + std::pow(min,-gamma+1.0),
-- 
2.43.0


From ac7db1355bf7d8588f7d3556c02550f79ae51793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:25 +0000
Subject: [PATCH 057/126] fix: Leave the operand unchanged in scalar arithmetic
 on eoDualFitness

---
 eo/src/eoDualFitness.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eo/src/eoDualFitness.h b/eo/src/eoDualFitness.h
index 7fdf402..30267f0 100644
--- a/eo/src/eoDualFitness.h
+++ b/eo/src/eoDualFitness.h
@@ -288,8 +288,8 @@ public:
     template<class T>
     eoDualFitness<BaseT,Cmp> operator+( T that )
     {
-        this->_value += that;
-        return *this;
+        eoDualFitness<BaseT,Cmp> from( *this );
+        return from += that;
     }
 
     // Add this fitness's value to that other, and return a _new_ instance with the result.
@@ -302,8 +302,8 @@ public:
     template<class T>
     eoDualFitness<BaseT,Cmp> operator-( T that )
     {
-        this->_value -= that;
-        return *this;
+        eoDualFitness<BaseT,Cmp> from( *this );
+        return from -= that;
     }
 
     // Add this fitness's value to that other, and return a _new_ instance with the result.
@@ -317,8 +317,8 @@ public:
     template<class T>
     eoDualFitness<BaseT,Cmp> operator/( T that )
     {
-        this->_value /= that;
-        return *this;
+        eoDualFitness<BaseT,Cmp> from( *this );
+        return from /= that;
     }
 
     // Add this fitness's value to that other, and return a _new_ instance with the result.
-- 
2.43.0


From 24ee70c6d023d8c4369f39dde1a095c3c6ad97b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:25 +0000
Subject: [PATCH 058/126] fix: Recognise every eoMinimizingFitnessT as a
 minimising fitness

---
 eo/src/utils/selectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/selectors.h b/eo/src/utils/selectors.h
index 634a5d7..82fa4f5 100644
--- a/eo/src/utils/selectors.h
+++ b/eo/src/utils/selectors.h
@@ -116,7 +116,7 @@ bool minimizing_fitness_eo()
 {
     if constexpr (std::is_same<
                       typename EOT::Fitness,
-                      eoMinimizingFitness/*<typename EOT::Fitness::ScalarType>*/
+                      eoMinimizingFitnessT<typename EOT::Fitness::ScalarType>
                   >::value) {
         return true;
     } else {
-- 
2.43.0


From f77e8f771c495e42090ba8b5c38b59c42ad123de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:05 +0000
Subject: [PATCH 059/126] fix: Compare eoDualFitness for difference with their
 feasibility

---
 eo/src/eoDualFitness.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eo/src/eoDualFitness.h b/eo/src/eoDualFitness.h
index 30267f0..30c8ff2 100644
--- a/eo/src/eoDualFitness.h
+++ b/eo/src/eoDualFitness.h
@@ -206,6 +206,9 @@ public:
     //! Equal: if the other is equal to me
     bool operator==(const eoDualFitness& other) const { return ( this->is_feasible() == other.is_feasible() ) && ( _value == other._value ); }
 
+    //! Different: if the other is not equal to me
+    bool operator!=(const eoDualFitness& other) const { return !(*this == other); }
+
 public:
 
     /* FIXME it would be better to raise errors (or warnings) if one try to apply arithmetics operators between feasible
-- 
2.43.0


From 966c768a0ac3de9d4557c0fb147e94f40931f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:53 +0000
Subject: [PATCH 060/126] fix: Update the bests of the neighbourhoods in
 eoRingTopology

---
 eo/src/eoRingTopology.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/eo/src/eoRingTopology.h b/eo/src/eoRingTopology.h
index a5526fe..142b7e5 100644
--- a/eo/src/eoRingTopology.h
+++ b/eo/src/eoRingTopology.h
@@ -117,12 +117,11 @@ public:
             for(unsigned i=0;i<_po.size();i++)
                         _po.bestPositions[i]=_po[i];
         }
-        // update the global best if the given particle is "better"
-        for (unsigned i=-neighborhoodSize+1; i < neighborhoodSize; i++)
+        // update the best of each neighborhood of the given particle if it is "better"
+        for (unsigned i=0; i < neighborhoods.size(); i++)
                 {
-                        unsigned indi = (_po.size()+_indice+i)%_po.size();
-                        if (_po.fitness() > neighborhoods[indi].best().fitness())
-                                neighborhoods[indi].best(_po);
+                        if (neighborhoods[i].contains(_indice) && _po.fitness() > neighborhoods[i].best().fitness())
+                                neighborhoods[i].best(_po);
                 }
      }
 
-- 
2.43.0


From 71442ed915cb267ebbe6777d5db967a129086e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:53 +0000
Subject: [PATCH 061/126] fix: Let the star topology and three velocities be
 instantiated

---
 eo/src/eoConstrictedVariableWeightVelocity.h | 8 ++++++++
 eo/src/eoFixedInertiaWeightedVelocity.h      | 8 ++++++++
 eo/src/eoStarTopology.h                      | 2 +-
 eo/src/eoVariableInertiaWeightedVelocity.h   | 8 ++++++++
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index cff14bc..a21a138 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -185,6 +185,14 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
+    /**
+     * Get the topology used by this velocity
+     */
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
+
 
 
 protected:
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index 996845c..cdd1e67 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -171,6 +171,14 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
+    /**
+     * Get the topology used by this velocity
+     */
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
+
 
 
 protected:
diff --git a/eo/src/eoStarTopology.h b/eo/src/eoStarTopology.h
index 6083dbb..73b9699 100644
--- a/eo/src/eoStarTopology.h
+++ b/eo/src/eoStarTopology.h
@@ -114,7 +114,7 @@ public:
          * Return the global best of the topology
          */
 
-    virtual POT & globalBest(const eoPop<POT>&)
+    virtual POT & globalBest()
     {
         return neighborhood.best();
     }
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index 33bbe4f..60f5acd 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -177,6 +177,14 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
+    /**
+     * Get the topology used by this velocity
+     */
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
+
 
 
 protected:
-- 
2.43.0


From 5b051cbf0a9ea58c734d67b1613140aae94ef5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:02 +0000
Subject: [PATCH 062/126] fix: Apply the bound modifier in the standard,
 extended and integer velocities

---
 eo/src/eoExtendedVelocity.h | 3 +++
 eo/src/eoIntegerVelocity.h  | 3 +++
 eo/src/eoStandardVelocity.h | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/eo/src/eoExtendedVelocity.h b/eo/src/eoExtendedVelocity.h
index bcbd51c..82172d5 100644
--- a/eo/src/eoExtendedVelocity.h
+++ b/eo/src/eoExtendedVelocity.h
@@ -165,6 +165,9 @@ public:
                                         + r2 * (topology.best (_indice)[j] - _po[j])
                                         + r3 * (topology.globalBest()[j] - _po[j]);
 
+            /* modify the bounds */
+            bndsModifier(bounds,j);
+
             /* check bounds */
             if (bounds.isMinBounded(j))
                 newVelocity=std::max(newVelocity,bounds.minimum(j));
diff --git a/eo/src/eoIntegerVelocity.h b/eo/src/eoIntegerVelocity.h
index 2ff8108..522b7f4 100644
--- a/eo/src/eoIntegerVelocity.h
+++ b/eo/src/eoIntegerVelocity.h
@@ -150,6 +150,9 @@ public:
         {
             newVelocity= round (c1 *  _po.velocities[j] + r2 * (_po.bestPositions[j] - _po[j]) +  r3 * (topology.best (_indice)[j] - _po[j]));
 
+            /* modify the bounds */
+            bndsModifier(bounds,j);
+
             /* check bounds */
             if (bounds.isMinBounded(j))
                 newVelocity=std::max(newVelocity,bounds.minimum(j));
diff --git a/eo/src/eoStandardVelocity.h b/eo/src/eoStandardVelocity.h
index 3f67eec..c95a41b 100644
--- a/eo/src/eoStandardVelocity.h
+++ b/eo/src/eoStandardVelocity.h
@@ -150,6 +150,9 @@ public:
         {
             newVelocity= omega *  _po.velocities[j] + r1 * (_po.bestPositions[j] - _po[j]) +  r2 * (topology.best (_indice)[j] - _po[j]);
 
+            /* modify the bounds */
+            bndsModifier(bounds,j);
+
             /* check bounds */
             if (bounds.isMinBounded(j))
                 newVelocity=std::max(newVelocity,bounds.minimum(j));
-- 
2.43.0


From 96e9b42cc52f44607f66d60a799588b9ed11dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:02 +0000
Subject: [PATCH 063/126] fix: Draw the coefficients of particle velocities
 from the generator given

---
 eo/src/eoConstrictedVariableWeightVelocity.h | 4 ++--
 eo/src/eoConstrictedVelocity.h               | 4 ++--
 eo/src/eoExtendedVelocity.h                  | 6 +++---
 eo/src/eoFixedInertiaWeightedVelocity.h      | 4 ++--
 eo/src/eoIntegerVelocity.h                   | 4 ++--
 eo/src/eoStandardVelocity.h                  | 4 ++--
 eo/src/eoVariableInertiaWeightedVelocity.h   | 4 ++--
 7 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index a21a138..b79162c 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -150,8 +150,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 = (VelocityType) rng.uniform (1) * c1;
-        r2 = (VelocityType) rng.uniform (1) * c2;
+        r1 = (VelocityType) gen.uniform (1) * c1;
+        r2 = (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoConstrictedVelocity.h b/eo/src/eoConstrictedVelocity.h
index 2e13bc1..d4afc42 100644
--- a/eo/src/eoConstrictedVelocity.h
+++ b/eo/src/eoConstrictedVelocity.h
@@ -141,8 +141,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 = (VelocityType) rng.uniform (1) * c1;
-        r2 = (VelocityType) rng.uniform (1) * c2;
+        r1 = (VelocityType) gen.uniform (1) * c1;
+        r2 = (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoExtendedVelocity.h b/eo/src/eoExtendedVelocity.h
index 82172d5..a52aa97 100644
--- a/eo/src/eoExtendedVelocity.h
+++ b/eo/src/eoExtendedVelocity.h
@@ -150,9 +150,9 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 =  (VelocityType) rng.uniform (1) * c1;
-        r2 =  (VelocityType) rng.uniform (1) * c2;
-                r3 =  (VelocityType) rng.uniform (1) * c3;
+        r1 =  (VelocityType) gen.uniform (1) * c1;
+        r2 =  (VelocityType) gen.uniform (1) * c2;
+                r3 =  (VelocityType) gen.uniform (1) * c3;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index cdd1e67..0222141 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -139,8 +139,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 = (VelocityType) rng.uniform (1) * c1;
-        r2 = (VelocityType) rng.uniform (1) * c2;
+        r1 = (VelocityType) gen.uniform (1) * c1;
+        r2 = (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoIntegerVelocity.h b/eo/src/eoIntegerVelocity.h
index 522b7f4..1206f93 100644
--- a/eo/src/eoIntegerVelocity.h
+++ b/eo/src/eoIntegerVelocity.h
@@ -139,8 +139,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r2 =  (VelocityType) rng.uniform (1) * c2;
-        r3 =  (VelocityType) rng.uniform (1) * c3;
+        r2 =  (VelocityType) gen.uniform (1) * c2;
+        r3 =  (VelocityType) gen.uniform (1) * c3;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoStandardVelocity.h b/eo/src/eoStandardVelocity.h
index c95a41b..efa3e42 100644
--- a/eo/src/eoStandardVelocity.h
+++ b/eo/src/eoStandardVelocity.h
@@ -139,8 +139,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 =  (VelocityType) rng.uniform (1) * c1;
-        r2 =  (VelocityType) rng.uniform (1) * c2;
+        r1 =  (VelocityType) gen.uniform (1) * c1;
+        r2 =  (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index 60f5acd..5848687 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -142,8 +142,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 = (VelocityType) rng.uniform (1) * c1;
-        r2 = (VelocityType) rng.uniform (1) * c2;
+        r1 = (VelocityType) gen.uniform (1) * c1;
+        r2 = (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
-- 
2.43.0


From 5a6d5493d4147b6a05046cfcae26e8dfd658a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:11 +0000
Subject: [PATCH 064/126] fix: Refuse an unset best fitness of a particle
 rather than an unset fitness

---
 eo/src/PO.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/PO.h b/eo/src/PO.h
index 477f165..33414b3 100644
--- a/eo/src/PO.h
+++ b/eo/src/PO.h
@@ -53,7 +53,7 @@ public:
         Fitness must have a ctor which takes 0 as a value. Best fitness mush also have the same constructor.
     */
     PO ():repFitness (Fitness ()), invalidFitness (true),
-            bestFitness (Fitness()){}
+            bestFitness (Fitness()), invalidBestFitness (true){}
 
 
     /// Return fitness value.
@@ -79,7 +79,7 @@ public:
     */
     Fitness best () const
     {
-        if (invalid ())
+        if (invalidBest ())
             throw eoInvalidFitnessError("invalid best fitness in PO.h");
         return bestFitness;
     }
-- 
2.43.0


From 5d6e1bd4f52307c02c96a737f043116efd9298ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:39 +0000
Subject: [PATCH 065/126] fix: update the size and depth of a tree whose
 subtree is replaced by another of its own subtrees

---
 eo/src/gp/parse_tree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index 6b9ab80..b3b5ead 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -243,7 +243,9 @@ public :
             if (s.get_root() == get_root())
         { // from the same tree, maybe a child. Don't take any chances
             subtree anotherS = s;
-            return copy(anotherS);
+            copy(anotherS);
+            updateAfterInsert();
+            return *this;
         }
 
                 copy(s);
-- 
2.43.0


From 4d51811161f757d6a7e7f1a99734079a1a1ba217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:39 +0000
Subject: [PATCH 066/126] fix: let find_nodes and get_cumulative of a tree
 compile

---
 eo/src/gp/parse_tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index b3b5ead..3c803e1 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -662,7 +662,7 @@ private :
     template <class Pred>
     void find_nodes(std::vector<const subtree*>& result, Pred& p) const
     {
-        _root.find_nodes(p);
+        _root.find_nodes(result, p);
     }
 
         /* Customized Swap */
@@ -949,9 +949,9 @@ private :
     { return _root.get_node(i); }
 
     subtree& get_cumulative(size_t i)
-    { return const_cast<subtree&>(_root.get_cumulative(i)); }
+    { return const_cast<subtree&>(_root.select_cumulative(i)); }
     const subtree& get_cumulative(size_t i) const
-    { return get_cumulative(i); }
+    { return _root.select_cumulative(i); }
 
     private :
 
-- 
2.43.0


From 8403f967f5244a56b7952528e32850aa7e727161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:39 +0000
Subject: [PATCH 067/126] fix: invalidate the fitness of a tree that is
 initialised again

---
 eo/src/gp/eoParseTreeDepthInit.h   | 1 +
 eo/src/gp/eoStParseTreeDepthInit.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/eo/src/gp/eoParseTreeDepthInit.h b/eo/src/gp/eoParseTreeDepthInit.h
index 8eaa8c3..0289f48 100644
--- a/eo/src/gp/eoParseTreeDepthInit.h
+++ b/eo/src/gp/eoParseTreeDepthInit.h
@@ -104,6 +104,7 @@ class eoParseTreeDepthInit : public eoInit< eoParseTree<FType, Node> >
 
         parse_tree<Node> tmp(sequence.begin(), sequence.end());
         _tree.swap(tmp);
+        _tree.invalidate();
 
         if(ramped_half_and_half)
         {
diff --git a/eo/src/gp/eoStParseTreeDepthInit.h b/eo/src/gp/eoStParseTreeDepthInit.h
index 54764b1..9cdda94 100644
--- a/eo/src/gp/eoStParseTreeDepthInit.h
+++ b/eo/src/gp/eoStParseTreeDepthInit.h
@@ -138,6 +138,7 @@ class eoStParseTreeDepthInit : public eoInit< eoParseTree<FType, Node> >
 
                 parse_tree<Node> tmp(sequence.begin(), sequence.end());
                 _tree.swap(tmp);
+                _tree.invalidate();
         }
    private :
     bool generate(std::list<Node>& sequence, int the_max, int request_type)
-- 
2.43.0


From 44441c0983e6b0e87b8e663b170e4ea274378de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:39 +0000
Subject: [PATCH 068/126] fix: keep the types of the children in the strongly
 typed point mutation

---
 eo/src/gp/eoStParseTreeOp.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/eo/src/gp/eoStParseTreeOp.h b/eo/src/gp/eoStParseTreeOp.h
index 64a9fdf..bc5823f 100644
--- a/eo/src/gp/eoStParseTreeOp.h
+++ b/eo/src/gp/eoStParseTreeOp.h
@@ -240,10 +240,21 @@ public:
         int i = rng.random(_eo1.size());
         int arity = _eo1[i].arity();
         int type = _eo1[i]->type();
-        int j = rng.random(node[type][arity].size());
 
-
-        _eo1[i] = node[type][arity][j];
+        // only nodes which require the same types for their children can take its place
+        std::vector<Node> candidates;
+        for (unsigned k = 0; k < node[type][arity].size(); k++)
+        {
+                int child = 0;
+                while (child < arity && node[type][arity][k].type(child) == _eo1[i]->type(child))
+                        child++;
+                if (child == arity)
+                        candidates.push_back(node[type][arity][k]);
+        }
+        if (candidates.empty())
+                return false;
+
+        _eo1[i] = candidates[rng.random(candidates.size())];
         return true;
   }
 
-- 
2.43.0


From 5ffde692f9dcfab8704ceadf5f0787f8315f4479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:12 +0000
Subject: [PATCH 069/126] fix: evaluate only the bits flipped by the move in
 moOneMaxBitsIncrEval

---
 mo/src/problems/eval/moOneMaxBitsIncrEval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/eval/moOneMaxBitsIncrEval.h b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
index 5758d3c..f74509e 100644
--- a/mo/src/problems/eval/moOneMaxBitsIncrEval.h
+++ b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
@@ -50,7 +50,7 @@ public:
     virtual void operator()(EOT & _solution, Neighbor & _neighbor) {
       int delta = 0;
 
-      for(unsigned i = 0; i < _neighbor.bits.size(); i++) 	
+      for(unsigned i = 0; i < _neighbor.nBits; i++) 	
         if (_solution[_neighbor.bits[i]] == 0)
 	  delta++;
         else
-- 
2.43.0


From cc6cb6629af23a19660e875f0ab825af81db9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:26 +0000
Subject: [PATCH 070/126] fix: evaluate the modified clauses before and after
 the flip in moMaxSATincrEval

---
 mo/src/problems/eval/moMaxSATincrEval.h | 44 +++++++++++--------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/mo/src/problems/eval/moMaxSATincrEval.h b/mo/src/problems/eval/moMaxSATincrEval.h
index 69dfbdb..d281214 100644
--- a/mo/src/problems/eval/moMaxSATincrEval.h
+++ b/mo/src/problems/eval/moMaxSATincrEval.h
@@ -66,34 +66,30 @@ public :
         unsigned int size = modifiedClauses.size();
 
         int nc;
-        bool litt;
+        bool before, after;
 
         for (unsigned int k = 0; k < size; k++) {
-            // number of the clause
+            // number of the clause, where the sign tells whether the variable is negated
             nc = modifiedClauses[k];
-
-            // negative means that the not(variable) is in the clause
-            if (nc < 0) {
+            if (nc < 0)
                 nc = - nc;
-                litt = !_solution[bit];
-            } else
-                litt = _solution[bit];
-
-            if (litt) {
-                // the litteral was true and becomes false
-                _solution[bit] = !_solution[bit];
-
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was true and becomes false
-                    delta--;
-
-                _solution[bit] = !_solution[bit];
-            } else {
-                // the litteral was false and becomes true
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was false and becomes true
-                    delta++;
-            }
+
+            // a clause in which the variable appears several times is considered once
+            if (k > 0 && (modifiedClauses[k - 1] == nc || modifiedClauses[k - 1] == - nc))
+                continue;
+
+            before = fulleval.clauseEval(nc, _solution);
+
+            _solution[bit] = !_solution[bit];
+            after = fulleval.clauseEval(nc, _solution);
+            _solution[bit] = !_solution[bit];
+
+            if (before && !after)
+                // the clause was true and becomes false
+                delta--;
+            else if (!before && after)
+                // the clause was false and becomes true
+                delta++;
         }
 
         _neighbor.fitness(_solution.fitness() + delta);
-- 
2.43.0


From bb38ad941f8662e31bf2b0f9a6934ce8bcb44847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:26 +0000
Subject: [PATCH 071/126] fix: do not read beyond the solution in
 moRoyalRoadIncrEval

---
 mo/src/problems/eval/moRoyalRoadIncrEval.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo/src/problems/eval/moRoyalRoadIncrEval.h b/mo/src/problems/eval/moRoyalRoadIncrEval.h
index 3296ab2..a76eb1e 100644
--- a/mo/src/problems/eval/moRoyalRoadIncrEval.h
+++ b/mo/src/problems/eval/moRoyalRoadIncrEval.h
@@ -60,6 +60,11 @@ public:
         // complete block?
         unsigned int offset = n * k;
 
+        if (offset + k > _solution.size()) { // the last bits, which do not make a whole block, do not count
+            _neighbor.fitness(_solution.fitness());
+            return;
+        }
+
         unsigned int j = 0;
         while (j < k && _solution[offset + j]) j++;
 
-- 
2.43.0


From 2ac53e1fe3ca4959ac238769f364eb4c61b12af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:46 +0000
Subject: [PATCH 072/126] fix: invalidate the solution moved by moBitsNeighbor
 or moved back by moShiftNeighbor

---
 mo/src/problems/bitString/moBitsNeighbor.h    | 2 ++
 mo/src/problems/permutation/moShiftNeighbor.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mo/src/problems/bitString/moBitsNeighbor.h b/mo/src/problems/bitString/moBitsNeighbor.h
index e0f1363..45dddbe 100644
--- a/mo/src/problems/bitString/moBitsNeighbor.h
+++ b/mo/src/problems/bitString/moBitsNeighbor.h
@@ -104,6 +104,7 @@ public:
   virtual void move(EOT& _solution) {
     for(unsigned i = 0; i < nBits; i++)
       _solution[ this->bits[i] ] = !_solution[ this->bits[i] ];
+    _solution.invalidate();
   }
 
   /**
@@ -113,6 +114,7 @@ public:
   virtual void moveBack(EOT& _solution) {
     for(unsigned i = 0; i < nBits; i++)
       _solution[ this->bits[i] ] = !_solution[ this->bits[i] ];
+    _solution.invalidate();
   }
 
   /**
diff --git a/mo/src/problems/permutation/moShiftNeighbor.h b/mo/src/problems/permutation/moShiftNeighbor.h
index 13eba18..8dfc8c5 100644
--- a/mo/src/problems/permutation/moShiftNeighbor.h
+++ b/mo/src/problems/permutation/moShiftNeighbor.h
@@ -65,6 +65,7 @@ public:
       insertion(_solution, indices.second - 1, indices.first);
     else
       insertion(_solution, indices.second, indices.first + 1);
+    _solution.invalidate();
   }
 
   /**
-- 
2.43.0


From 2d8b8c33115766c3875662d4671fa33a46f99058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:46 +0000
Subject: [PATCH 073/126] fix: draw the distance of a random neighbor within
 bounds in moBitsWithReplNeighborhood

---
 mo/src/problems/bitString/moBitsWithReplNeighborhood.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
index 34d2a96..bb390ed 100644
--- a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
+++ b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
@@ -131,7 +131,7 @@ public:
       unsigned n = rng.random(neighborhoodSize);
 
       unsigned d = 1;
-      while (n < nSize[d - 1]) d++;
+      while (n >= nSize[d - 1]) d++;
 
       randomNeighbor(_solution, _neighbor, d);
     }
-- 
2.43.0


From 67b3fd78c3f56a8e831991da8be9a56dbdd011ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:46 +0000
Subject: [PATCH 074/126] fix: compute the number of neighbors without overflow
 in moBitsNeighborhood

---
 mo/src/problems/bitString/moBitsNeighborhood.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mo/src/problems/bitString/moBitsNeighborhood.h b/mo/src/problems/bitString/moBitsNeighborhood.h
index 2d4557f..4e8171a 100644
--- a/mo/src/problems/bitString/moBitsNeighborhood.h
+++ b/mo/src/problems/bitString/moBitsNeighborhood.h
@@ -80,17 +80,13 @@ public:
      * @param d Hamming distance
      */
     unsigned int numberOfNeighbors(unsigned d) {
-        unsigned int fact_nBits = 1;
-        
+        // each intermediate value is itself a number of combinations
+        unsigned long long number = 1;
+
         for(unsigned k = 1; k <= d; k++)
-            fact_nBits *= k;
-        
-        unsigned int fact_length = 1;
-        
-        for(unsigned k = length; k > length - d; k--)
-            fact_length *= k;
-        
-        return fact_length / fact_nBits;
+            number = number * (length - d + k) / k;
+
+        return (unsigned int) number;
     }
     
     /**
-- 
2.43.0


From 3f47a8af5a278d2200f1ca2a4bd00fd7cd577837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:46 +0000
Subject: [PATCH 075/126] fix: follow setNeighborhoodSize in
 moRndWithoutReplNeighborhood

---
 mo/src/neighborhood/moRndWithoutReplNeighborhood.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo/src/neighborhood/moRndWithoutReplNeighborhood.h b/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
index dfa057a..85cafed 100644
--- a/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
+++ b/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
@@ -80,6 +80,11 @@ public:
      */
     virtual void init(EOT & _solution, Neighbor & _neighbor) {
         unsigned int i, tmp;
+        if (indexVector.size() != neighborhoodSize) { // the size was changed since
+            indexVector.resize(neighborhoodSize);
+            for (unsigned int k=0; k < neighborhoodSize; k++)
+                indexVector[k] = k;
+        }
         maxIndex = neighborhoodSize ;
         i = rng.random(maxIndex);
         _neighbor.index(_solution, indexVector[i]);
-- 
2.43.0


From a423e6a96583e92edbaca5619eb4f4950c34ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:46 +0000
Subject: [PATCH 076/126] fix: tell that a partition without selected atom has
 no swap neighbor

---
 mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h b/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
index d51325b..d644c7c 100644
--- a/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
+++ b/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
@@ -133,10 +133,10 @@ class moBinaryPartitionSwapNeighborhood : public moNeighborhood<moBinaryPartitio
 
     /** Returns true if there is actual neighbors in the neighborhood.
      *
-     * Essentially just tells if the rejected set is not empty.
+     * Essentially just tells if neither the rejected set nor the selected one is empty.
      */
     virtual bool hasNeighbor(EOT& solution) override {
-        return solution.rejected.size() > 0;
+        return solution.rejected.size() > 0 and solution.selected.size() > 0;
     }
 
     //! Class name for state management.
-- 
2.43.0


From d7dd00ab79bfa423b926084c6ea56abc30e8585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:46 +0000
Subject: [PATCH 077/126] fix: let a swap neighbor of a partition be copied
 before it is evaluated

---
 mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h b/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
index 8f6bc60..1089ee9 100644
--- a/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
+++ b/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
@@ -71,7 +71,7 @@ class moBinaryPartitionSwapNeighbor :
                 , is_set(other.is_set)
             #endif
         {
-            this->fitness(other.fitness());
+            moNeighbor<EOT,Fitness>::operator=(other); // fitness, valid or not
         }
 
         /** Default assignment operator.
@@ -85,7 +85,7 @@ class moBinaryPartitionSwapNeighbor :
             #ifndef NDEBUG
                 this->is_set = other.is_set;
             #endif
-            this->fitness(other.fitness());
+            moNeighbor<EOT,Fitness>::operator=(other); // fitness, valid or not
             return *this;
         }
 
-- 
2.43.0


From cd8e24c56bd889c0527dd85bb4b2fcf926d47eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:46 +0000
Subject: [PATCH 078/126] fix: print the rejected atoms of a partition, as they
 are read

---
 mo/src/problems/partition/moBinaryPartition.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartition.h b/mo/src/problems/partition/moBinaryPartition.h
index 7feaef0..ba7957f 100644
--- a/mo/src/problems/partition/moBinaryPartition.h
+++ b/mo/src/problems/partition/moBinaryPartition.h
@@ -151,12 +151,10 @@ class moBinaryPartition : public EO<FitT>
         virtual void printOn(std::ostream& out) const override
         {
             this->printSelectedOn(out);
-            // Printing the rejected atom should not be necessary,
-            // as this is the complementary set of the selected.
-            // out << "   ";
-            // out << rejected.size() << "  "; // Size.
-            // std::copy(std::begin(rejected), std::end(rejected),
-            //     std::ostream_iterator<AtomType>(out, " ")); // Values.
+            out << "   ";
+            out << rejected.size() << "  "; // Size.
+            std::copy(std::begin(rejected), std::end(rejected),
+                std::ostream_iterator<AtomType>(out, " ")); // Values.
         }
 
         /** Deserialization of the `selected` and `rejected` atoms.
@@ -167,6 +165,8 @@ class moBinaryPartition : public EO<FitT>
         virtual void readFrom(std::istream& in) override
         {
             EO<FitT>::readFrom(in); // Fitness.
+            selected.clear();
+            rejected.clear();
             unsigned size;
             in >> size; // Size.
             for(size_t i = 0; i < size; ++i) {
-- 
2.43.0


From 1f1a3443a334fc0df99017b8595006814ca0d56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:36 +0000
Subject: [PATCH 079/126] fix: keep the fitness of a copied indexed swap
 neighbor

---
 mo/src/problems/permutation/moIndexedSwapNeighbor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/permutation/moIndexedSwapNeighbor.h b/mo/src/problems/permutation/moIndexedSwapNeighbor.h
index 4706305..d22da57 100644
--- a/mo/src/problems/permutation/moIndexedSwapNeighbor.h
+++ b/mo/src/problems/permutation/moIndexedSwapNeighbor.h
@@ -55,7 +55,7 @@ public:
    * Copy Constructor
    * @param _n the neighbor to copy
    */
-  moIndexedSwapNeighbor(const moIndexedSwapNeighbor<EOT, Fitness> & _n) : moIndexNeighbor<EOT, Fitness>(_n)
+  moIndexedSwapNeighbor(const moIndexedSwapNeighbor<EOT, Fitness> & _n) : moNeighbor<EOT, Fitness>(_n), moIndexNeighbor<EOT, Fitness>(_n)
   {
     indices.first = _n.first();
     indices.second = _n.second();
-- 
2.43.0


From 3def33fdd799669f5b2fa0907727a2a67791ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:20 +0000
Subject: [PATCH 080/126] fix: evaluate the solution changed by
 moMonOpDiversification

---
 mo/src/memory/moMonOpDiversification.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo/src/memory/moMonOpDiversification.h b/mo/src/memory/moMonOpDiversification.h
index 46fa854..1c335f1 100644
--- a/mo/src/memory/moMonOpDiversification.h
+++ b/mo/src/memory/moMonOpDiversification.h
@@ -59,6 +59,7 @@ public:
      */
     bool operator()(EOT& _solution) {
         bool res = monOp(_solution);
+        _solution.invalidate();
         fullEval(_solution);
         return res;
     }
-- 
2.43.0


From 7f220e5279019ad9a66b613c81aa8c8f0f9064f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:20 +0000
Subject: [PATCH 081/126] fix: check of a move beyond an indexed tabu list

---
 mo/src/memory/moIndexedVectorTabuList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/memory/moIndexedVectorTabuList.h b/mo/src/memory/moIndexedVectorTabuList.h
index b567426..82da038 100644
--- a/mo/src/memory/moIndexedVectorTabuList.h
+++ b/mo/src/memory/moIndexedVectorTabuList.h
@@ -111,7 +111,7 @@ public:
      * @return true if tabuList contains _sol
      */
     virtual bool check(EOT & /*_sol*/, Neighbor & _neighbor) {
-      return (tabuList[_neighbor.index()] > 0);
+      return (_neighbor.index() < maxSize) && (tabuList[_neighbor.index()] > 0);
     }
 
     /**
-- 
2.43.0


From 26c66b1bf957e435e3abea1ca8068c2eaa2e9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:20 +0000
Subject: [PATCH 082/126] fix: empty tabu lists of neighbors and solutions

---
 mo/src/memory/moNeighborVectorTabuList.h | 2 +-
 mo/src/memory/moSolVectorTabuList.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/memory/moNeighborVectorTabuList.h b/mo/src/memory/moNeighborVectorTabuList.h
index 5e8f8ee..e3287a1 100644
--- a/mo/src/memory/moNeighborVectorTabuList.h
+++ b/mo/src/memory/moNeighborVectorTabuList.h
@@ -75,7 +75,7 @@ public:
             tmp.second=howlong;
             tabuList.push_back(tmp);
         }
-        else {
+        else if (maxSize > 0) {
             tabuList[index%maxSize].first = _neighbor;
             tabuList[index%maxSize].second = howlong;
             index++;
diff --git a/mo/src/memory/moSolVectorTabuList.h b/mo/src/memory/moSolVectorTabuList.h
index 31c57c0..e2aab34 100644
--- a/mo/src/memory/moSolVectorTabuList.h
+++ b/mo/src/memory/moSolVectorTabuList.h
@@ -75,7 +75,7 @@ public:
             tmp.second=howlong;
             tabuList.push_back(tmp);
         }
-        else {
+        else if (maxSize > 0) {
             tabuList[index%maxSize].first = _sol;
             tabuList[index%maxSize].second = howlong;
             index++;
-- 
2.43.0


From e7e3129db6ac6015110c4e27254ba9a8dd01564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:32 +0000
Subject: [PATCH 083/126] fix: shaken solutions are evaluated again in variable
 neighborhood search

---
 mo/src/explorer/moVNSexplorer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index b7633c2..c61f1dc 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -111,7 +111,8 @@ public:
     eoMonOp<EOT> & ls    = selection.getLocalSearch();
 
     currentSol = _solution;
-    shake(currentSol);
+    if (shake(currentSol))
+      currentSol.invalidate();
     ls(currentSol);
 
     // update the best solution found
-- 
2.43.0


From fa336d9806010a546bfd625a157c54bc37a85e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:32 +0000
Subject: [PATCH 084/126] fix: variable neighborhood search returns to the
 first neighborhood after a move

---
 mo/src/explorer/moVNSexplorer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index c61f1dc..467a66d 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -86,13 +86,13 @@ public:
    */
   virtual void updateParam(EOT & _solution) {
     if (!first && (*this).moveApplied()) {
-      first = false;
       selection.init(_solution);
     } else 
       if (selection.cont(currentSol)) {
 	selection.next(_solution);
       } else
 	stop = true;
+    first = false;
   }
 
   /**
-- 
2.43.0


From a441b46f9f6934cb90824322e74d5f18d245b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:32 +0000
Subject: [PATCH 085/126] fix: run a variable neighborhood search again

---
 mo/src/explorer/moVNSexplorer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index 467a66d..95a9b3b 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -78,6 +78,7 @@ public:
     selection.init(_solution);
     // for the first ls, the solution will be improved, so the next ls must be applied
     first = true;
+    stop = false;
   }
 
   /**
-- 
2.43.0


From dff76b75567e518f06b3ae22fe287324baac1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:33 +0000
Subject: [PATCH 086/126] fix: end of the forward and random selections of a
 single neighborhood

---
 mo/src/neighborhood/moForwardVectorVNSelection.h | 2 +-
 mo/src/neighborhood/moRndVectorVNSelection.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/neighborhood/moForwardVectorVNSelection.h b/mo/src/neighborhood/moForwardVectorVNSelection.h
index d469cf6..879de80 100644
--- a/mo/src/neighborhood/moForwardVectorVNSelection.h
+++ b/mo/src/neighborhood/moForwardVectorVNSelection.h
@@ -70,7 +70,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return (cycle || (current <= (LSvector.size() - 2)));
+    return (cycle || (current + 1 < LSvector.size()));
   }
 
   /**
diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index a318963..21a42ba 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -73,7 +73,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return ( cycle || (currentOrder <= (order.size() - 2)) );
+    return ( cycle || (currentOrder + 1 < order.size()) );
   }
 
   /**
-- 
2.43.0


From 0e701ab95ab628b38659e6b1bf88731831cf9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:39 +0000
Subject: [PATCH 087/126] fix: random neighborhood selection uses the searches
 added after its first use

---
 mo/src/neighborhood/moRndVectorVNSelection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 21a42ba..742d7ca 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -82,8 +82,8 @@ public:
    * @param _solution the current solution
    */
   virtual void init(EOT& /*_solution*/) {
-    if(order.size() == 0)
-      for(unsigned int i = 0; i < LSvector.size(); i++) {
+    if(order.size() != LSvector.size())
+      for(unsigned int i = order.size(); i < LSvector.size(); i++) {
           order.push_back(i); }
 
     // use the EO generator, so that runs depend on its seed only
-- 
2.43.0


From ded83b7cc5f032a076873b648c2f919e7c1759a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:25 +0000
Subject: [PATCH 088/126] fix: interval of a local search checkpoint with
 several statistics

---
 mo/src/continuator/moCheckpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/continuator/moCheckpoint.h b/mo/src/continuator/moCheckpoint.h
index 37b5cd6..b3631e6 100644
--- a/mo/src/continuator/moCheckpoint.h
+++ b/mo/src/continuator/moCheckpoint.h
@@ -138,8 +138,8 @@ public :
         for (i = 0; i < stats.size(); ++i) {
             if (counter % interval == 0)
                 (*stats[i])(_sol);
-            counter++;
         }
+        counter++;
 
         for (i = 0; i < updaters.size(); ++i)
             (*updaters[i])();
-- 
2.43.0


From 66731c35635d292d053667720b5408f860c7e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:13 +0000
Subject: [PATCH 089/126] fix: best so far over several local searches counts
 their first solutions

---
 mo/src/continuator/moBestFitnessStat.h | 2 ++
 mo/src/continuator/moBestSoFarStat.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mo/src/continuator/moBestFitnessStat.h b/mo/src/continuator/moBestFitnessStat.h
index 192919c..e2ddd4a 100644
--- a/mo/src/continuator/moBestFitnessStat.h
+++ b/mo/src/continuator/moBestFitnessStat.h
@@ -66,6 +66,8 @@ public :
     			value() = _sol.fitness();
     			firstTime = false;
     		}
+    	else
+    		(*this)(_sol);
     }
 
     /**
diff --git a/mo/src/continuator/moBestSoFarStat.h b/mo/src/continuator/moBestSoFarStat.h
index fa57971..238c833 100644
--- a/mo/src/continuator/moBestSoFarStat.h
+++ b/mo/src/continuator/moBestSoFarStat.h
@@ -65,6 +65,8 @@ public :
     			value() = _sol;
     			firstTime = false;
     		}
+    	else
+    		(*this)(_sol);
     }
 
     /**
-- 
2.43.0


From 372e86f2cd4f0d7a2b7df998ee1caa8de8bcdc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:39 +0000
Subject: [PATCH 090/126] fix: standard deviation of constant data is never
 negative

---
 mo/src/sampling/moStatistics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo/src/sampling/moStatistics.h b/mo/src/sampling/moStatistics.h
index 7c74cbc..ecc64ea 100644
--- a/mo/src/sampling/moStatistics.h
+++ b/mo/src/sampling/moStatistics.h
@@ -94,6 +94,8 @@ public:
             std = (std / n) - avg * avg ;
             if (std > 0)
                 std = sqrt(std);
+            else
+                std = 0.0;
         }
     }
 
-- 
2.43.0


From 68ed0067451d7bd4107597577577a5c769cfe458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:39 +0000
Subject: [PATCH 091/126] fix: autocorrelation up to lag zero

---
 mo/src/sampling/moStatistics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo/src/sampling/moStatistics.h b/mo/src/sampling/moStatistics.h
index ecc64ea..319b0dc 100644
--- a/mo/src/sampling/moStatistics.h
+++ b/mo/src/sampling/moStatistics.h
@@ -203,7 +203,8 @@ public:
             //double phi2[nbS+1][nbS+1];
             double tmp1, tmp2;
 
-            phi2[1][1] = rho[1];
+            if (nbS > 0)
+                phi2[1][1] = rho[1];
             for (k = 2; k <= nbS; k++) {
                 tmp1 = 0;
                 tmp2 = 0;
-- 
2.43.0


From f6937a5e9fd488ca31865ab4b2175b92367fc959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:17 +0000
Subject: [PATCH 092/126] fix: load NK landscapes from a file

---
 problems/eval/nkLandscapesEval.h  | 2 ++
 problems/eval/nkpLandscapesEval.h | 2 ++
 problems/eval/nkqLandscapesEval.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/problems/eval/nkLandscapesEval.h b/problems/eval/nkLandscapesEval.h
index 73d4908..8ac8034 100644
--- a/problems/eval/nkLandscapesEval.h
+++ b/problems/eval/nkLandscapesEval.h
@@ -168,6 +168,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	std::string str = "nkLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N and K." ;
 	throw eoException(str);
@@ -182,6 +183,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	std::string str = "nkLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 343d25d..85729c9 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -129,6 +129,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkpLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N, K, and p." ;
 	throw eoException(str);
@@ -143,6 +144,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkpLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index 368bae9..b7cf4e7 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -128,6 +128,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkqLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N, K, and q." ;
 	throw eoException(str);
@@ -142,6 +143,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkqLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
-- 
2.43.0


From e345ae1ac50036b1f4b74365b10ca30a5787a82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:17 +0000
Subject: [PATCH 093/126] fix: build NKp and NKq landscapes from a file

---
 problems/eval/nkpLandscapesEval.h | 2 +-
 problems/eval/nkqLandscapesEval.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 85729c9..422be7f 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -89,7 +89,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkpLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>(_fileName) { }
+  nkpLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>() { load(_fileName); }
 
   /**
    * Load the instance from a file
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index b7cf4e7..67b3433 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -88,7 +88,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkqLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>(_fileName) { }
+  nkqLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>() { load(_fileName); }
 
   /**
    * Load the instance from a file
-- 
2.43.0


From bd8bf3ec899ecc20679a02cc7cac5bb578edbb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:17 +0000
Subject: [PATCH 094/126] fix: release the former NK instance when another one
 is loaded

---
 problems/eval/nkLandscapesEval.h  | 3 ++-
 problems/eval/nkpLandscapesEval.h | 1 +
 problems/eval/nkqLandscapesEval.h | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/problems/eval/nkLandscapesEval.h b/problems/eval/nkLandscapesEval.h
index 8ac8034..d0c39e5 100644
--- a/problems/eval/nkLandscapesEval.h
+++ b/problems/eval/nkLandscapesEval.h
@@ -80,7 +80,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkLandscapesEval(const char * _fileName)
+  nkLandscapesEval(const char * _fileName) : N(0), K(0), tables(NULL), links(NULL)
   { 
     std::string fname(_fileName);
     load(fname);
@@ -164,6 +164,7 @@ public:
       }
 
       // read parameters N and K
+      this->deleteTables();
       file >> N >> K;
       buildTables();
 
diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 422be7f..8d3d104 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -125,6 +125,7 @@ public:
       }
 
       // read parameters N, K and p
+      this->deleteTables();
       file >> N >> K >> p;
       buildTables();
 
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index 67b3433..78d6216 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -124,6 +124,7 @@ public:
       }
 
       // read parameters N, K and q
+      this->deleteTables();
       file >> N >> K >> q;
       buildTables();
 
-- 
2.43.0


From 77ca7c971f675740e9393b696908b6d8a21e389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:17 +0000
Subject: [PATCH 095/126] fix: save NK landscapes with all their digits

---
 problems/eval/nkLandscapesEval.h  | 1 +
 problems/eval/nkpLandscapesEval.h | 1 +
 problems/eval/nkqLandscapesEval.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/problems/eval/nkLandscapesEval.h b/problems/eval/nkLandscapesEval.h
index d0c39e5..f7a2ce0 100644
--- a/problems/eval/nkLandscapesEval.h
+++ b/problems/eval/nkLandscapesEval.h
@@ -249,6 +249,7 @@ public:
 	  file << links[i][j] << std::endl;
 
       file << "p tables" << std::endl;
+      file.precision(17);
       for(unsigned j=0; j<(1<<(K+1)); j++) {
 	for(unsigned i=0; i<N; i++)
 	  file << tables[i][j] << " ";
diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 8d3d104..ed6a94c 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -187,6 +187,7 @@ public:
 	  file << links[i][j] << endl;
 
       file << "p tables" << endl;
+      file.precision(17);
       for(int j=0; j<(1<<(K+1)); j++) {
 	for(int i=0; i<N; i++)
 	  file << tables[i][j] << " ";
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index 78d6216..3e42b53 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -186,6 +186,7 @@ public:
 	  file << links[i][j] << endl;
 
       file << "p tables" << endl;
+      file.precision(17);
       for(int j=0; j<(1<<(K+1)); j++) {
 	for(int i=0; i<N; i++)
 	  file << tables[i][j] << " ";
-- 
2.43.0


From c60bb499f119aa20a8b345f86db5ae61229a3fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:17 +0000
Subject: [PATCH 096/126] fix: evaluate a board without queens

---
 problems/eval/queenEval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/problems/eval/queenEval.h b/problems/eval/queenEval.h
index da8dd9e..acd62f5 100644
--- a/problems/eval/queenEval.h
+++ b/problems/eval/queenEval.h
@@ -46,7 +46,7 @@ public:
 	 */
     void operator()(EOT& _queen){
     	  unsigned int fit=0;
-    	  for(unsigned int i=0; i<_queen.size()-1; i++)
+    	  for(unsigned int i=0; i+1<_queen.size(); i++)
     		  for(unsigned int j=i+1; j< _queen.size(); j++)
     			  if(((unsigned int)_queen[i]+j-i == (unsigned int)_queen[j]) || ((unsigned int)_queen[i]+i-j == (unsigned int)_queen[j]))
     				  fit++;
-- 
2.43.0


From 36096dbda333aae7de551964e0dcdb5623a0af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:48 +0000
Subject: [PATCH 097/126] fix: center the sample before estimating its
 covariance

---
 edo/src/edoEstimatorNormalMulti.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/edo/src/edoEstimatorNormalMulti.h b/edo/src/edoEstimatorNormalMulti.h
index 1298d8a..38f7680 100644
--- a/edo/src/edoEstimatorNormalMulti.h
+++ b/edo/src/edoEstimatorNormalMulti.h
@@ -199,16 +199,6 @@ public:
                     }
             }
 
-            // variance-covariance matrix are symmetric, thus a triangular storage is sufficient
-            // variance-covariance matrix computation : transpose(A) * A
-            Matrix var = sample.transpose() * sample;
-
-            // Be sure that the symmetric matrix got the good size
-            assert(var.innerSize() == s_size);
-            assert(var.outerSize() == s_size);
-
-            _varcovar = var / p_size;
-
             // unit vector
             Vector u( p_size);
             u = Vector::Constant(p_size, 1);
@@ -218,6 +208,17 @@ public:
 
             // division by n
             _mean /= p_size;
+
+            // variance-covariance matrix are symmetric, thus a triangular storage is sufficient
+            // variance-covariance matrix computation : transpose(A) * A, with A centered on the mean
+            sample -= u * _mean.transpose();
+            Matrix var = sample.transpose() * sample;
+
+            // Be sure that the symmetric matrix got the good size
+            assert(var.innerSize() == s_size);
+            assert(var.outerSize() == s_size);
+
+            _varcovar = var / p_size;
         }
 
         const Matrix& get_varcovar() const {return _varcovar;}
-- 
2.43.0


From 9acb5d0f851ea3d1173a0da3612881bab450865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:48 +0000
Subject: [PATCH 098/126] fix: undo the pivoting of the decomposition when
 sampling

---
 edo/src/edoSamplerNormalMulti.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edo/src/edoSamplerNormalMulti.h b/edo/src/edoSamplerNormalMulti.h
index d6e3b9b..35e3220 100644
--- a/edo/src/edoSamplerNormalMulti.h
+++ b/edo/src/edoSamplerNormalMulti.h
@@ -125,7 +125,7 @@ public:
 
         // LsD = cholesky decomposition of varcovar
 
-        // Computes L and mD such as V = L mD L^T
+        // Computes P, L and mD such as V = P^T L mD L^T P, with P a permutation
         Eigen::LDLT<Matrix> cholesky( distrib.varcovar() );
         Matrix L = cholesky.matrixL();
         assert(L.innerSize() == size);
@@ -136,7 +136,7 @@ public:
         assert(mD.outerSize() == size);
 
         // now compute the final symetric matrix: LsD = L mD^1/2
-        // remember that V = ( L mD^1/2) ( L mD^1/2)^T
+        // remember that V = (P^T L mD^1/2) (P^T L mD^1/2)^T
         // fortunately, the square root of a diagonal matrix is the square 
         // root of all its elements
         Matrix sqrtD = mD.cwiseSqrt();
@@ -155,8 +155,9 @@ public:
         assert(T.innerSize() == size);
         assert(T.outerSize() == 1);
 
-        // LDT = (L mD^1/2) * T
+        // LDT = P^T (L mD^1/2) * T
         Vector LDT = LsD * T;
+        LDT = cholesky.transpositionsP().transpose() * LDT;
         assert(LDT.innerSize() == size);
         assert(LDT.outerSize() == 1);
 
-- 
2.43.0


From 5b7f5e8fe6612de3110fcb7d6cf9b77833ff1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:48 +0000
Subject: [PATCH 099/126] fix: sample degenerated covariances without producing
 NaN

---
 edo/src/edoSamplerNormalMulti.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edo/src/edoSamplerNormalMulti.h b/edo/src/edoSamplerNormalMulti.h
index 35e3220..7c310e1 100644
--- a/edo/src/edoSamplerNormalMulti.h
+++ b/edo/src/edoSamplerNormalMulti.h
@@ -139,7 +139,8 @@ public:
         // remember that V = (P^T L mD^1/2) (P^T L mD^1/2)^T
         // fortunately, the square root of a diagonal matrix is the square 
         // root of all its elements
-        Matrix sqrtD = mD.cwiseSqrt();
+        // (of a degenerated covariance, some elements may be slightly negative)
+        Matrix sqrtD = mD.cwiseMax(0).cwiseSqrt();
         assert(sqrtD.innerSize() == size);
         assert(sqrtD.outerSize() == size);
 
-- 
2.43.0


From b6b772d0682b516358ce4fe0da19dcbd82ce23d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:08 +0000
Subject: [PATCH 100/126] fix: restart from a new distribution in the stateless
 combined estimator

---
 edo/src/edoEstimatorCombined.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edo/src/edoEstimatorCombined.h b/edo/src/edoEstimatorCombined.h
index 3c546bd..bfbf214 100644
--- a/edo/src/edoEstimatorCombined.h
+++ b/edo/src/edoEstimatorCombined.h
@@ -88,8 +88,7 @@ public:
 
     virtual D operator()( eoPop<EOType>& pop )
     {
-        delete &(this->_distrib);
-        this->_distrib = *(new D);
+        this->_distrib = D();
         return edoEstimatorCombinedAdaptive<D>::operator()(pop);
     }
 
-- 
2.43.0


From 7c8ffb9ec3b1314035924ad6ec74d8c83080eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:08 +0000
Subject: [PATCH 101/126] fix: let the centering modifiers change the
 distribution

---
 edo/src/edoNormalMono.h        | 6 ++++--
 edo/src/edoNormalMulti.h       | 1 +
 edo/src/edoNormalMultiCenter.h | 2 +-
 edo/src/edoVectorBounds.h      | 6 ++++--
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/edo/src/edoNormalMono.h b/edo/src/edoNormalMono.h
index 1260446..0d728bc 100644
--- a/edo/src/edoNormalMono.h
+++ b/edo/src/edoNormalMono.h
@@ -64,8 +64,10 @@ public:
         return _mean.size();
     }
 
-    EOT mean(){return _mean;}
-    EOT variance(){return _variance;}
+    EOT& mean(){return _mean;}
+    const EOT& mean() const {return _mean;}
+    EOT& variance(){return _variance;}
+    const EOT& variance() const {return _variance;}
 
 private:
     EOT _mean;
diff --git a/edo/src/edoNormalMulti.h b/edo/src/edoNormalMulti.h
index a64a912..cd4107b 100644
--- a/edo/src/edoNormalMulti.h
+++ b/edo/src/edoNormalMulti.h
@@ -148,6 +148,7 @@ public:
         return _mean.innerSize();
     }
 
+    Vector& mean() {return _mean;}
     Vector mean() const {return _mean;}
     Matrix varcovar() const {return _varcovar;}
 
diff --git a/edo/src/edoNormalMultiCenter.h b/edo/src/edoNormalMultiCenter.h
index 30510c6..9f96585 100644
--- a/edo/src/edoNormalMultiCenter.h
+++ b/edo/src/edoNormalMultiCenter.h
@@ -69,7 +69,7 @@ public:
 
     void operator() ( edoNormalMulti< EOT >& distrib, EOT& mass )
     {
-        assert( distrib.size() == mass.innerSize() );
+        assert( distrib.size() == mass.size() );
         Vector mean( distrib.size() );
         for( unsigned int i=0; i < distrib.size(); i++ ) {
             mean(i) = mass[i];
diff --git a/edo/src/edoVectorBounds.h b/edo/src/edoVectorBounds.h
index 7d01bad..7594b82 100644
--- a/edo/src/edoVectorBounds.h
+++ b/edo/src/edoVectorBounds.h
@@ -41,8 +41,10 @@ public:
         assert(_min.size() == _max.size());
     }
 
-    EOT min(){return _min;}
-    EOT max(){return _max;}
+    EOT& min(){return _min;}
+    const EOT& min() const {return _min;}
+    EOT& max(){return _max;}
+    const EOT& max() const {return _max;}
 
     unsigned int size()
     {
-- 
2.43.0


From e28a6f46e813ed5d9ba10de5c57352a1843b9785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:08 +0000
Subject: [PATCH 102/126] fix: build a constant binomial matrix

---
 edo/src/edoBinomialMulti.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoBinomialMulti.h b/edo/src/edoBinomialMulti.h
index a2e7bfb..ba84e89 100644
--- a/edo/src/edoBinomialMulti.h
+++ b/edo/src/edoBinomialMulti.h
@@ -54,7 +54,7 @@ public:
      * 0.5 by default
      */
     edoBinomialMulti( unsigned int rows, unsigned int cols, double proba=0.5 )
-        : T::Constant(rows,cols,proba) {}
+        : T(T::Constant(rows,cols,proba)) {}
 
     /** Constructor without any assumption.
      */
-- 
2.43.0


From 16e8b4c935a57c42145a697fd5d25b247f729b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:09 +0000
Subject: [PATCH 103/126] fix: make the estimation and sampling transforms
 usable

---
 edo/src/edoTransform.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/edo/src/edoTransform.h b/edo/src/edoTransform.h
index 20421d5..d433e3f 100644
--- a/edo/src/edoTransform.h
+++ b/edo/src/edoTransform.h
@@ -39,7 +39,7 @@ Authors:
  * @ingroup Wrappers
  */
 template<class D>
-class edoTransform : public eoTransform< eoPop<typename D::EOType>& >
+class edoTransform : public eoTransform< typename D::EOType >
 {
 public:
     typedef typename D::EOType EOType;
@@ -67,22 +67,21 @@ public:
     typedef typename D::EOType EOType;
 
     edoTransformAdaptive( D & distrib, edoEstimator<D> & estimator, edoSampler<D> & sampler )
-        : _distrib(distrib), _estimator(estimator), _sampler(sampler)
+        : edoTransform<D>(estimator, sampler), _distrib(distrib)
     {}
 
     virtual void operator()( eoPop<EOType> & pop )
     {
-        _distrib = _estimator( pop );
+        _distrib = this->_estimator( pop );
+        unsigned int size = pop.size();
         pop.clear();
-        for( unsigned int i = 0; i < pop.size(); ++i ) {
-            pop.push_back( _sampler(_distrib) );
+        for( unsigned int i = 0; i < size; ++i ) {
+            pop.push_back( this->_sampler(_distrib) );
         }
     }
 
 protected:
     D & _distrib;
-    edoEstimator<D> & _estimator;
-    edoSampler<D> & _sampler;
 };
 
 
-- 
2.43.0


From 094473fbec025a57a9455dcd41171efeaffb0db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:09 +0000
Subject: [PATCH 104/126] fix: initialise the dimension of adaptive normal
 distributions

---
 edo/src/edoNormalAdaptive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edo/src/edoNormalAdaptive.h b/edo/src/edoNormalAdaptive.h
index 7b60d2b..9e2963c 100644
--- a/edo/src/edoNormalAdaptive.h
+++ b/edo/src/edoNormalAdaptive.h
@@ -99,6 +99,7 @@ public:
             Vector p_c,
             Vector p_s
         ) :
+        _dim( dim ),
         _mean( mean ),
         _C( C ),
         _B( B ),
-- 
2.43.0


From a2607dadfe2326c587945dde701282f4fb8063bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:26 +0000
Subject: [PATCH 105/126] fix: compute the expected length of the step path
 with real numbers

---
 edo/src/edoEstimatorNormalAdaptive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoEstimatorNormalAdaptive.h b/edo/src/edoEstimatorNormalAdaptive.h
index a19e14b..719ca8e 100644
--- a/edo/src/edoEstimatorNormalAdaptive.h
+++ b/edo/src/edoEstimatorNormalAdaptive.h
@@ -147,7 +147,7 @@ public:
         assert( invsqrtC.outerSize() == d.coord_sys().outerSize() );
 
         // expectation of ||N(0,I)|| == norm(randn(N,1))
-        double chiN = sqrt(N)*(1-1/(4*N)+1/(21*pow(N,2)));
+        double chiN = sqrt(N)*(1-1.0/(4.0*N)+1/(21*pow(N,2)));
 
 
         /**********************************************************************
-- 
2.43.0


From 5df196f30531d863d683370219b3ad19e98fdd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:26 +0000
Subject: [PATCH 106/126] fix: stop on covariances with tiny negative
 eigenvalues

---
 edo/src/edoContAdaptiveIllCovar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoContAdaptiveIllCovar.h b/edo/src/edoContAdaptiveIllCovar.h
index 409d6db..9d99075 100644
--- a/edo/src/edoContAdaptiveIllCovar.h
+++ b/edo/src/edoContAdaptiveIllCovar.h
@@ -83,7 +83,7 @@ public:
 
         }else {
             Matrix EV = eigensolver.eigenvalues();
-            double condition = EV.maxCoeff() / EV.minCoeff();
+            double condition = EV.cwiseAbs().maxCoeff() / EV.cwiseAbs().minCoeff();
 
             if( not std::isfinite(condition) ) {
                 eo::log << eo::progress << "STOP because the covariance matrix"
-- 
2.43.0


From c87808ba6f306e11d8b12aa4b540b23e18bbc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:15 +0000
Subject: [PATCH 107/126] fix: bound the learning rate of the rank-mu update

---
 edo/src/edoEstimatorNormalAdaptive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoEstimatorNormalAdaptive.h b/edo/src/edoEstimatorNormalAdaptive.h
index 719ca8e..2463f9e 100644
--- a/edo/src/edoEstimatorNormalAdaptive.h
+++ b/edo/src/edoEstimatorNormalAdaptive.h
@@ -130,7 +130,7 @@ public:
         double c1 = 2 / (pow(N+1.3,2)+mueff);
 
         // and for rank-mu update
-        double cmu = 2 * (mueff-2+1/mueff) / ( pow(N+2,2)+mueff);
+        double cmu = std::min( 1-c1, 2 * (mueff-2+1/mueff) / ( pow(N+2,2)+mueff) );
 
         // damping for sigma
         double damps = 1 + 2*std::max(0.0, sqrt((mueff-1)/(N+1))-1) + cs;
-- 
2.43.0


From f2ac975cf653314783b879466487604a5e90a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:15 +0000
Subject: [PATCH 108/126] fix: initialise the step path time constant of the
 default CMA parameters

---
 eo/src/es/CMAParams.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index d27204f..8c182b1 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -209,7 +209,7 @@ void CMAParams::defaults(unsigned n_, unsigned maxgen_) {
     weights /= sumw;
 
     mucov = mueff;
-    ccumsig *= (mueff + 2.) / (n + mueff + 3.);
+    ccumsig = (mueff + 2.) / (n + mueff + 3.);
     ccumcov = 4. / (n + 4);
 
     double t1 = 2. / ((n+1.4142)*(n+1.4142));
-- 
2.43.0


From a1b78906f285ddbda791c845a386f694b112c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:15 +0000
Subject: [PATCH 109/126] fix: weight the correction of a stalled covariance
 path

---
 eo/src/es/CMAState.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eo/src/es/CMAState.cpp b/eo/src/es/CMAState.cpp
index 897b32f..b3521ab 100644
--- a/eo/src/es/CMAState.cpp
+++ b/eo/src/es/CMAState.cpp
@@ -205,9 +205,10 @@ struct CMAStateImpl {
                     c_row[j] =
                                 (1 - p.ccov) * c_row[j]
                                         +
-                                p.ccov * (1./p.mucov) * pc[i] * pc[j]
+                                p.ccov * (1./p.mucov)
+                                        * (pc[i] * pc[j]
                                         +
-                                (1-hsig) * p.ccumcov * (2. - p.ccumcov) * c_row[j];
+                                        (1-hsig) * p.ccumcov * (2. - p.ccumcov) * c_row[j]);
 
                     /*C[i][j] = (1 - p.ccov) * C[i][j]
                         + sp.ccov * (1./sp.mucov)
-- 
2.43.0


From 2e57d61510f4863aa665855837257f9f19472108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:01 +0000
Subject: [PATCH 110/126] fix: give a weight to each of the parents asked for

---
 eo/src/es/CMAParams.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index 8c182b1..f26f288 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -107,6 +107,7 @@ CMAParams::CMAParams(eoParser& parser, unsigned dimensionality) {
             'w',
             section).value();
 
+    weights.resize(mu);
     switch (weight_type) {
         case 1:
             {
-- 
2.43.0


From 2cbde795934b317556d50e2dcc70c2700ebc4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:01 +0000
Subject: [PATCH 111/126] fix: use the documented weighting schemes of CMA

---
 eo/src/es/CMAParams.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index f26f288..beddf0f 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -111,14 +111,14 @@ CMAParams::CMAParams(eoParser& parser, unsigned dimensionality) {
     switch (weight_type) {
         case 1:
             {
-                for (unsigned i = 0; i < weights.size(); ++i) {
-                    weights[i] = mu - i;
-                }
+                weights = 1.;
                 break;
             }
         case 2:
             {
-                weights = 1.;
+                for (unsigned i = 0; i < weights.size(); ++i) {
+                    weights[i] = mu - i;
+                }
                 break;
             }
         default :
-- 
2.43.0


From f13613b50da2c0636bb48d568644e8b33b95909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:01 +0000
Subject: [PATCH 112/126] fix: send emigrants to every neighbour, not only the
 first

---
 smp/src/islandModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smp/src/islandModel.cpp b/smp/src/islandModel.cpp
index e32fb8e..c3b69e9 100644
--- a/smp/src/islandModel.cpp
+++ b/smp/src/islandModel.cpp
@@ -164,7 +164,7 @@ void paradiseo::smp::IslandModel<EOT>::send(void)
             ), 
             sentMessages.end());
         for (unsigned idTo : neighbors)
-            sentMessages.push_back(std::async(std::launch::async, &AIsland<EOT>::update, table.getRight()[idTo], std::move(migPop))); 
+            sentMessages.push_back(std::async(std::launch::async, &AIsland<EOT>::update, table.getRight()[idTo], migPop)); 
              
         listEmigrants.pop();
     }
-- 
2.43.0


From 31175eead6cf7990eb7c49ddfc518b8786c5250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:01 +0000
Subject: [PATCH 113/126] fix: make IslandModel::setTopology change the
 topology

---
 smp/src/islandModel.cpp | 14 +++++++-------
 smp/src/islandModel.h   |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/smp/src/islandModel.cpp b/smp/src/islandModel.cpp
index c3b69e9..8989e41 100644
--- a/smp/src/islandModel.cpp
+++ b/smp/src/islandModel.cpp
@@ -32,7 +32,7 @@ Contact: paradiseo-help@lists.gforge.inria.fr
 
 template<class EOT>
 paradiseo::smp::IslandModel<EOT>::IslandModel(AbstractTopology& _topo) :
-    topo(_topo),
+    topo(&_topo),
     running(false)
 { }
 
@@ -81,7 +81,7 @@ void paradiseo::smp::IslandModel<EOT>::operator()()
             if(it.second && it.first->isStopped())
             {
                 it.second = false;
-                topo.isolateNode(table.getLeft()[it.first]);
+                topo->isolateNode(table.getLeft()[it.first]);
             }
         }        
         // Check sending
@@ -134,15 +134,15 @@ void paradiseo::smp::IslandModel<EOT>::setTopology(AbstractTopology& _topo)
 {
     // If we change topo, we need to protect it
     std::lock_guard<std::mutex> lock(m);
-    topo = _topo;
+    topo = &_topo;
     // If we change when the algorithm is running, we need to recontruct the topo
     if(running)
     {
-        topo.construct(islands.size());
+        topo->construct(islands.size());
         // If we change the topology during the algorithm, we need to isolate stopped islands
         for(auto it : islands)
             if(!it.second)
-                topo.isolateNode(table.getLeft()[it.first]);
+                topo->isolateNode(table.getLeft()[it.first]);
     }
 }
 
@@ -154,7 +154,7 @@ void paradiseo::smp::IslandModel<EOT>::send(void)
     {
         // Get the neighbors
         unsigned idFrom = table.getLeft()[listEmigrants.front().second];
-        std::vector<unsigned> neighbors = topo.getIdNeighbors(idFrom);
+        std::vector<unsigned> neighbors = topo->getIdNeighbors(idFrom);
         
         // Send elements to neighbors
         eoPop<EOT> migPop = std::move(listEmigrants.front().first);
@@ -185,7 +185,7 @@ void paradiseo::smp::IslandModel<EOT>::initModel(void)
         it.second = true; // Indicate islands are active
     
     // Construct topology according to the number of islands
-    topo.construct(islands.size());
+    topo->construct(islands.size());
     
     // Create table
     table = createTable();
diff --git a/smp/src/islandModel.h b/smp/src/islandModel.h
index 1b76550..7f6406c 100644
--- a/smp/src/islandModel.h
+++ b/smp/src/islandModel.h
@@ -99,7 +99,7 @@ protected:
     std::queue<std::pair<eoPop<EOT>,AIsland<EOT>*>> listEmigrants;
     Bimap<unsigned, AIsland<EOT>*> table;
     std::vector<std::pair<AIsland<EOT>*, bool>> islands;
-    AbstractTopology& topo;
+    AbstractTopology* topo;
     std::vector<std::shared_future<bool>> sentMessages;
     std::mutex m;
     std::atomic<bool> running;
-- 
2.43.0


From 103088c43e58b2989e9ba6f36945e4b88b49bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:01 +0000
Subject: [PATCH 114/126] fix: choose the mesh whose ratio is the closest,
 within the factors

---
 smp/src/topology/mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smp/src/topology/mesh.cpp b/smp/src/topology/mesh.cpp
index e4b25ec..ba95c75 100644
--- a/smp/src/topology/mesh.cpp
+++ b/smp/src/topology/mesh.cpp
@@ -44,10 +44,10 @@ void paradiseo::smp::Mesh::operator()(unsigned nbNode, std::vector<std::vector<b
     // ListFact[i] contains first factor which produces a ratio above the variable _ratio,
     // or the last element if there is no ratio that can go over the variable _ratio. 
 	double r1 = (double)listFact[i] * listFact[i] / nbNode;
-	double r2 = (double)listFact[i-1] * listFact[i-1] / nbNode;
+	double r2 = i > 0 ? (double)listFact[i-1] * listFact[i-1] / nbNode : r1;
 	
 	// Which ratio (r1,r2) matches _ratio best?
-    if (std::abs(r2 - _ratio) <= _ratio - r1)
+    if (i > 0 && std::abs(r2 - _ratio) <= std::abs(_ratio - r1))
         height = listFact[i-1];
     else
         height = listFact[i];
-- 
2.43.0


From e34324c546e98d40bf8dc6cd8113dd82c5bf634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:01 +0000
Subject: [PATCH 115/126] fix: a ring of one node has no neighbour

---
 smp/src/topology/ring.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smp/src/topology/ring.cpp b/smp/src/topology/ring.cpp
index 4de953b..01c552d 100644
--- a/smp/src/topology/ring.cpp
+++ b/smp/src/topology/ring.cpp
@@ -42,6 +42,6 @@ void paradiseo::smp::Ring::operator()(unsigned nbNode, std::vector<std::vector<b
     line.assign(nbNode, false);
     matrix.assign(nbNode, line);
 	
-    for(unsigned i=0; i < nbNode; i++)
+    for(unsigned i=0; nbNode > 1 && i < nbNode; i++)
         matrix[i][(i+1)%nbNode]=true;
 }	
-- 
2.43.0


From a1ac91981c19f6359cce6e4503322772a7d03653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:01 +0000
Subject: [PATCH 116/126] fix: restore the links of custom topologies when they
 are constructed again

---
 smp/src/topology/customBooleanTopology.cpp    | 2 ++
 smp/src/topology/customBooleanTopology.h      | 1 +
 smp/src/topology/customStochasticTopology.cpp | 2 ++
 smp/src/topology/customStochasticTopology.h   | 1 +
 4 files changed, 6 insertions(+)

diff --git a/smp/src/topology/customBooleanTopology.cpp b/smp/src/topology/customBooleanTopology.cpp
index 8bd87d1..cf9a41f 100644
--- a/smp/src/topology/customBooleanTopology.cpp
+++ b/smp/src/topology/customBooleanTopology.cpp
@@ -86,6 +86,7 @@ paradiseo::smp::CustomBooleanTopology::CustomBooleanTopology(std::string filenam
             if(line.size() != _matrix.size())
                 throw eoException("Mistake in the topology, matrix is not squared" );
 
+        _loaded = _matrix;
         f.close () ;
     }   
     else
@@ -107,6 +108,7 @@ std::vector<unsigned> paradiseo::smp::CustomBooleanTopology::getIdNeighbors(unsi
 void paradiseo::smp::CustomBooleanTopology::construct(unsigned nbNode)
 {
     assert(nbNode == _matrix.size());
+    _matrix = _loaded;
 }
 
 void paradiseo::smp::CustomBooleanTopology::isolateNode(unsigned idNode)
diff --git a/smp/src/topology/customBooleanTopology.h b/smp/src/topology/customBooleanTopology.h
index 6fc9b4a..4930893 100644
--- a/smp/src/topology/customBooleanTopology.h
+++ b/smp/src/topology/customBooleanTopology.h
@@ -68,6 +68,7 @@ public :
 	
 private :
 	std::vector<std::vector<bool>> _matrix;
+	std::vector<std::vector<bool>> _loaded;
 };
 
 }
diff --git a/smp/src/topology/customStochasticTopology.cpp b/smp/src/topology/customStochasticTopology.cpp
index c0d9a3b..f88c590 100644
--- a/smp/src/topology/customStochasticTopology.cpp
+++ b/smp/src/topology/customStochasticTopology.cpp
@@ -91,6 +91,7 @@ paradiseo::smp::CustomStochasticTopology::CustomStochasticTopology(std::string f
             if(line.size() != _matrix.size())
                 throw eoException("Mistake in the topology, matrix is not square" );
 
+        _loaded = _matrix;
         f.close () ;
     }   
     else
@@ -115,6 +116,7 @@ std::vector<unsigned> paradiseo::smp::CustomStochasticTopology::getIdNeighbors(u
 void paradiseo::smp::CustomStochasticTopology::construct(unsigned nbNode)
 {
     assert(nbNode == _matrix.size());
+    _matrix = _loaded;
 }
 
 void paradiseo::smp::CustomStochasticTopology::isolateNode(unsigned idNode)
diff --git a/smp/src/topology/customStochasticTopology.h b/smp/src/topology/customStochasticTopology.h
index d220e97..f55eb6e 100644
--- a/smp/src/topology/customStochasticTopology.h
+++ b/smp/src/topology/customStochasticTopology.h
@@ -69,6 +69,7 @@ public :
 	
 private :
 	std::vector<std::vector<double>> _matrix;
+	std::vector<std::vector<double>> _loaded;
 };
 
 }
-- 
2.43.0


From 61595f89cef1b3d8e3e5223fe06b75b08bf8b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:41 +0000
Subject: [PATCH 117/126] fix: isolate stopped islands under the lock of the
 model

---
 smp/src/islandModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smp/src/islandModel.cpp b/smp/src/islandModel.cpp
index 8989e41..a0b6126 100644
--- a/smp/src/islandModel.cpp
+++ b/smp/src/islandModel.cpp
@@ -80,6 +80,7 @@ void paradiseo::smp::IslandModel<EOT>::operator()()
             // If an island is stopped we need to isolate its node in the topology
             if(it.second && it.first->isStopped())
             {
+                std::lock_guard<std::mutex> lock(m);
                 it.second = false;
                 topo->isolateNode(table.getLeft()[it.first]);
             }
-- 
2.43.0


From 32b3882f1b20adeb181a7bd59d4cf34bff1a1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:17 +0000
Subject: [PATCH 118/126] fix: normalise objectives equal in the whole front
 without dividing by zero

---
 moeo/src/utils/moeoObjectiveVectorNormalizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/utils/moeoObjectiveVectorNormalizer.h b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
index c6d1588..da13217 100644
--- a/moeo/src/utils/moeoObjectiveVectorNormalizer.h
+++ b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
@@ -183,7 +183,7 @@ class moeoObjectiveVectorNormalizer
 			Scale res;
 			for (unsigned i=0;i<worst.nObjectives();i++){
 				std::vector<Type> coeff;
-				coeff.push_back(max/(worst[i]-best[i]));
+				coeff.push_back(worst[i]==best[i]?1:max/(worst[i]-best[i]));
 				coeff.push_back(best[i]);
 				res.push_back(coeff);
 			}
-- 
2.43.0


From 18b67a1488f21ffe9b0eaee28e76445eca53f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:17 +0000
Subject: [PATCH 119/126] fix: keep the chosen maximum when a normaliser is
 updated from bounds

---
 moeo/src/utils/moeoObjectiveVectorNormalizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/utils/moeoObjectiveVectorNormalizer.h b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
index da13217..9b33367 100644
--- a/moeo/src/utils/moeoObjectiveVectorNormalizer.h
+++ b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
@@ -264,13 +264,13 @@ class moeoObjectiveVectorNormalizer
 		  @param boundaries a vector of bounds corresponding to the bounds in each dimension
 		  */
 		void update_by_bounds(const std::vector<Bounds> &boundaries){
-			scale=make_scale_from_bounds(boundaries);
+			scale=make_scale_from_bounds(boundaries,max);
 		}
 		/** change the scale according to bounds,them same is used in each dimension
 		  @param bounds bounds corresponding to the bounds in each dimension
 		  */
 		void update_by_bounds(const Bounds &bounds){
-			scale=make_scale_from_bounds(bounds);
+			scale=make_scale_from_bounds(bounds,max);
 		}
 
 
-- 
2.43.0


From edaa854d9528f4f77c070d890671d1f3ada546f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:00 +0000
Subject: [PATCH 120/126] fix: delete the right members of an indexed archive

---
 .../scalarStuffs/archive/moeoIndexedArchive.h   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h b/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h
index a70eb33..522d7bc 100644
--- a/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h
+++ b/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h
@@ -1,6 +1,7 @@
 #ifndef MOEOINDEXEDARCHIVE_H_
 #define MOEOINDEXEDARCHIVE_H_
 
+#include <algorithm>
 #include <eoPop.h>
 #include <archive/moeoArchive.h>
 #include <scalarStuffs/archive/moeoArchiveIndex.h>
@@ -42,6 +43,8 @@ class moeoIndexedArchive : public moeoArchive < MOEOT >
 				return false;
 			}
 			else{
+				// delete from the end, so that the element moved in place of a deleted one is always kept
+				std::sort(res.second.begin(), res.second.end(), byDecreasingIdx);
 				for (unsigned int i=0;i<res.second.size();i++){
 					apply_modif(res.second[i]);
 				}
@@ -73,10 +76,12 @@ class moeoIndexedArchive : public moeoArchive < MOEOT >
 		void apply_modif(typename moeoArchiveIndex<MOEOT>::modif &_modif){
 			if (_modif.newIdx==-1){
 				int oldIdx=size()-1;
-				(*this)[_modif.oldIdx]=(*this)[size()-1];
-				ObjectiveVector obj=(*this)[_modif.oldIdx].objectiveVector();
-				typename moeoArchiveIndex<MOEOT>::modif upd(obj,oldIdx,_modif.oldIdx);
-				index.update(upd);
+				if (_modif.oldIdx!=oldIdx){
+					(*this)[_modif.oldIdx]=(*this)[size()-1];
+					ObjectiveVector obj=(*this)[_modif.oldIdx].objectiveVector();
+					typename moeoArchiveIndex<MOEOT>::modif upd(obj,oldIdx,_modif.oldIdx);
+					index.update(upd);
+				}
 				pop_back();
 			}
 		}
@@ -101,6 +106,10 @@ class moeoIndexedArchive : public moeoArchive < MOEOT >
 
 
 	private:
+		static bool byDecreasingIdx(const typename moeoArchiveIndex<MOEOT>::modif &_m1, const typename moeoArchiveIndex<MOEOT>::modif &_m2){
+			return _m1.oldIdx > _m2.oldIdx;
+		}
+
 		moeoArchiveIndex<MOEOT> &index;
 
 
-- 
2.43.0


From 4626736f854e9bc823d7ac4723fd12639acd71b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:00 +0000
Subject: [PATCH 121/126] fix: use the normaliser given to the achievement
 scalarising fitness

---
 .../moeoAchievementScalarizingFunctionMetricFitnessAssignment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h b/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h
index 7546092..8b25226 100644
--- a/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h
+++ b/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h
@@ -65,7 +65,7 @@ class moeoAchievementScalarizingFunctionMetricFitnessAssignment : public moeoSin
 		 * @param _weight the weights applied to the objectives
 		 * @param _normalizer the normalizer to apply to objectiveVectors
 		 */
-		moeoAchievementScalarizingFunctionMetricFitnessAssignment(unsigned int _rho, const ObjectiveVector& _reference, const ObjectiveVector& _weight, moeoObjectiveVectorNormalizer<MOEOT>& _normalizer) : normalizer(_normalizer), eval(defaultEval), distance(_rho, _weight),	metric( distance, _reference, defaultNormalizer){}
+		moeoAchievementScalarizingFunctionMetricFitnessAssignment(unsigned int _rho, const ObjectiveVector& _reference, const ObjectiveVector& _weight, moeoObjectiveVectorNormalizer<MOEOT>& _normalizer) : normalizer(_normalizer), eval(defaultEval), distance(_rho, _weight),	metric( distance, _reference, _normalizer){}
 
 		/**
 		 * ctor with an evaluing fonction, applied if give moeot is invalid
-- 
2.43.0


From 8c37b4e1ef6f5b243b950b49027640dc1a594307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:45:03 +0000
Subject: [PATCH 122/126] fix: read the parameter of the replacement, not of
 the selection

---
 eo/src/do/make_algo_scalar.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/do/make_algo_scalar.h b/eo/src/do/make_algo_scalar.h
index 7819a42..76cc273 100644
--- a/eo/src/do/make_algo_scalar.h
+++ b/eo/src/do/make_algo_scalar.h
@@ -240,7 +240,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("6"));
         }
       else        // parameter passed by user as EPTour(T)
-        detSize = atoi(ppSelect.second[0].c_str());
+        detSize = atoi(ppReplace.second[0].c_str());
 
       replace = new eoEPReplacement<EOT>(detSize);
     }
@@ -260,7 +260,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("2"));
         }
       else        // parameter passed by user as SSGADet(T)
-        detSize = atoi(ppSelect.second[0].c_str());
+        detSize = atoi(ppReplace.second[0].c_str());
 
       replace = new eoSSGADetTournamentReplacement<EOT>(detSize);
     }
@@ -275,7 +275,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("1"));
         }
       else        // parameter passed by user as SSGADet(T)
-        p = atof(ppSelect.second[0].c_str());
+        p = atof(ppReplace.second[0].c_str());
 
       replace = new eoSSGAStochTournamentReplacement<EOT>(p);
     }
-- 
2.43.0


From d8a5e81670600bf8e71067b48e5b449495984294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:00 +0000
Subject: [PATCH 123/126] fix: build a bit string operator whose crossover or
 mutation rates are all zero

---
 eo/src/ga/make_op.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/eo/src/ga/make_op.h b/eo/src/ga/make_op.h
index 6b95b2c..744a026 100644
--- a/eo/src/ga/make_op.h
+++ b/eo/src/ga/make_op.h
@@ -115,11 +115,11 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoInit<EOT>& /*_in
       throw eoParamException("Invalid uRate");
 
     // minimum check
-    // bool bCross = true; // not used ?
+    bool bCross = true;
     if (onePointRateParam.value()+twoPointsRateParam.value()+uRateParam.value()==0)
       {
         std::cerr << "Warning: no crossover" << std::endl;
-        // bCross = false;
+        bCross = false;
       }
 
     // Create the CombinedQuadOp
@@ -174,11 +174,11 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoInit<EOT>& /*_in
       throw eoParamException("Invalid kBitRate");
 
     // minimum check
-    // bool bMut = true; // not used ?
-    if (bitFlipRateParam.value()+oneBitRateParam.value()==0)
+    bool bMut = true;
+    if (bitFlipRateParam.value()+oneBitRateParam.value()+kBitRateParam.value()==0)
       {
         std::cerr << "Warning: no mutation" << std::endl;
-        // bMut = false;
+        bMut = false;
       }
 
     // Create the CombinedMonOp
@@ -216,14 +216,16 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoInit<EOT>& /*_in
   _state.storeFunctor(cross);
   ptQuad = new eoQuadCloneOp<EOT>;
   _state.storeFunctor(ptQuad);
-  cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
-  cross->add(*ptQuad, 1-pCrossParam.value()); // clone operator
+  if (bCross)
+    cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
+  cross->add(*ptQuad, bCross ? 1-pCrossParam.value() : 1.0); // clone operator
 
   // now the sequential
   eoSequentialOp<EOT> *op = new eoSequentialOp<EOT>;
   _state.storeFunctor(op);
   op->add(*cross, 1.0);  // always crossover (but clone with prob 1-pCross
-  op->add(*ptCombinedMonOp, pMutParam.value());
+  if (bMut)
+    op->add(*ptCombinedMonOp, pMutParam.value());
 
   // that's it!
   return *op;
-- 
2.43.0


From ca12745a961e5a05119563d2b6fa64f98195d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:00 +0000
Subject: [PATCH 124/126] fix: retain the best individuals of a save file that
 holds too many

---
 eo/src/do/make_pop.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/eo/src/do/make_pop.h b/eo/src/do/make_pop.h
index 516d7a7..3440878 100644
--- a/eo/src/do/make_pop.h
+++ b/eo/src/do/make_pop.h
@@ -79,20 +79,25 @@ eoPop<EOT>&  do_make_pop(eoParser & _parser, eoState& _state, eoInit<EOT> & _ini
       inState.registerObject(pop);
       inState.registerObject(rng);
       inState.load(loadNameParam.value()); //  load the pop and the rng
-      // the fitness is read in the file:
-      // do only evaluate the pop if the fitness has changed
-      if (recomputeFitnessParam.value())
-        {
-          for (unsigned i=0; i<pop.size(); i++)
-            pop[i].invalidate();
-        }
       if (pop.size() < popSize.value())
         std::cerr << "WARNING, only " << pop.size() << " individuals read in file " << loadNameParam.value() << "\nThe remaining " << popSize.value() - pop.size() << " will be randomly drawn" << std::endl;
       if (pop.size() > popSize.value())
         {
           std::cerr << "WARNING, Load file contained too many individuals. Only the best will be retained" << std::endl;
+          bool evaluated = true;
+          for (unsigned i=0; i<pop.size(); i++)
+            evaluated = evaluated && !pop[i].invalid();
+          if (evaluated)
+            pop.sort();
           pop.resize(popSize.value());
         }
+      // the fitness is read in the file:
+      // do only evaluate the pop if the fitness has changed
+      if (recomputeFitnessParam.value())
+        {
+          for (unsigned i=0; i<pop.size(); i++)
+            pop[i].invalidate();
+        }
     }
   else				// nothing loaded from a file
     {
-- 
2.43.0


From f38bd529d6c1aabaf0af0c3123a0aa403e83b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:00 +0000
Subject: [PATCH 125/126] fix: refuse evolution strategy operators that can
 never be applied

---
 eo/src/es/make_op_es.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eo/src/es/make_op_es.h b/eo/src/es/make_op_es.h
index d526694..17a3841 100644
--- a/eo/src/es/make_op_es.h
+++ b/eo/src/es/make_op_es.h
@@ -108,6 +108,8 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoRealInitBounded<
   if ( (pMutParam.value() < 0) || (pMutParam.value() > 1) )
     throw eoParamException("Invalid pMut");
 
+  if ( (pCrossParam.value() == 0) && (pMutParam.value() == 0) )
+    throw eoException("No operator called in SGA operator definition!!!");
 
   // crossover
   /////////////
-- 
2.43.0


From 4fb08c620baf7943566b5cce622f1bced342bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:16 +0000
Subject: [PATCH 126/126] fix: build a real-valued operator without crossover
 or without mutation

---
 eo/src/es/make_op_real.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eo/src/es/make_op_real.h b/eo/src/es/make_op_real.h
index 0c202d7..2522d05 100644
--- a/eo/src/es/make_op_real.h
+++ b/eo/src/es/make_op_real.h
@@ -274,13 +274,15 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoRealInitBounded<
   _state.storeFunctor(cross);
   ptQuad = new eoQuadCloneOp<EOT>;
   _state.storeFunctor(ptQuad);
-  cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
-  cross->add(*ptQuad, 1-pCrossParam.value()); // clone operator
+  if (bCross)
+    cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
+  cross->add(*ptQuad, bCross ? 1-pCrossParam.value() : 1.0); // clone operator
 
   // now the sequential
   eoSequentialOp<EOT> & op =  _state.storeFunctor(new eoSequentialOp<EOT>);
   op.add(*cross, 1.0);   // always crossover (but clone with prob 1-pCross
-  op.add(*ptCombinedMonOp, pMutParam.value());
+  if (bMut)
+    op.add(*ptCombinedMonOp, pMutParam.value());
 
   // that's it!
   return op;
-- 
2.43.0

