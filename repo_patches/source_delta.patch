From efbef9b0f03724700162e2d4d8b7c1f0e2ad81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 01/82] fix: eig::solve treated a successful K-shift*M as a
 failure for mode 6

---
 src/Eig/EigSolver.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Eig/EigSolver.C b/src/Eig/EigSolver.C
index 183e9a5..f87ba0e 100644
--- a/src/Eig/EigSolver.C
+++ b/src/Eig/EigSolver.C
@@ -182,7 +182,7 @@ bool eig::solve (SystemMatrix* A, SystemMatrix* B,
     break;
   case 6:
     AM = K->copy();
-    if (shift != 0.0 && AM->add(*M,-shift))
+    if (shift != 0.0 && !AM->add(*M,-shift))
       ierr = 123;
     else
       eig_drv6_(n,nev,ncv,shift,eigVal.ptr(),eigVec.ptr(),work,ierr);
-- 
2.43.0


From 49c6d509c661330d8e3bfce3f018646a5e0d31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 02/82] fix: SIMSemi3D::saveStep ignored a failed data export

---
 Apps/Utils/SIMSemi3D.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/SIMSemi3D.h b/Apps/Utils/SIMSemi3D.h
index ff4e8d3..f8121ca 100644
--- a/Apps/Utils/SIMSemi3D.h
+++ b/Apps/Utils/SIMSemi3D.h
@@ -161,12 +161,13 @@ public:
   //! \brief Dumps all registered fields for each plane.
   bool saveStep(const TimeStep& tp, int&)
   {
+    bool ok = true;
     for (size_t i = 0; i < plane_exporters.size(); i++)
-      plane_exporters[i]->dumpTimeLevel(&tp);
+      ok &= plane_exporters[i]->dumpTimeLevel(&tp);
 
     // Note: VTF export is not supported for the Semi3D simulators.
     // Instead this method is used for the HDF5 export.
-    return true;
+    return ok;
   }
 
   //! \brief Dummy method, no serialization support.
-- 
2.43.0


From 21b8a6e25d8de8f243cb305b6c24db8664db8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 03/82] fix: the adaptive simulation driver ignored a failed
 data export

---
 Apps/Utils/SIMSolverAdap.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/SIMSolverAdap.h b/Apps/Utils/SIMSolverAdap.h
index 8c7c1d1..0b0f5ba 100644
--- a/Apps/Utils/SIMSolverAdap.h
+++ b/Apps/Utils/SIMSolverAdap.h
@@ -126,8 +126,9 @@ public:
         return 1;
       else if (!aSim.writeGlv(infile,iStep))
         return 2;
-      else if (SIMSolverStat<T1>::exporter)
-        SIMSolverStat<T1>::exporter->dumpTimeLevel(nullptr,true);
+      else if (SIMSolverStat<T1>::exporter &&
+               !SIMSolverStat<T1>::exporter->dumpTimeLevel(nullptr,true))
+        return 3;
 
     return 0;
   }
-- 
2.43.0


From 0cf4427e512138a029dc78cd9809f6a35d4897f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 04/82] fix: AdaptiveISolver continued after a failed model
 initialization

---
 Apps/Utils/SIMSolverAdap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMSolverAdap.h b/Apps/Utils/SIMSolverAdap.h
index 0b0f5ba..f8890ed 100644
--- a/Apps/Utils/SIMSolverAdap.h
+++ b/Apps/Utils/SIMSolverAdap.h
@@ -56,7 +56,8 @@ protected:
   bool assembleAndSolveSystem() override
   {
     TimeStep dummy;
-    model.init(dummy);
+    if (!model.init(dummy))
+      return false;
 
     if constexpr (SolutionTransfer) {
       if (!transfered.empty()) {
-- 
2.43.0


From 3b79b9fb6891e3d81c4fbafac885810748b5e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 05/82] fix: SIMExplicitRKE ignored a failure to apply the
 Dirichlet conditions

---
 Apps/Utils/SIMExplicitRKE.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMExplicitRKE.h b/Apps/Utils/SIMExplicitRKE.h
index 54e98a3..e1e656a 100644
--- a/Apps/Utils/SIMExplicitRKE.h
+++ b/Apps/Utils/SIMExplicitRKE.h
@@ -93,7 +93,8 @@ public:
       // construct the error estimate
       for (size_t i=0;i<stages.size();++i)
         error.add(stages[i], tp.time.dt*bs[i]);
-      this->solver.applyDirichlet(error);
+      if (!this->solver.applyDirichlet(error))
+        return false;
       error -= this->solver.getSolution();
 
       const size_t nf = this->solver.getNoFields(1);
-- 
2.43.0


From 7d83f4fbf5442c2cd31df2ae67930b8f99ac08f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 06/82] fix: the mesh quality utilities ignored a failed
 coordinate update

---
 Apps/Utils/MeshUtils.C | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/MeshUtils.C b/Apps/Utils/MeshUtils.C
index 33659a5..aad3451 100644
--- a/Apps/Utils/MeshUtils.C
+++ b/Apps/Utils/MeshUtils.C
@@ -34,7 +34,8 @@ static bool compute(std::vector<double>& result, const SIMbase& model,
     Vector locvec;
     if (!displacement.empty()) {
       model.extractPatchSolution(displacement,locvec,pch);
-      pch->updateCoords(locvec);
+      if (!pch->updateCoords(locvec))
+        return false;
     }
 
     size_t nel = pch->getNoElms(true);
@@ -46,7 +47,8 @@ static bool compute(std::vector<double>& result, const SIMbase& model,
 
     if (!displacement.empty()) {
       locvec *= -1.0;
-      pch->updateCoords(locvec);
+      if (!pch->updateCoords(locvec))
+        return false;
     }
   }
 
-- 
2.43.0


From abdb4a9998d87d83c7ab4affb2c687072278caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 07/82] fix: LinSolParams::read ignored invalid block
 parameters

---
 src/LinAlg/LinSolParams.C | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/LinAlg/LinSolParams.C b/src/LinAlg/LinSolParams.C
index 95abf61..6107439 100644
--- a/src/LinAlg/LinSolParams.C
+++ b/src/LinAlg/LinSolParams.C
@@ -176,7 +176,8 @@ bool LinSolParams::read (const tinyxml2::XMLElement* elem)
       this->addValue("schur", value);
     else if (!strcasecmp(child->Value(),"block")) {
       blocks.resize(++parseblock);
-      blocks.back().read(child);
+      if (!blocks.back().read(child))
+        return false;
     }
     else if ((value = utl::getValue(child,"atol")))
       this->addValue("atol", value);
@@ -188,8 +189,5 @@ bool LinSolParams::read (const tinyxml2::XMLElement* elem)
       this->addValue("maxits", value);
   }
 
-  if (parseblock == 0)
-    blocks.back().read(elem);
-
-  return true;
+  return parseblock > 0 || blocks.back().read(elem);
 }
-- 
2.43.0


From 76c8db6c4fed5e051c77d655a60c5ddfa51dd036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 08/82] fix: SIMinput ignored invalid L2-projection solver
 parameters

---
 src/SIM/SIMinput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 0a2c6a1..9c32226 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -957,7 +957,7 @@ bool SIMinput::parse (const tinyxml2::XMLElement* elem)
       if (l2)
       {
         myGl2Params = new LinSolParams(LinAlg::SYMMETRIC);
-        myGl2Params->read(l2);
+        result &= myGl2Params->read(l2);
       }
       else // Use regular solver parameters in the L2-projection
         myGl2Params = new LinSolParams(*mySolParams,LinAlg::SYMMETRIC);
-- 
2.43.0


From b6a5097852d6feae484bc140782342d2cad45c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 09/82] fix: SIMinput accepted topology sets with invalid patch
 indices

---
 src/SIM/SIMinput.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 9c32226..c71afd4 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -262,7 +262,8 @@ bool SIMinput::parseGeometryTag (const tinyxml2::XMLElement* elem)
           const tinyxml2::XMLNode* child = item->FirstChild();
 
           IntVec patches;
-          this->parsePatchList(item,patches);
+          if (!this->parsePatchList(item,patches))
+            return false;
           for (int patch : patches)
             if (int pid = this->getLocalPatchIndex(patch); pid > 0)
             {
-- 
2.43.0


From 4b6fb09168250908c809d83b41b17714686048da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 10/82] fix: SIMinput::restartBasis reported success for
 unreadable restart files

---
 src/SIM/SIMinput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index c71afd4..ac07792 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1898,7 +1898,7 @@ int SIMinput::restartBasis (const std::string& restartFile, int restartStep)
   HDF5Restart hdf(restartFile,dummyAdm);
   HDF5Restart::SerializeData data;
   restartStep = hdf.readData(data,restartStep,true);
-  if (restartStep == 0 || data.empty())
+  if (restartStep == 0 || (restartStep > 0 && data.empty()))
   {
     IFEM::cout <<"\n  ** SIMinput: No serialized basis yet,"
                <<" restarting on initial mesh.\n"<< std::endl;
-- 
2.43.0


From af93f7ace96afd7ec762ecd8e86bd532fcb26fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 11/82] fix: SIMinput::setInitialCondition ignored missing or
 unreadable fields

---
 src/SIM/SIMinput.C | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index ac07792..799621e 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1740,6 +1740,7 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
   HDF5Reader hdf5reader(fileName,adm);
 
   std::map<std::string,PatchVec> basisMap;
+  bool ok = true;
 
   // Loop over the initial conditions
   for (const ICInfo& it : info)
@@ -1762,7 +1763,7 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
             std::stringstream str, spg2;
             str << it.geo_level << "/" << it.file_basis << "/basis/" << i+1;
             std::string pg2;
-            hdf5reader.readString(str.str(),pg2);
+            ok &= hdf5reader.readString(str.str(),pg2);
             spg2 << pg2;
             basisVec.push_back(this->readPatch(spg2,i,nf));
           }
@@ -1779,11 +1780,17 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
         str << it.file_level <<"/"
             << it.file_basis <<"/fields/"
             << it.file_field <<"/"<< i+1;
-        hdf5reader.readVector(str.str(), loc);
+        if (!basisVec[p-1] || !hdf5reader.readVector(str.str(), loc))
+        {
+          ok = false;
+          continue;
+        }
         basisVec[p-1]->copyParameterDomain(pch);
-        if (pch->evaluate(basisVec[p-1], loc, newloc, it.basis))
-          pch->injectNodeVec(newloc, *field,
-                             newloc.size()/pch->getNoNodes(it.basis), it.basis);
+        if (!pch->evaluate(basisVec[p-1], loc, newloc, it.basis) ||
+            !pch->injectNodeVec(newloc, *field,
+                                newloc.size()/pch->getNoNodes(it.basis),
+                                it.basis))
+          ok = false;
       }
     }
 
@@ -1796,7 +1803,7 @@ bool SIMinput::setInitialCondition (SIMdependency* fieldHolder,
     for (ASMbase* pch : itb.second)
       delete pch;
 
-  return true;
+  return ok;
 }
 
 
-- 
2.43.0


From 50b59443376e79671907e4fdf86a07faa88554dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 12/82] fix: a failed immersed quadrature element was hidden by
 later elements

---
 src/ASM/ImmersedBoundaries.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ImmersedBoundaries.C b/src/ASM/ImmersedBoundaries.C
index 5f78fb7..700741c 100644
--- a/src/ASM/ImmersedBoundaries.C
+++ b/src/ASM/ImmersedBoundaries.C
@@ -277,13 +277,13 @@ bool Immersed::getQuadraturePoints (const Geometry& geometry,
     switch (Xc.size()) {
     case 4: // 2D element
       nsd = 2;
-      ok = getQuadraturePoints(geometry,
+      ok &= getQuadraturePoints(geometry,
                                Xc[0],Xc[1],Xc[3],Xc[2],max_depth,p,
                                GP[1],GP[2],GP[0],grid);
       break;
     case 8: // 3D element
       nsd = 3;
-      ok = getQuadraturePoints(geometry,
+      ok &= getQuadraturePoints(geometry,
                                Xc[0],Xc[1],Xc[3],Xc[2],
                                Xc[4],Xc[5],Xc[7],Xc[6],max_depth,p,
                                GP[1],GP[2],GP[3],GP[0]);
-- 
2.43.0


From 4b010e1f8a6dc66d8aa177586f3495135c175fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 13/82] fix: FieldFuncHDF5::load crashed or reported success on
 missing field data

---
 src/Utility/FieldFunctions.C | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index 3c09030..f8e6c99 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -156,7 +156,11 @@ bool FieldFuncHDF5::load (const std::vector<std::string>& fieldNames,
               patch[ip] = ASM3D::create(ASM::LRSpline,nFld);
           }
           std::stringstream strg2(g2);
-          patch[ip]->readBasis(strg2, i);
+          if (patch[ip] && !patch[ip]->readBasis(strg2,i))
+          {
+            delete patch[ip];
+            patch[ip] = nullptr;
+          }
         }
       } else {
         if (patch[ip])
@@ -193,6 +197,7 @@ bool FieldFuncHDF5::load (const std::vector<std::string>& fieldNames,
 
     if (patch[ip])
     {
+      bool haveField = true;
       std::vector<RealArray> coefs(nFldCmp);
       for (size_t i = 0; i < nFldCmp; i++)
       {
@@ -201,7 +206,7 @@ bool FieldFuncHDF5::load (const std::vector<std::string>& fieldNames,
         if (mixedField)
           str << '-' << i+1;
         str << "/fields/" << fieldNames[i] << "/" << ip+1;
-        hdf5->readVector(str.str(),coefs[i]);
+        haveField &= hdf5->readVector(str.str(),coefs[i]);
 #if SP_DEBUG > 1
         std::cout <<"FieldFuncHDF5::load: Reading \""<< fieldNames[i]
                   <<"\" ("<< coefs[i].size() <<") for patch "<< ip+1;
@@ -221,6 +226,8 @@ bool FieldFuncHDF5::load (const std::vector<std::string>& fieldNames,
           nf = coefs.size();
         } else {
           coef1.reserve(nFldCmp*coefs.front().size());
+          for (RealArray& v : coefs)
+            v.resize(coefs.front().size(),Real(0)); // in case of missing fields
           for (size_t i = 0; i < coefs.front().size(); i++)
             for (size_t j = 0; j < nFldCmp; j++)
               coef1.push_back(coefs[j][i]);
@@ -233,7 +240,7 @@ bool FieldFuncHDF5::load (const std::vector<std::string>& fieldNames,
         this->addPatchField(patch[ip],coefs.front(),
                             patch[ip]->getNoFields(1),1);
 
-      nOK++;
+      if (haveField) nOK++;
     }
     else
       std::cerr <<" *** FieldFuncHDF5::load: No field function created"
-- 
2.43.0


From 7e5f6538de47ed2d36091ff1c1a9317b69f72c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 14/82] fix: FieldFuncHDF5::load kept patches whose basis could
 not be read

---
 src/Utility/FieldFunctions.C | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index f8e6c99..10980c5 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -187,7 +187,11 @@ bool FieldFuncHDF5::load (const std::vector<std::string>& fieldNames,
         if (patch[ip])
         {
           std::stringstream strg2(g2);
-          patch[ip]->read(strg2);
+          if (!patch[ip]->read(strg2))
+          {
+            delete patch[ip];
+            patch[ip] = nullptr;
+          }
         }
         else
           std::cerr <<" *** FieldFuncHDF5::load: Undefined basis "<< sbasis.str()
-- 
2.43.0


From 70d12fa35fde0a8cf6963c56392251e3c7885d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 15/82] fix: HDF5Reader ignored missing data sets and read
 errors, and leaked handles

---
 src/Utility/HDF5Reader.C | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/Utility/HDF5Reader.C b/src/Utility/HDF5Reader.C
index 9d3b634..ffe6754 100644
--- a/src/Utility/HDF5Reader.C
+++ b/src/Utility/HDF5Reader.C
@@ -43,14 +43,17 @@ static bool hdf5Read(hid_t file, hid_t type,
                      const std::string& path, std::vector<T>& vec)
 {
   hid_t set = H5Dopen2(file,path.c_str(),H5P_DEFAULT);
+  if (set < 0)
+    return false;
+
+  herr_t status = -1;
   hsize_t size = H5Dget_storage_size(set) / sizeof(T);
   if (size != 0) {
     vec.resize(size);
-    H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,&vec[0]);
-    H5Dclose(set);
-    return true;
+    status = H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,&vec[0]);
   }
-  return false;
+  H5Dclose(set);
+  return status >= 0;
 }
 #endif
 
@@ -109,12 +112,16 @@ bool HDF5Reader::readString (const std::string& name, std::string& out)
     return false;
 
   hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  if (set < 0)
+    return false;
+
   hid_t space = H5Dget_space(set);
   hsize_t siz = H5Sget_simple_extent_npoints(space);
+  H5Sclose(space);
   out.resize(siz);
-  H5Dread(set,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&out[0]);
+  herr_t status = H5Dread(set,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&out[0]);
   H5Dclose(set);
-  return true;
+  return status >= 0;
 #else
   std::cerr << "HDF5Reader: compiled without HDF5 support, no data read" << std::endl;
   return false;
@@ -129,23 +136,32 @@ bool HDF5Reader::read3DArray (const std::string& name, Matrix3D& out)
     return false;
 
   hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  if (set < 0)
+    return false;
+
   hid_t space = H5Dget_space(set);
-  hsize_t dims = H5Sget_simple_extent_ndims(space);
+  int dims = H5Sget_simple_extent_ndims(space);
 
   if (dims != 3) {
     std::cerr << "HDF5Reader: Wrong dimension for field " << name << std::endl;
+    H5Sclose(space);
+    H5Dclose(set);
     return false;
   }
 
   std::array<hsize_t, 3> ndim;
 
   H5Sget_simple_extent_dims(space, ndim.data(), nullptr);
+  H5Sclose(space);
 
   out.resize(ndim[0],ndim[1],ndim[2]);
 
   std::vector<double> test(ndim[0]*ndim[1]*ndim[2]);
-  H5Dread(set,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,test.data());
+  herr_t status = H5Dread(set,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,
+                          test.data());
   H5Dclose(set);
+  if (status < 0)
+    return false;
 
   auto it = test.begin();
   for (hsize_t i = 0; i < ndim[0]; ++i)
-- 
2.43.0


From 70dec13e92a05973dcd8de61d6a46906bfdd5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 16/82] fix: HDF5Base::checkGroupExistence left the HDF5 error
 reporting disabled

---
 src/Utility/HDF5Base.C | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Utility/HDF5Base.C b/src/Utility/HDF5Base.C
index e041436..e026a29 100644
--- a/src/Utility/HDF5Base.C
+++ b/src/Utility/HDF5Base.C
@@ -91,14 +91,15 @@ void HDF5Base::closeFile()
 #ifdef HAS_HDF5
 bool HDF5Base::checkGroupExistence (hid_t parent, const char* path)
 {
+  bool exists = false;
   // turn off errors to avoid cout spew
   H5E_BEGIN_TRY {
 #if H5_VERS_MINOR > 8
-    return H5Lexists(parent,path,H5P_DEFAULT) == 1;
+    exists = H5Lexists(parent,path,H5P_DEFAULT) == 1;
 #else
-    return H5Gget_objinfo((hid_t)parent,path,0,nullptr) == 0;
+    exists = H5Gget_objinfo((hid_t)parent,path,0,nullptr) == 0;
 #endif
   } H5E_END_TRY;
-  return false;
+  return exists;
 }
 #endif
-- 
2.43.0


From 51b9ffd6cac3f6506dff2183c81ea849326e9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 17/82] fix: HDF5Writer::writeVector used the time level as
 HDF5 group handle

---
 src/Utility/HDF5Writer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index fa495fa..c21cd5f 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -199,7 +199,7 @@ void HDF5Writer::writeVector(int level, const DataEntry& entry)
   if (entry.second.field == DataExporter::VECTOR) {
     Vector* dvec = (Vector*)entry.second.data;
     int len = rank == 0 ? dvec->size() : 0;
-    this->writeArray(level,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
+    this->writeArray(group,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
   }
   else if (entry.second.field == DataExporter::INTVECTOR) {
     std::vector<int>* ivec = (std::vector<int>*)entry.second.data;
-- 
2.43.0


From 4c48245daa150f1d8cd96b970cda91bd4234483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 18/82] fix: restart reader ignored read errors and leaked
 memory and handles

---
 src/Utility/HDF5Restart.C | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index d41a9d0..88a6d2e 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -146,13 +146,17 @@ static herr_t read_restart_data (hid_t group_id, const char* name, void* data)
   hid_t setId = H5Dopen2(group_id,name,H5P_DEFAULT);
   if (setId < 0) return setId; // Result set not found
   hsize_t siz = H5Dget_storage_size(setId);
-  if (siz < 1) return 0; // Empty result set
-  char* cdata = new char[siz];
-  H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,cdata);
+  herr_t status = 0;
+  if (siz > 0) // Else empty result set
+  {
+    std::string cdata(siz,'\0');
+    status = H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&cdata[0]);
+    if (status >= 0)
+      ctx->first[name].swap(cdata);
+  }
   H5Dclose(setId);
-  ctx->first[name] = std::string(cdata,siz);
 
-  return 0;
+  return status < 0 ? status : 0;
 }
 #endif
 
-- 
2.43.0


From 2566b2e46009e8f009bf0f1116b8f2bf31b27183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 19/82] fix: HDF5Restart::writeData reported success also when
 writing failed

---
 src/Utility/HDF5Restart.C | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index 88a6d2e..1518477 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -90,20 +90,23 @@ bool HDF5Restart::writeData (const SerializeData& data)
     hid_t space = H5Screate_simple(1,&siz,nullptr);
     hid_t set = H5Dcreate2(group,name.c_str(),
                            type,space,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT);
-    if (len > 0) {
+    herr_t status = set < 0 ? -1 : 0;
+    if (len > 0 && status >= 0) {
       hid_t filespace = H5Dget_space(set);
       siz = len;
       hsize_t stride = 1;
       H5Sselect_hyperslab(filespace,H5S_SELECT_SET,&start,&stride,&siz,nullptr);
       hid_t memspace = H5Screate_simple(1,&siz,nullptr);
-      H5Dwrite(set,type,memspace,filespace,H5P_DEFAULT,data);
+      status = H5Dwrite(set,type,memspace,filespace,H5P_DEFAULT,data);
       H5Sclose(memspace);
       H5Sclose(filespace);
     }
-    H5Dclose(set);
+    if (set >= 0) H5Dclose(set);
     H5Sclose(space);
+    return status >= 0;
   };
 
+  bool ok = true;
   for (int p = 0; p < ptot; p++)
     for (const std::pair<const std::string,std::string>& it : data) {
       std::stringstream str;
@@ -115,18 +118,18 @@ bool HDF5Restart::writeData (const SerializeData& data)
         group = H5Gcreate2(m_file,str.str().c_str(),0,H5P_DEFAULT,H5P_DEFAULT);
       if (!H5Lexists(group, it.first.c_str(), 0)) {
         int len = pid == p ? it.second.size() : 0;
-        writeGroup(group, it.first, len, it.second.data(), H5T_NATIVE_CHAR);
+        ok &= writeGroup(group, it.first, len, it.second.data(), H5T_NATIVE_CHAR);
       }
       H5Gclose(group);
     }
 
   this->closeFile();
 
+  return ok;
 #else
   std::cout <<"HDF5Restart: Compiled without HDF5 support, no data written."<< std::endl;
-#endif
-
   return true;
+#endif
 }
 
 
-- 
2.43.0


From 973dbb471a26363268357a979e4fdc8c3be118ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 20/82] fix: static condensation read past the end of its index
 arrays

---
 src/ASM/AlgEqSystem.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 797e3eb..0e5955b 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -355,7 +355,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
                                       const IntVec& extNodes, size_t imat,
                                       const char* recmatFile) const
 {
-  if (imat > A.size()) return false;
+  if (imat >= A.size()) return false;
 
   const SparseMatrix* Amat = dynamic_cast<const SparseMatrix*>(A[imat]._A);
   const double*       Rvec = A[imat]._b ? A[imat]._b->getRef() : nullptr;
@@ -397,7 +397,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
   Vector    R2(neq2); // External (retained) DOFs
   size_t ieq, ip2, ieq1 = 0, ieq2 = 0;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (static_cast<int>(ieq)+1 < meqn2[ip2])
+    if (ip2 >= meqn2.size() || static_cast<int>(ieq)+1 < meqn2[ip2])
       R1(++ieq1) = Rvec[ieq];
     else
     {
@@ -552,7 +552,7 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
   Vector x(neq0);
   int ieq, ip2, ieq1 = 0, ieq2 = 0;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (ieq+1 < meqn2[ip2])
+    if (ip2 >= (int)neq2 || ieq+1 < meqn2[ip2])
       x[ieq] = x1(++ieq1);
     else
     {
-- 
2.43.0


From c9a28bfbb1185877f5f2e6aa029c031bf03048c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 21/82] fix: static condensation ignored an unwritable recovery
 file and leaked it on errors

---
 src/ASM/AlgEqSystem.C | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 0e5955b..7787f7f 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -413,7 +413,13 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
     return false;
 
   FILE* fd = recmatFile ? fopen(recmatFile,"wb") : nullptr;
-  if (fd)
+  if (recmatFile && !fd)
+  {
+    std::cerr <<" *** AlgEqSystem::staticCondensation: Failed to open \""
+              << recmatFile <<"\"."<< std::endl;
+    return false;
+  }
+  else if (fd)
   {
     IFEM::cout <<"\nWriting recovery matrix "<< recmatFile << std::endl;
     fprintf(fd,"#IFEM recovery matrix: %zu %zu\n",neq1,1+neq2);
@@ -430,7 +436,10 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
   // Calculate [A21]*([A11]^-1*{R1}) => Rtmp
   StdVector Rtmp;
   if (!Asub[1].multiply(R1,Rtmp))
+  {
+    if (fd) fclose(fd);
     return false;
+  }
 
   // Calculate the reduced right-hand-side vector
   bred = R2 - Rtmp;
@@ -447,12 +456,12 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
     Asub[3].getColumn(ieq2,R2);
 
     // Calculate [A11]^-1*{R1} => R1, reusing the factorization of [A11]
-    if (!Asub[0].solve(R1))
-      return false;
-
     // Calculate [A21]*([A11]^-1*{R1}) => Rtmp
-    if (!Asub[1].multiply(R1,Rtmp))
+    if (!Asub[0].solve(R1) || !Asub[1].multiply(R1,Rtmp))
+    {
+      if (fd) fclose(fd);
       return false;
+    }
 
     // Insert {R2}-{Rtmp} into the reduced matrix Ared
     Ared.fillColumn(ieq2,R2-Rtmp);
-- 
2.43.0


From 7541aec1bd40119babfbab6a4e32bbaf8abcf853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 22/82] fix: AlgEqSystem::add used the wrong array lengths

---
 src/ASM/AlgEqSystem.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 7787f7f..4b09384 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -136,13 +136,13 @@ AlgEqSystem& AlgEqSystem::add (const AlgEqSystem& that)
   for (i = 0; i < A.size() && i < that.A.size(); i++)
     A[i]._A->add(*that.A[i]._A);
 
-  for (i = 0; i < b.size() && i < that.A.size(); i++)
+  for (i = 0; i < b.size() && i < that.b.size(); i++)
     b[i]->add(*that.b[i]);
 
   for (i = 0; i < c.size() && i < that.c.size(); i++)
     c[i] += that.c[i];
 
-  for (i = 0; i < b.size() && i < that.R.size(); i++)
+  for (i = 0; i < R.size() && i < that.R.size(); i++)
     R[i] += that.R[i];
 
   return *this;
-- 
2.43.0


From 8662520c4db9d83c601649ad5f5736ea8bcbea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 23/82] fix: SIMinput never read the element numbers of a saved
 partitioning

---
 src/SIM/SIMinput.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 799621e..ae9a87c 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -215,8 +215,8 @@ bool SIMinput::parseGeometryTag (const tinyxml2::XMLElement* elem)
         }
         ifs.seekg(ofs*sizeof(int), std::ios_base::cur);
         elms.resize(elmOfs[adm.getProcId()]);
-        for (int& eofs : elmOfs)
-          ifs.read(reinterpret_cast<char*>(&eofs), sizeof(int));
+        for (int& iel : elms)
+          ifs.read(reinterpret_cast<char*>(&iel), sizeof(int));
 
         IFEM::cout <<", size = "<< elms.size() << std::endl;
       }
-- 
2.43.0


From 80c4634b5cb21d55101198892051e80c2c43f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 24/82] fix: missing values in function and knot definitions
 crashed the parser

---
 src/Utility/Functions.C | 42 ++++++++++++++++++++++++++++-------------
 src/Utility/Utilities.C | 13 ++++++++-----
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 4b681df..9dfa909 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -664,6 +664,18 @@ Real Interpolate1D::deriv (const Vec3& X, int ddir) const
 }
 
 
+/*!
+  \brief Static helper returning the next token of the string being parsed.
+  \details An empty string is returned if there are no more tokens.
+*/
+
+static const char* nextToken ()
+{
+  const char* token = strtok(nullptr," ");
+  return token ? token : "";
+}
+
+
 /*!
   The functions are assumed on the general form
   \f[ f({\bf X},t) = A * g({\bf X}) * h(t) \f]
@@ -743,15 +755,15 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
       f = new LinearZFunc(A,atof(cline));
       break;
     case 4:
-      f = new LinearRotZFunc(true,A,atof(cline),atof(strtok(nullptr," ")));
+      f = new LinearRotZFunc(true,A,atof(cline),atof(nextToken()));
       break;
     case 5:
-      f = new LinearRotZFunc(false,A,atof(cline),atof(strtok(nullptr," ")));
+      f = new LinearRotZFunc(false,A,atof(cline),atof(nextToken()));
       break;
     case 6:
       {
         double x0 = atof(cline);
-        double x1 = atof(strtok(nullptr," "));
+        double x1 = atof(nextToken());
         if (print)
           IFEM::cout <<"Step"<< stepDir <<"("<< x0 <<","<< x1 <<"))";
         f = new StepXFunc(A,x0,x1,stepDir);
@@ -760,12 +772,12 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
     case 7:
       {
         double x0 = atof(cline);
-        double y0 = atof(strtok(nullptr," "));
+        double y0 = atof(nextToken());
         cline = strtok(nullptr," ");
         if (cline && cline[0] == 't')
         {
-          double x1 = atof(strtok(nullptr," "));
-          double y1 = atof(strtok(nullptr," "));
+          double x1 = atof(nextToken());
+          double y1 = atof(nextToken());
           if (print)
             IFEM::cout <<"StepXY(["<< x0 <<","<< x1
                        <<"]x["<< y0 <<","<< y1 <<"]))";
@@ -781,7 +793,7 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
       break;
     case 8:
       {
-        int dir = atoi(strtok(nullptr," ")), col = 2;
+        int dir = atoi(nextToken()), col = 2;
         if (print)
           IFEM::cout <<"Interpolate1D("<< cline;
         const char* t = strtok(nullptr," ");
@@ -810,8 +822,8 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
     case 9:
       {
         std::string basis, field;
-        basis = strtok(nullptr," ");
-        field = strtok(nullptr," ");
+        basis = nextToken();
+        field = nextToken();
         char* lev = strtok(nullptr, " ");
         int level = 0;
         if (lev) {
@@ -839,7 +851,7 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
   {
     C = Real(1);
     Real a = atof(cline);
-    Real b = atof(strtok(nullptr," "));
+    Real b = atof(nextToken());
     Real val = (a-b)*(a-b)/Real(4);
     char var = 'W' + quadratic;
     if (print)
@@ -908,8 +920,11 @@ VecTimeFunc* utl::parseVecTimeFunc (const char* func, const std::string& type)
     char* ctemp = cline;
     char* fname = strtok(cline," ");
     int   colum = (cline = strtok(nullptr," ")) ? atoi(cline) : 2;
-    IFEM::cout <<"PiecewiseLin(t,"<< fname <<","<< colum <<")";
-    vfunc = new LinVecFunc(fname,colum);
+    if (fname)
+    {
+      IFEM::cout <<"PiecewiseLin(t,"<< fname <<","<< colum <<")";
+      vfunc = new LinVecFunc(fname,colum);
+    }
     free(ctemp);
   }
   IFEM::cout << std::endl;
@@ -965,7 +980,8 @@ RealFunc* utl::parseRealFunc (const std::string& func,
   {
     char* funcType = strdup(type.c_str());
     char* funcBody = strdup(func.c_str());
-    p = atof(strtok(funcBody," "));
+    char* value = strtok(funcBody," ");
+    p = value ? atof(value) : Real(0);
     f = parseRealFunc(funcType,p,print);
     free(funcBody);
     free(funcType);
diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 2400498..619d832 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -95,7 +95,7 @@ bool utl::parseKnots (std::vector<Real>& xi)
   else if (toupper(cline[0]) == 'C' && cline[1] == '5')
   {
     // Centred grading using a 5'th order polynomial
-    int    nX = atoi(strtok(nullptr," "));
+    int    nX = (cline = strtok(nullptr," ")) ? atoi(cline) : 0;
     double X1 = (cline = strtok(nullptr," ")) ? atof(cline) : 1.0;
     double X2 = (cline = strtok(nullptr," ")) ? atof(cline) : 1.0;
     double y0 = (cline = strtok(nullptr," ")) ? atof(cline) : 0.0;
@@ -123,8 +123,8 @@ bool utl::parseKnots (std::vector<Real>& xi)
     // Geometric grading
     bool  biased = toupper(cline[0]) == 'B';
     bool centred = toupper(cline[0]) == 'C';
-    int    ru    = atoi(strtok(nullptr," "));
-    double alpha = atof(strtok(nullptr," "));
+    int    ru    = (cline = strtok(nullptr," ")) ? atoi(cline) : 0;
+    double alpha = (cline = strtok(nullptr," ")) ? atof(cline) : 1.0;
     double xi1   = (cline = strtok(nullptr," ")) ? atof(cline) : 0.0;
     double xi2   = (cline = strtok(nullptr," ")) ? atof(cline) : 1.0;
     if (xi1 < 0.0 || xi2 <= xi1 || xi2 > 1.0 || ru < 1)
@@ -283,8 +283,11 @@ int utl::getAttribute (const tinyxml2::XMLElement* xml, const char* att,
     return false;
 
   std::string value(xml->Attribute(att));
-  char* cval = const_cast<char*>(value.c_str());
-  val.x = atof(strtok(cval," "));
+  char* cval = strtok(const_cast<char*>(value.c_str())," ");
+  if (!cval)
+    return false;
+
+  val.x = atof(cval);
 
   for (int i = 1; i < 3; i++)
     if (i >= ncomp && ncomp > 0)
-- 
2.43.0


From 9c79c6327112382a59124cf5ba1f8dd28d4872b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 25/82] fix: DualRealFunc::inDomain used the parameters of
 points that have none

---
 src/ASM/DualField.C | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ASM/DualField.C b/src/ASM/DualField.C
index 8475b95..135a8fd 100644
--- a/src/ASM/DualField.C
+++ b/src/ASM/DualField.C
@@ -116,14 +116,12 @@ bool DualRealFunc::inDomain (const Vec3& X) const
   if (patch && !Delem.empty())
   {
     const Vec4* Xp = dynamic_cast<const Vec4*>(&X);
-#ifdef SP_DEBUG
     if (!Xp || !Xp->u)
     {
       std::cerr <<" *** DualRealFunc::inDomain: The point "<< X
                 <<" lacks parameters."<< std::endl;
       return false;
     }
-#endif
     int iel = patch->findElementContaining(Xp->u);
     if (iel < 1 || Delem.find(iel) == Delem.end()) return false;
 #ifdef SP_DEBUG
-- 
2.43.0


From 626f9024f91e75ab8830d206857062a94d5657cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 26/82] fix: FieldsFuncBase evaluated missing patch fields and
 points without time

---
 src/Utility/FieldFunctions.C | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index 10980c5..e836e02 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -454,6 +454,9 @@ void FieldsFuncBase::addPatchField (ASMbase* pch,
 RealArray FieldsFuncBase::getValues (const Vec3& X)
 {
   Vector vals;
+  if (pidx >= field.size() || !field[pidx])
+    return vals;
+
   const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
   if (!x4)
     field[pidx]->valueCoor(X,vals);
@@ -478,6 +481,9 @@ RealArray FieldsFuncBase::getValues (const Vec3& X)
 std::vector<Real> FieldsFuncBase::getGradient (const Vec3& X) const
 {
   const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
+  if (!x4 || pidx >= field.size() || !field[pidx])
+    return {};
+
   int level = this->findClosestLevel(x4->t);
   if (level < 0) return {};
   if (level != currentLevel)
@@ -493,7 +499,7 @@ std::vector<Real> FieldsFuncBase::getGradient (const Vec3& X) const
 std::vector<Real> FieldsFuncBase::getHessian (const Vec3& X) const
 {
   const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
-  if (!x4)
+  if (!x4 || pidx >= field.size() || !field[pidx])
     return {};
 
   int level = this->findClosestLevel(x4->t);
-- 
2.43.0


From e8063f4f319612248bb2de63419b14a5e37d2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 27/82] fix: parsing past the end of an input file used a null
 line

---
 src/SIM/AdaptiveSetup.C | 4 +++-
 src/SIM/NonLinSIM.C     | 5 ++++-
 src/SIM/TimeStep.C      | 5 ++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index f9bf431..d99d1b1 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -166,8 +166,10 @@ bool AdaptiveSetup::parse (char* keyWord, std::istream& is)
 {
   if (!strncasecmp(keyWord,"ADAPTIVE",8))
   {
-    std::istringstream cline(utl::readLine(is));
+    const char* line = utl::readLine(is);
+    if (!line) return false;
 
+    std::istringstream cline(line);
     cline >> beta >> errTol;
     if (cline.fail() || cline.bad()) return false;
 
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 4df8f3c..6d1ec40 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -67,7 +67,10 @@ bool NonLinSIM::parse (char* keyWord, std::istream& is)
 {
   if (!strncasecmp(keyWord,"NONLINEAR_SOLVER",16))
   {
-    std::istringstream cline(utl::readLine(is));
+    const char* line = utl::readLine(is);
+    if (!line) return false;
+
+    std::istringstream cline(line);
     cline >> maxit >> rTol;
     if (cline.fail() || cline.bad()) return false;
 
diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 96f69ae..65b7457 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -71,7 +71,10 @@ bool TimeStep::parse (char* keyWord, std::istream& is)
   mySteps.resize(nstep);
   for (int i = 0; i < nstep; i++)
   {
-    std::istringstream cline(utl::readLine(is));
+    const char* line = utl::readLine(is);
+    if (!line) return false;
+
+    std::istringstream cline(line);
     if (i == 0) cline >> starTime;
     cline >> mySteps[i].second >> dt;
     if (i == 0 && cline.good()) cline >> maxCFL;
-- 
2.43.0


From 25adeb665c9dc4414057b54ef636b30ad262dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 28/82] fix: AnaSol crashed on missing lines and empty
 derivative definitions

---
 src/Utility/AnaSol.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Utility/AnaSol.C b/src/Utility/AnaSol.C
index 04148fc..e76b229 100644
--- a/src/Utility/AnaSol.C
+++ b/src/Utility/AnaSol.C
@@ -84,7 +84,10 @@ AnaSol::AnaSol (std::istream& is, const int nlines, bool scalarSol)
   std::string variables;
   for (int i = 0; i < nlines; i++)
   {
-    std::string function = utl::readLine(is);
+    const char* line = utl::readLine(is);
+    if (!line) break;
+
+    std::string function(line);
     size_t pos;
 
     if ((pos = function.find("Variables=")) != std::string::npos)
@@ -195,6 +198,8 @@ void AnaSol::parseExpressionFunctions (const tinyxml2::XMLElement* elem, bool sc
     const tinyxml2::XMLElement* child = elem->FirstChildElement("derivative");
     for (; child; child = child->NextSiblingElement("derivative"))
     {
+      if (!child->FirstChild()) continue;
+
       int dir1 = 0, dir2 = 0;
       if (!utl::getAttribute(child,"dir",dir1))
         if (utl::getAttribute(child,"d1",dir1))
-- 
2.43.0


From f3967a6404cdf424b5e4288dd2091054bde413ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 29/82] fix: invalid initial condition function crashed instead
 of failing

---
 src/SIM/SIMinput.C | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index ae9a87c..e7ba7ff 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1827,8 +1827,11 @@ bool SIMinput::setInitialConditions (SIMdependency* fieldHolder)
                  <<"\nfrom "<< ic.file_field <<" function";
       RealFunc* fn = utl::parseRealFunc(ic.function,ic.file_field);
       IFEM::cout << std::endl;
-      result &= this->project(*field,fn,ic.basis,ic.component-1,
-                              this->getNoFields(ic.basis));
+      if (fn)
+        result &= this->project(*field,fn,ic.basis,ic.component-1,
+                                this->getNoFields(ic.basis));
+      else
+        result = false;
       delete fn;
     }
 
-- 
2.43.0


From f207b054763ccff162d13e687df4b0e2320028a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 30/82] fix: file name options consisting of periods only
 crashed the parser

---
 src/SIM/SIMoptions.C | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/SIM/SIMoptions.C b/src/SIM/SIMoptions.C
index 38938ff..5f39b5e 100644
--- a/src/SIM/SIMoptions.C
+++ b/src/SIM/SIMoptions.C
@@ -341,21 +341,23 @@ bool SIMoptions::parseOldOptions (int argc, char** argv, int& i)
     nViz[2] = atoi(argv[++i]);
   else if (!strcmp(argv[i],"-hdf5"))
   {
+    hdf5 = "(default)"; // use the default output file name
     if (i < argc-1 && argv[i+1][0] != '-')
-      hdf5 = strtok(argv[++i],".");
-    else // use the default output file name
-      hdf5 = "(default)";
+      if (const char* name = strtok(argv[++i],"."); name)
+        hdf5 = name;
   }
   else if (!strcmp(argv[i],"-vtffile"))
   {
     if (i < argc-1 && argv[i+1][0] != '-')
-      vtf = strtok(argv[++i],".");
+      if (const char* name = strtok(argv[++i],"."); name)
+        vtf = name;
   }
   else if (!strcmp(argv[i],"-saveInc") && i < argc-1)
     dtSave = atof(argv[++i]);
   else if (!strcmp(argv[i],"-restart") && i < argc-1)
   {
-    restartFile = strtok(argv[++i],".");
+    if (const char* name = strtok(argv[++i],"."); name)
+      restartFile = name;
     if (i+1 < argc && argv[i+1][0] != '-')
       restartStep = atoi(argv[++i]);
   }
-- 
2.43.0


From 663f4fc51b51c66d2a4f89a479c98e7c518016b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 31/82] fix: unreadable or empty include files were ignored or
 crashed

---
 src/SIM/XMLInputBase.C | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/SIM/XMLInputBase.C b/src/SIM/XMLInputBase.C
index 4c0f791..c560513 100644
--- a/src/SIM/XMLInputBase.C
+++ b/src/SIM/XMLInputBase.C
@@ -50,9 +50,12 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
   {
     if (std::string(elem.Value()) == "include") {
       tinyxml2::XMLDocument inc_doc(true, tinyxml2::COLLAPSE_WHITESPACE);
-        if (inc_doc.LoadFile(elem.GetText()) != tinyxml2::XML_SUCCESS) {
-          std::cerr << "** Error parsing include file " << elem.GetText() << std::endl;
-          return false;
+      const char* file = elem.GetText();
+      if (!file || !currElem || inc_doc.LoadFile(file) != tinyxml2::XML_SUCCESS ||
+          !inc_doc.RootElement()) {
+        std::cerr << " *** Error parsing include file " << (file ? file : "(none)") << std::endl;
+        include_failed = true;
+        return false;
       }
       currElem->InsertEndChild(inc_doc.RootElement()->DeepClone(&new_doc));
       include_found = include_processed = true;
@@ -86,6 +89,7 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
   tinyxml2::XMLDocument new_doc; //!< New document
   tinyxml2::XMLElement* currElem = nullptr; //!< Current root element
   bool include_found = false; //!< True if an include tag was found
+  bool include_failed = false; //!< True if an include file could not be read
 
 private:
   bool include_processed = false; //!< True if an include tag was processed
@@ -113,7 +117,9 @@ XMLInputBase::loadFile (tinyxml2::XMLDocument& doc,
     for (size_t i = 0; i < 10; ++i) { // Maximum 10 levels of include files
       IncludeInjector v;
       doc.RootElement()->Accept(&v);
-      if (v.include_found)
+      if (v.include_failed)
+        return nullptr;
+      else if (v.include_found)
         v.new_doc.DeepCopy(&doc);
       else
         break;
-- 
2.43.0


From 780c1b039107f1158ceb81843f30733b4c8edb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 32/82] fix: parseTracFunc leaked the functions its result does
 not use

---
 src/Utility/Functions.C | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 9dfa909..a0b3bfb 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -26,6 +26,7 @@
 #include <fstream>
 #include <sstream>
 #include <algorithm>
+#include <memory>
 
 
 namespace
@@ -1114,11 +1115,11 @@ TractionFunc* utl::parseTracFunc (const tinyxml2::XMLElement* elem)
   IFEM::cout << std::endl;
 
   char rotaxis = 'X';
-  const ScalarFunc*  force = nullptr;
-  const VecTimeFunc* fdir  = nullptr;
-  const VecTimeFunc* frot  = nullptr;
-  const ScalarFunc*  angle = nullptr;
-  const RealFunc*    shape = nullptr;
+  std::unique_ptr<const ScalarFunc>  force;
+  std::unique_ptr<const VecTimeFunc> fdir;
+  std::unique_ptr<const VecTimeFunc> frot;
+  std::unique_ptr<const ScalarFunc>  angle;
+  std::unique_ptr<const RealFunc>    shape;
   const tinyxml2::XMLElement* child = elem->FirstChildElement();
   while (child && child->Value() && child->FirstChild())
   {
@@ -1127,38 +1128,41 @@ TractionFunc* utl::parseTracFunc (const tinyxml2::XMLElement* elem)
     if (strcasecmp(child->Value(),"force") == 0)
     {
       IFEM::cout <<"\tForce resultant: ";
-      force = parseTimeFunc(child->FirstChild()->Value(),type);
+      force.reset(parseTimeFunc(child->FirstChild()->Value(),type));
     }
     else if (strcasecmp(child->Value(),"angle") == 0)
     {
       if (utl::getAttribute(child,"axis",rotaxis,false))
         rotaxis = toupper(rotaxis);
       IFEM::cout <<"\tForce angle ("<< rotaxis <<"-axis): ";
-      angle = parseTimeFunc(child->FirstChild()->Value(),type);
+      angle.reset(parseTimeFunc(child->FirstChild()->Value(),type));
     }
     else if (strncasecmp(child->Value(),"orient",6) == 0)
     {
       IFEM::cout <<"\tForce orientation: ";
-      frot = parseVecTimeFunc(child->FirstChild()->Value(),type.c_str());
+      frot.reset(parseVecTimeFunc(child->FirstChild()->Value(),type.c_str()));
     }
     else if (strcasecmp(child->Value(),"direction") == 0)
     {
       IFEM::cout <<"\tForce direction: ";
-      fdir = parseVecTimeFunc(child->FirstChild()->Value(),type.c_str());
+      fdir.reset(parseVecTimeFunc(child->FirstChild()->Value(),type.c_str()));
     }
     else if (strcasecmp(child->Value(),"shape") == 0)
     {
       IFEM::cout <<"\tShape function";
-      shape = parseRealFunc(child->FirstChild()->Value(),type);
+      shape.reset(parseRealFunc(child->FirstChild()->Value(),type));
       IFEM::cout << std::endl;
     }
     child = child->NextSiblingElement();
   }
 
   if (angle && rotaxis >= 'X' && rotaxis <= 'Z')
-    return new ForceDirField(force,angle,rotaxis,shape,Xaxis,Zaxis,X0);
+    return new ForceDirField(force.release(),angle.release(),rotaxis,
+                             shape.release(),Xaxis,Zaxis,X0);
   else if (fdir)
-    return new ForceDirField(force,fdir,shape,Xaxis,Zaxis,X0,true);
+    return new ForceDirField(force.release(),fdir.release(),
+                             shape.release(),Xaxis,Zaxis,X0,true);
   else
-    return new ForceDirField(force,frot,shape,Xaxis,Zaxis,X0);
+    return new ForceDirField(force.release(),frot.release(),
+                             shape.release(),Xaxis,Zaxis,X0);
 }
-- 
2.43.0


From 58bbcfa1e0bae2a94e393bb73305fb056a0fa028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 33/82] fix: writeGlvG leaked the merged block when a later
 patch fails

---
 src/SIM/SIMoutput.C | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index f46f994..b8b195b 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -28,6 +28,7 @@
 #include <array>
 #include <fstream>
 #include <iomanip>
+#include <memory>
 #include <numeric>
 
 
@@ -697,7 +698,7 @@ bool SIMoutput::writeGlvG (int& nBlock, double time, bool append)
   if (!append)
     myVtf->clearGeometryBlocks();
 
-  ElementBlock* singlePart = nullptr;
+  std::unique_ptr<ElementBlock> singlePart;
   ElementBlock* lvb;
   char pname[64];
 
@@ -722,7 +723,7 @@ bool SIMoutput::writeGlvG (int& nBlock, double time, bool append)
     {
       // Merge all element blocks into a single part
       if (!singlePart)
-        singlePart = lvb;
+        singlePart.reset(lvb);
       else
       {
         singlePart->merge(*lvb,false);
@@ -751,7 +752,7 @@ bool SIMoutput::writeGlvG (int& nBlock, double time, bool append)
 
     // Reuse the last node block when time > 0.0 unless increased size
     nodeBlock = singlePart->getNoNodes() > nNodeLast ? 0 : nodeBlocks.back();
-    if (!myVtf->writeGrid(singlePart,"FE model",++nBlock,nodeBlock))
+    if (!myVtf->writeGrid(singlePart.release(),"FE model",++nBlock,nodeBlock))
       return false;
   }
 
-- 
2.43.0


From d037a09acbfb8e612b473fe1ad20251e045aa800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 34/82] fix: the unused secondary integral of assembleForces
 leaked

---
 src/ASM/IntegrandBase.C | 10 ++++++++++
 src/ASM/IntegrandBase.h |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ASM/IntegrandBase.C b/src/ASM/IntegrandBase.C
index 0bb1b26..ee2d200 100644
--- a/src/ASM/IntegrandBase.C
+++ b/src/ASM/IntegrandBase.C
@@ -370,6 +370,16 @@ void IntegrandBase::printSolution (std::ostream& os, int pindx)
 }
 
 
+/*!
+  The default implementation does not use the secondary integral.
+*/
+
+void IntegrandBase::setSecondaryInt (GlobalIntegral* gq)
+{
+  delete gq;
+}
+
+
 void IntegrandBase::registerVector (const std::string& name, Vector* vec)
 {
   myFields[name] = vec;
diff --git a/src/ASM/IntegrandBase.h b/src/ASM/IntegrandBase.h
index 4fe41c5..808e373 100644
--- a/src/ASM/IntegrandBase.h
+++ b/src/ASM/IntegrandBase.h
@@ -92,7 +92,7 @@ public:
   //! \brief Initializes the global node number mapping for current patch.
   virtual void initNodeMap(const std::vector<int>&) {}
   //! \brief Assigns a secondary integral to be computed (for reaction forces).
-  virtual void setSecondaryInt(GlobalIntegral* = nullptr) {}
+  virtual void setSecondaryInt(GlobalIntegral* gq = nullptr);
   //! \brief Returns the system quantity to be integrated by \a *this.
   virtual GlobalIntegral& getGlobalInt(GlobalIntegral* gq) const;
   //! \brief Interface for initialization of integrand with patch-specific data.
-- 
2.43.0


From ced99f3cb3db04d6d7258ec2a5f3e0a02033715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 35/82] fix: VTF::writeGrid leaked the element block when there
 is no file

---
 src/Utility/VTF.C | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Utility/VTF.C b/src/Utility/VTF.C
index a6a3fdd..612fabd 100644
--- a/src/Utility/VTF.C
+++ b/src/Utility/VTF.C
@@ -275,7 +275,11 @@ int VTF::getNodeBlock (int geomID) const
 bool VTF::writeGrid (const ElementBlock* block, const char* gName,
                      int elemID, int nodeID)
 {
-  if (!myFile) return true;
+  if (!myFile)
+  {
+    delete block;
+    return true;
+  }
   if (!block) return false;
 
   myBlocks.emplace_back(IntPair(elemID, nodeID > 0 ? nodeID : elemID), block);
-- 
2.43.0


From 29aed85603e250a8483128e531db6c14f137fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 36/82] fix: NormBase::setProjectedFields leaked fields with an
 invalid index

---
 src/ASM/IntegrandBase.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ASM/IntegrandBase.C b/src/ASM/IntegrandBase.C
index ee2d200..45ea724 100644
--- a/src/ASM/IntegrandBase.C
+++ b/src/ASM/IntegrandBase.C
@@ -468,6 +468,8 @@ void NormBase::setProjectedFields (Fields* f, size_t idx)
     std::swap(f,prjFld[idx]);
     delete f;
   }
+  else
+    delete f;
 }
 
 
-- 
2.43.0


From 6160716d3c4983585354b4537f23e5543abd4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 37/82] fix: reinitializing an AlgEqSystem leaked its matrices

---
 src/ASM/AlgEqSystem.C | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 4b09384..27cdd32 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -42,13 +42,14 @@ bool AlgEqSystem::init (LinAlg::MatrixType mtype, const LinSolParams* spar,
   else
     preAssemblyFlag = num_threads_SLU < 0 ? 'd' : 0;
 
-  size_t i;
-  for (i = nmat; i < A.size(); i++)
-    delete A[i]._A;
+  for (SysMatrixPair& a : A)
+    delete a._A;
 
+  size_t i;
   for (i = nvec; i < b.size(); i++)
     delete b[i];
 
+  A.clear();
   A.resize(nmat);
   b.resize(nvec,nullptr);
   c.resize(nscl,0.0);
-- 
2.43.0


From 45507cbfb786020c6f08feb370d448ab253a80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 38/82] fix: repeated input definitions leaked the previous
 functions and parameters

---
 Apps/Utils/SIMCoupledSI.h | 1 +
 src/SIM/AdaptiveSetup.C   | 1 +
 src/SIM/SIMinput.C        | 1 +
 3 files changed, 3 insertions(+)

diff --git a/Apps/Utils/SIMCoupledSI.h b/Apps/Utils/SIMCoupledSI.h
index 4181616..f0a6842 100644
--- a/Apps/Utils/SIMCoupledSI.h
+++ b/Apps/Utils/SIMCoupledSI.h
@@ -153,6 +153,7 @@ protected:
       if (func.find_first_of('t') != std::string::npos)
       {
         IFEM::cout <<"\t\tmax = ";
+        delete maxItFunc;
         maxItFunc = utl::parseTimeFunc(func.c_str(),"expression");
       }
 
diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index d99d1b1..6fb48e4 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -128,6 +128,7 @@ bool AdaptiveSetup::parse (const tinyxml2::XMLElement* elem)
       utl::getAttribute(child,"functype",functype);
       if (functype == "expression") {
         IFEM::cout << "\tRefinement function: ";
+        delete betaFunc;
         betaFunc = utl::parseTimeFunc(value,functype,1.0);
       } else
         beta = atof(value);
diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index e7ba7ff..a2093a2 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -954,6 +954,7 @@ bool SIMinput::parse (const tinyxml2::XMLElement* elem)
     result &= mySolParams->read(elem);
     if (GlbL2::MatrixType == LinAlg::PETSC)
     {
+      delete myGl2Params;
       const tinyxml2::XMLElement* l2 = elem->FirstChildElement("l2params");
       if (l2)
       {
-- 
2.43.0


From 167a34bdaf4c95d0cdff1000a499a0e4ad517af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 39/82] fix: restoring the restart state leaked the previous
 force vectors

---
 src/SIM/HHTSIM.C       | 2 ++
 src/SIM/NewmarkNLSIM.C | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 8f53ba4..25443e4 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -304,12 +304,14 @@ bool HHTSIM::deSerialize (const SerializeMap& data)
   SerializeMap::const_iterator sit = data.find("HHT::Finert");
   if (sit == data.end()) return false;
 
+  delete Finert;
   Finert = new StdVector(model.getNoEquations());
   SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
 
   sit = data.find("HHT::Fext");
   if (sit == data.end()) return false;
 
+  delete Fext;
   Fext = new StdVector(model.getNoEquations());
   SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
 
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index a8a395b..c36ddec 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -257,6 +257,7 @@ bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
   SerializeMap::const_iterator sit = data.find("HHT::Finert");
   if (sit == data.end()) return false;
 
+  delete Finert;
   Finert = new StdVector(model.getNoEquations());
   SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
 
-- 
2.43.0


From 1d8f13442779909644bd80850422b6d8bd2488cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 40/82] fix: patch dimensions were used uninitialized for a
 nonexisting basis

---
 Apps/Utils/SIMNodalConstraint.C | 10 +++++-----
 src/ASM/DomainDecomposition.C   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Apps/Utils/SIMNodalConstraint.C b/Apps/Utils/SIMNodalConstraint.C
index a8bace2..2bd93f1 100644
--- a/Apps/Utils/SIMNodalConstraint.C
+++ b/Apps/Utils/SIMNodalConstraint.C
@@ -131,7 +131,7 @@ public:
   //! \copydoc NodalConstraintASMHelper::getCorner
   virtual int getCorner(int vertex, int basis) const
   {
-    int n1, n2, ofs = this->getStartNode(basis);
+    int n1 = 0, n2 = 0, ofs = this->getStartNode(basis);
     static_cast<ASMs2D*>(bpch)->getSize(n1,n2,basis);
     const IntVec idxs = { 1, n1, n1*(n2-1)+1, n1*n2 };
     return bpch->getNodeID(idxs[vertex-1]+ofs);
@@ -140,7 +140,7 @@ public:
   //! \copydoc NodalConstraintASMHelper::constrainEdge
   virtual void constrainEdge(int item, int comp, int basis, int idx)
   {
-    int n1, n2, node = 1 + this->getStartNode(basis);
+    int n1 = 0, n2 = 0, node = 1 + this->getStartNode(basis);
     static_cast<ASMs2D*>(bpch)->getSize(n1,n2,basis);
 
     switch (item) {
@@ -173,7 +173,7 @@ public:
   //! \copydoc NodalConstraintASMHelper::getCorner
   virtual int getCorner(int vertex, int basis) const
   {
-    int n1, n2, n3, ofs = this->getStartNode(basis);
+    int n1 = 0, n2 = 0, n3 = 0, ofs = this->getStartNode(basis);
     static_cast<ASMs3D*>(bpch)->getSize(n1,n2,n3,basis);
     int ofs_j = n1*(n2-1);
     int ofs_k = n1*n2*(n3-1);
@@ -188,7 +188,7 @@ public:
   //! \copydoc NodalConstraintASMHelper::constrainEdge
   virtual void constrainEdge(int item, int comp, int basis, int idx)
   {
-    int n1, n2, n3, node = 1 + this->getStartNode(basis);
+    int n1 = 0, n2 = 0, n3 = 0, node = 1 + this->getStartNode(basis);
     static_cast<ASMs3D*>(bpch)->getSize(n1,n2,n3,basis);
 
     int inc = 1;
@@ -233,7 +233,7 @@ public:
   //! \copydoc NodalConstraintASMHelper::constrainFace
   virtual void constrainFace(int item, int comp, int basis, int idx)
   {
-    int n1, n2, n3, node = 1 + this->getStartNode(basis);
+    int n1 = 0, n2 = 0, n3 = 0, node = 1 + this->getStartNode(basis);
     static_cast<ASMs3D*>(bpch)->getSize(n1,n2,n3,basis);
 
     const std::vector<int> faceDir = {-1, 1, -2, 2, -3, 3};
diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index 8e2735c..5f54793 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -61,7 +61,7 @@ OrientIterator::OrientIterator (const ASMbase* pch,
   }
 
   const ASMstruct* spch = dynamic_cast<const ASMstruct*>(pch);
-  int n1, n2, n3;
+  int n1 = 0, n2 = 0, n3 = 0;
   spch->getSize(n1,n2,n3,basis);
   if (nsd == 3) {
     if (dim == 1) {
-- 
2.43.0


From e6ff2ff4db86d35cf40f424161d717f2c905e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 41/82] fix: searching beyond the last time level used an
 uninitialized time

---
 src/Utility/FieldFunctions.C | 12 ++++++------
 src/Utility/FieldFunctions.h |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index e836e02..f56a2f4 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -74,15 +74,14 @@ int FieldFuncHDF5::findClosestLevel (double time) const
   if (!hasMultipleLevels) return lastLevel;
   if (time == lastTime) return lastLevel;
 #ifdef HAS_HDF5
-  double t;
+  double t = 0.0;
   int incLev = time > lastTime ? 1 : -1;
-  bool ok = true;
-  while (ok)
+  while (true)
   {
     std::stringstream str;
     str << lastLevel+incLev << "/timeinfo/SIMbase-1";
-    ok = hdf5->readDouble(str.str(),t);
-    if (ok && fabs(time-t) >= fabs(time-lastTime))
+    bool ok = hdf5->readDouble(str.str(),t);
+    if (!ok || fabs(time-t) >= fabs(time-lastTime))
     {
 #ifdef SP_DEBUG
       std::cout <<"FieldFuncHDF5: New time level "<< lastLevel
@@ -94,8 +93,9 @@ int FieldFuncHDF5::findClosestLevel (double time) const
     lastTime = t;
     lastLevel += incLev;
   }
-#endif
+#else
   return -1;
+#endif
 }
 
 
diff --git a/src/Utility/FieldFunctions.h b/src/Utility/FieldFunctions.h
index 2bd8311..5440a0f 100644
--- a/src/Utility/FieldFunctions.h
+++ b/src/Utility/FieldFunctions.h
@@ -61,7 +61,7 @@ class FieldFuncHDF5 : public FieldFuncBase
 protected:
   //! \brief Default constructor.
   FieldFuncHDF5() : hasMultipleLevels(false), lastLevel(-1),
-                    hdf5(nullptr), pAdm(nullptr)
+                    hdf5(nullptr), pAdm(nullptr), lastTime(0.0)
   {}
   //! \brief The constructor opens the provided HDF5-file.
   //! \param[in] fileName Name of the HDF5-file
-- 
2.43.0


From 414f664b29f857f790f594eccd13027f12d141c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 42/82] fix: missing texture dimensions and properties gave
 uninitialized values

---
 src/Utility/TextureProperties.C | 2 +-
 src/Utility/TextureProperties.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/TextureProperties.C b/src/Utility/TextureProperties.C
index 7cff33c..e6ef1a4 100644
--- a/src/Utility/TextureProperties.C
+++ b/src/Utility/TextureProperties.C
@@ -55,7 +55,7 @@ void TextureProperties::parse(const tinyxml2::XMLElement* elem)
         continue;
       }
 
-      int nx, ny, nz;
+      int nx = 0, ny = 0, nz = 0;
       utl::getAttribute(child,"nx",nx);
       utl::getAttribute(child,"ny",ny);
       utl::getAttribute(child,"nz",nz);
diff --git a/src/Utility/TextureProperties.h b/src/Utility/TextureProperties.h
index 5bc3a8c..8cb843e 100644
--- a/src/Utility/TextureProperties.h
+++ b/src/Utility/TextureProperties.h
@@ -72,7 +72,7 @@ public:
   //! \param X Position to evaluate in
   double evaluate(const Vec3& X) const override
   {
-    double val;
+    double val = 0.0;
     m_props.getProperty(m_prop, X, val);
     return val;
   }
-- 
2.43.0


From 46782e3c92af0b9fac9ded3421e9f2b8c6d62cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 43/82] fix: fields registered without values were dereferenced
 as garbage

---
 src/Utility/DataExporter.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index c42747a..eacf6d1 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -65,6 +65,7 @@ bool DataExporter::registerField (const std::string& name,
   entry.prefix = prefix;
   if (!prefix.empty())
     entry.prefix += ' ';
+  entry.data = nullptr;
   entry.enabled = true;
   entry.ncmps = ncmps;
   m_entry.insert(std::make_pair(name,entry));
-- 
2.43.0


From ba70dd31bda24bacf7f0bf04504f8989cb01bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 44/82] fix: a copied TimeStep restarted from the first step
 definition

---
 src/SIM/TimeStep.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 65b7457..4d5e309 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -54,7 +54,9 @@ TimeStep& TimeStep::operator= (const TimeStep& ts)
 
   time = ts.time;
   mySteps = ts.mySteps;
-  stepIt = mySteps.begin();
+  // The copy shall proceed from the same point in the step sequence
+  TimeSteps::const_iterator it = ts.stepIt;
+  stepIt = mySteps.begin() + (it - ts.mySteps.begin());
   return *this;
 }
 
-- 
2.43.0


From 571d5061bfaaba8b4767c67353c60476223fe6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 45/82] fix: options were not shared with the third of three
 dependent simulators

---
 src/SIM/SIMadmin.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMadmin.C b/src/SIM/SIMadmin.C
index 04734a2..2ee92ce 100644
--- a/src/SIM/SIMadmin.C
+++ b/src/SIM/SIMadmin.C
@@ -44,7 +44,7 @@ SIMadmin::SIMadmin (const char* heading) : opt(myOpts)
 
 
 SIMadmin::SIMadmin (SIMadmin& anotherSIM) :
-  opt(anotherSIM.myOpts), adm(anotherSIM.adm)
+  opt(anotherSIM.opt), adm(anotherSIM.adm)
 {
   myPid = anotherSIM.myPid;
   nProc = anotherSIM.nProc;
-- 
2.43.0


From 6ffd2ac6eeca0ec581acee2911b156be51093f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 46/82] fix: copies of an AlgEqSystem lost the matrix-vector
 associations

---
 src/ASM/AlgEqSystem.C | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 27cdd32..cd48a2e 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -101,6 +101,9 @@ bool AlgEqSystem::init (LinAlg::MatrixType mtype, const LinSolParams* spar,
 
 AlgEqSystem& AlgEqSystem::copy (const AlgEqSystem& that)
 {
+  if (this == &that)
+    return *this;
+
   for (SysMatrixPair& a : A)
     delete a._A;
 
@@ -123,8 +126,11 @@ AlgEqSystem& AlgEqSystem::copy (const AlgEqSystem& that)
   for (i = 0; i < b.size(); i++)
     b[i] = that.b[i]->copy();
 
-  if (A.size() == 1 && !b.empty())
-    A.front()._b = b.front();
+  // Associate the copied matrices with the copies of their vectors
+  for (i = 0; i < A.size(); i++)
+    for (size_t j = 0; j < b.size(); j++)
+      if (that.A[i]._b == that.b[j])
+        A[i]._b = b[j];
 
   return *this;
 }
-- 
2.43.0


From ff9aa7d31be57d93e2f82a5d0f1cb1901e9f45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 47/82] fix: clones of unstructured Lagrange patches lost the
 element sets

---
 src/ASM/ASMu1DLag.C | 1 +
 src/ASM/ASMu2DLag.C | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ASM/ASMu1DLag.C b/src/ASM/ASMu1DLag.C
index 138bb22..f2fe604 100644
--- a/src/ASM/ASMu1DLag.C
+++ b/src/ASM/ASMu1DLag.C
@@ -28,6 +28,7 @@ ASMu1DLag::ASMu1DLag (unsigned char n_s,
 
 ASMu1DLag::ASMu1DLag (const ASMu1DLag& p, unsigned char n_f) : ASMs1DLag(p,n_f)
 {
+  elemSets = p.elemSets;
   fileType = 0;
 }
 
diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index dac16eb..2012e3e 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -39,6 +39,7 @@ ASMu2DLag::ASMu2DLag (unsigned char n_s,
 
 ASMu2DLag::ASMu2DLag (const ASMu2DLag& p, unsigned char n_f) : ASMs2DLag(p,n_f)
 {
+  elemSets = p.elemSets;
   fileType = 0;
   swapNode34 = p.swapNode34;
 }
-- 
2.43.0


From 3082a56722a14d9cdcff0e1c6caa9b580c8dad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 48/82] fix: ASMu2DLag::getNodeSet accessed the set before the
 first one for index 0

---
 src/ASM/ASMu2DLag.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index 2012e3e..1dba733 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -112,7 +112,7 @@ bool ASMu2DLag::generateFEMTopology ()
 
 bool ASMu2DLag::getNodeSet (int iset, std::string& name) const
 {
-  if (iset < 0 || iset > static_cast<int>(nodeSets.size()))
+  if (iset < 1 || iset > static_cast<int>(nodeSets.size()))
     return false;
   else if (nodeSets[iset-1].second.empty())
     return false;
-- 
2.43.0


From 2832c4d3232e8c3377211626250a08731f43bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 49/82] fix: BlockElmMats::redimOffDiag accepted a block index
 past the last matrix

---
 src/ASM/BlockElmMats.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/BlockElmMats.C b/src/ASM/BlockElmMats.C
index 6e3fa26..7d67d58 100644
--- a/src/ASM/BlockElmMats.C
+++ b/src/ASM/BlockElmMats.C
@@ -51,7 +51,7 @@ bool BlockElmMats::redim (size_t blkIndex, size_t nen, size_t ncmp, char basis)
 bool BlockElmMats::redimOffDiag (size_t blkIndex, char symmetric)
 {
   size_t nDiagB = blockInfo.size();
-  if (blkIndex <= nDiagB || blkIndex > A.size())
+  if (blkIndex <= nDiagB || blkIndex >= A.size())
     return false; // Not an off-diagonal sub-matrix
 
   size_t kb = nDiagB;
-- 
2.43.0


From 34bd0656046bf2a21bac4fd8e6c656a538819157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 50/82] fix: ASM::readMatlab wrote before the arrays for
 invalid node and element numbers

---
 src/ASM/ASMutils.C | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 480b6bf..ed89d0d 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -65,6 +65,11 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
 #if SP_DEBUG > 1
         std::cout << id <<": "<< X << std::endl;
 #endif
+        if (id < 1)
+        {
+          std::cerr <<" *** ASM::readMatlab: Invalid node "<< cline << std::endl;
+          return false;
+        }
         if (id > nodes.size()) nodes.resize(id);
         nodes[id-1] = X;
 
@@ -100,6 +105,11 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
                     <<"-noded elements not supported (ignored).\n";
           continue;
         }
+        if (id < 1)
+        {
+          std::cerr <<" *** ASM::readMatlab: Invalid element "<< cline << std::endl;
+          return false;
+        }
         if (id > MNPC.size()) MNPC.resize(id);
         MNPC[id-1] = mnpc;
         if (cline.back() == ';') break;
-- 
2.43.0


From 0c6cdae47fa1ee111297e865c9b2c9a28c01eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 51/82] fix: AnaSol accessed the last character of an empty
 variables line

---
 src/Utility/AnaSol.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/AnaSol.C b/src/Utility/AnaSol.C
index e76b229..35043ea 100644
--- a/src/Utility/AnaSol.C
+++ b/src/Utility/AnaSol.C
@@ -93,7 +93,7 @@ AnaSol::AnaSol (std::istream& is, const int nlines, bool scalarSol)
     if ((pos = function.find("Variables=")) != std::string::npos)
     {
       variables += function.substr(pos+10);
-      if (variables[variables.size()-1] != ';') variables += ";";
+      if (!variables.empty() && variables.back() != ';') variables += ";";
       IFEM::cout <<"\tVariables: "<< variables << std::endl;
     }
 
-- 
2.43.0


From 7e3b7ecf77c1de6c10012e2256d3d24c4bbfe2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 52/82] fix: EigenModeSIM used only the last of several modes
 with a frequency, and invalid mode numbers as index

---
 src/SIM/EigenModeSIM.C | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/SIM/EigenModeSIM.C b/src/SIM/EigenModeSIM.C
index 9043d7f..6d123df 100644
--- a/src/SIM/EigenModeSIM.C
+++ b/src/SIM/EigenModeSIM.C
@@ -60,17 +60,26 @@ bool EigenModeSIM::parse (const tinyxml2::XMLElement* elem)
       std::vector<int> modes;
       utl::parseIntegers(modes,value);
       utl::getAttribute(child,"scale",scale);
-      std::sort(modes.begin(),modes.end());
-      imode = modes.back();
-      if (imode > amplitude.size())
-        amplitude.resize(imode,0.0);
-      if (freq > epsZ && imode > omega.size())
-        omega.resize(imode,0.0);
       for (int mode : modes)
       {
-        amplitude[mode-1] = scale;
+        if (mode < 1)
+        {
+          std::cerr <<" *** EigenModeSIM::parse: Invalid mode number "<< mode
+                    << std::endl;
+          return false;
+        }
+
+        imode = mode;
+        if (imode > amplitude.size())
+          amplitude.resize(imode,0.0);
+        amplitude[imode-1] = scale;
+
         if (freq > epsZ)
+        {
+          if (imode > omega.size())
+            omega.resize(imode,0.0);
           omega[imode-1] = 2.0*M_PI*freq;
+        }
       }
     }
   }
-- 
2.43.0


From 00c01d7a704e3a97e76ee648a116f2e115a68133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 53/82] fix: ASM::readMatlab took node sets with short names as
 nodes or elements

---
 src/ASM/ASMutils.C | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index ed89d0d..d510254 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -44,6 +44,13 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     return n > 0;
   };
 
+  // Lambda function checking the last characters of a string.
+  auto&& endsWith = [](const std::string& s, const std::string& tail)
+  {
+    return (s.length() >= tail.length() &&
+            s.compare(s.length()-tail.length(),tail.length(),tail) == 0);
+  };
+
   std::string cline;
   if (!readLine(cline,'=') ||
       cline.find("function") == std::string::npos ||
@@ -56,7 +63,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
 
   std::getline(is,cline);
   while (readLine(cline,'['))
-    if (cline.find("Node=") == cline.length()-5)
+    if (endsWith(cline,"Node="))
     {
       while (readLine(cline))
       {
@@ -79,7 +86,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
       std::cout <<"Read "<< nodes.size() <<" nodes."<< std::endl;
 #endif
     }
-    else if (cline.find("Element=") == cline.length()-8)
+    else if (endsWith(cline,"Element="))
     {
       while (readLine(cline))
       {
-- 
2.43.0


From 9c4a958af7f3e686c6349a64c97782df48f0275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 54/82] fix: SAM::getDofVal returned zero for the last DOF

---
 src/LinAlg/SAM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 53f2cac..a6b60a3 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -761,7 +761,7 @@ Real SAM::getDofVal (const RealArray& dofVec, int inod, int ldof) const
 
   int idof = madof[inod-1] + ldof-1;
   int ndof = static_cast<int>(dofVec.size());
-  return idof < madof[inod] && idof < ndof ? dofVec[idof-1] : Real(0);
+  return idof < madof[inod] && idof <= ndof ? dofVec[idof-1] : Real(0);
 }
 
 
-- 
2.43.0


From 48018020a75675617a1520a05d9457c5302af20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 55/82] fix: getInterfaceForces ignored the last DOF of the
 model

---
 src/SIM/SIMgeneric.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMgeneric.C b/src/SIM/SIMgeneric.C
index 80c6b5a..14182e8 100644
--- a/src/SIM/SIMgeneric.C
+++ b/src/SIM/SIMgeneric.C
@@ -93,7 +93,7 @@ RealArray SIMgeneric::getInterfaceForces (const RealArray& sf,
     std::cout << std::endl;
 #endif
     for (unsigned char i = 0; i < nsd; i++, dof.first++)
-      if (dof.first <= dof.second && dof.first < (int)sf.size())
+      if (dof.first <= dof.second && dof.first <= (int)sf.size())
         force[i] += w*sf[dof.first-1];
       else
         break;
-- 
2.43.0


From 5d1431d191650d26f83275f0f36b28c24d50b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 56/82] fix: AnaSol accessed the last character of an empty
 variables element

---
 src/Utility/AnaSol.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/AnaSol.C b/src/Utility/AnaSol.C
index 35043ea..0a2e823 100644
--- a/src/Utility/AnaSol.C
+++ b/src/Utility/AnaSol.C
@@ -188,7 +188,7 @@ void AnaSol::parseExpressionFunctions (const tinyxml2::XMLElement* elem, bool sc
   if (var && var->FirstChild())
   {
     variables = var->FirstChild()->Value();
-    if (variables[variables.size()-1] != ';') variables += ";";
+    if (!variables.empty() && variables.back() != ';') variables += ";";
     IFEM::cout <<"\tVariables: "<< variables << std::endl;
   }
 
-- 
2.43.0


From 1dda3e9b883b958aabdbd295facb172c162f597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 57/82] fix: HHT and nonlinear Newmark restart: save the
 reference norm, accept absent force vectors

---
 src/SIM/HHTSIM.C       | 29 +++++++++++++++++------------
 src/SIM/NewmarkNLSIM.C | 17 ++++++++++-------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 25443e4..9a74c84 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -281,7 +281,7 @@ void HHTSIM::setSolution (const RealArray& newSol, int idx)
 
 bool HHTSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->MultiStepSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -298,22 +298,27 @@ bool HHTSIM::serialize (SerializeMap& data) const
 
 bool HHTSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->MultiStepSIM::deSerialize(data))
     return false;
 
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
-
+  // The force vectors below are stored only if they were allocated
   delete Finert;
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
-
-  sit = data.find("HHT::Fext");
-  if (sit == data.end()) return false;
+  Finert = nullptr;
+  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  if (sit != data.end())
+  {
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
   delete Fext;
-  Fext = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  Fext = nullptr;
+  sit = data.find("HHT::Fext");
+  if (sit != data.end())
+  {
+    Fext = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  }
 
   return true;
 }
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index c36ddec..3d0f6b1 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -238,7 +238,7 @@ void NewmarkNLSIM::setSolution (const RealArray& newSol, int idx)
 
 bool NewmarkNLSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->MultiStepSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -251,15 +251,18 @@ bool NewmarkNLSIM::serialize (SerializeMap& data) const
 
 bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->MultiStepSIM::deSerialize(data))
     return false;
 
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
-
+  // The inertia force vector is stored only if it was allocated
   delete Finert;
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  Finert = nullptr;
+  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  if (sit != data.end())
+  {
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
   return true;
 }
-- 
2.43.0


From d938656900d79b29765c26fe40e6ba78f0adaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 58/82] fix: SIMImplicitLMM: clear the moved load vector
 pointer, it was deleted twice when a step failed

---
 Apps/Utils/SIMImplicitLMM.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index ef27d74..f2f84cc 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -119,6 +119,7 @@ public:
     delete loads.back();
     for (int j = order-2; j >= 0; --j)
       loads[j+1] = loads[j];
+    loads[0] = nullptr; // moved to loads[1], if more than one load vector
 
     return solver.advanceStep(tp);
   }
-- 
2.43.0


From da10cc86afec144d90a41055b97819d47d930548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 59/82] fix: EigenModeSIM lost its start time, and hence the
 phase of the modes, on restart

---
 src/SIM/EigenModeSIM.C | 19 +++++++++++++++++++
 src/SIM/EigenModeSIM.h |  7 +++++++
 2 files changed, 26 insertions(+)

diff --git a/src/SIM/EigenModeSIM.C b/src/SIM/EigenModeSIM.C
index 6d123df..d9cf8ba 100644
--- a/src/SIM/EigenModeSIM.C
+++ b/src/SIM/EigenModeSIM.C
@@ -182,3 +182,22 @@ SIM::ConvStatus EigenModeSIM::solveStep (TimeStep& param, SIM::SolutionMode,
   return this->solutionNorms(param.time,zero_tolerance,outPrec) ?
     SIM::CONVERGED : SIM::FAILURE;
 }
+
+
+bool EigenModeSIM::serialize (SerializeMap& data) const
+{
+  // The start time is needed to preserve the phase of the modes on restart
+  data["EigenModeSIM::start"] = SIMsolution::serialize(&myStart,1);
+
+  return this->MultiStepSIM::serialize(data);
+}
+
+
+bool EigenModeSIM::deSerialize (const SerializeMap& data)
+{
+  SerializeMap::const_iterator sit = data.find("EigenModeSIM::start");
+  if (sit != data.end())
+    SIMsolution::deSerialize(sit->second,&myStart,1);
+
+  return this->MultiStepSIM::deSerialize(data);
+}
diff --git a/src/SIM/EigenModeSIM.h b/src/SIM/EigenModeSIM.h
index cfcd728..e9f0bc3 100644
--- a/src/SIM/EigenModeSIM.h
+++ b/src/SIM/EigenModeSIM.h
@@ -51,6 +51,13 @@ public:
                                     double zero_tolerance,
                                     std::streamsize outPrec);
 
+  //! \brief Serializes the solution state for restarting purposes.
+  //! \param data Container for serialized data
+  virtual bool serialize(SerializeMap& data) const;
+  //! \brief Restores the solution state from a serialized state.
+  //! \param[in] data Container for serialized data
+  virtual bool deSerialize(const SerializeMap& data);
+
 private:
   double              myStart;   //!< The start time of this simulator
   std::vector<Mode>   modes;     //!< Eigenmode shapes and frequencies
-- 
2.43.0


From 917041dec1c07349e298af22686b67530defa68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 60/82] fix: TimeStep restart: the restored time was replaced
 by one recomputed from time zero

---
 src/SIM/TimeStep.C | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 4d5e309..9997846 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -216,7 +216,8 @@ bool TimeStep::reset (int istep)
   if (istep == 0)
     stopTime = mySteps.back().second;
   time.dt = mySteps.front().first.front();
-  time.dtn = time.t = time.CFL = 0.0;
+  time.dtn = time.CFL = 0.0;
+  time.t = starTime;
   for (int i = 0; i < istep; i++)
     if (!this->increment())
       return false;
@@ -381,7 +382,15 @@ bool TimeStep::deSerialize (const std::map<std::string,std::string>& data)
     std::stringstream str(it->second);
     cereal::BinaryInputArchive ar(str);
     doSerializeOps(ar,*this);
-    return this->reset(step);
+    const TimeDomain restored(time);
+    const double restoredCFL = maxCFL;
+    if (!this->reset(step))
+      return false;
+
+    // The actual step sizes might differ from those obtained by the reset
+    time = restored;
+    maxCFL = restoredCFL;
+    return true;
   }
 #endif
   return false;
-- 
2.43.0


From 33ffaa687794022c0186f1169a720430ce5002ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 61/82] fix: NonLinSIM/NewmarkSIM: convergence state was shared
 between all solvers

The tolerance, the previous norm and the divergence counter used by
checkConvergence() were function-local static variables, such that two
solvers iterating in turns (staggered coupling) overwrote each other's.
---
 src/SIM/NewmarkSIM.C | 7 +++----
 src/SIM/NewmarkSIM.h | 5 +++++
 src/SIM/NonLinSIM.C  | 7 +++----
 src/SIM/NonLinSIM.h  | 5 +++++
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 073e802..d58c68c 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -62,6 +62,9 @@ NewmarkSIM::NewmarkSIM (SIMbase& sim) : MultiStepSIM(sim)
   // Factorized Newton matrix storage options
   read_factor = write_factor = false;
   fmt = LinAlg::FLAT;
+
+  convTol = prevNorm = 0.0;
+  nIncrease = 0;
 }
 
 
@@ -543,10 +546,6 @@ SIM::ConvStatus NewmarkSIM::solveIteration (TimeStep& param)
 
 SIM::ConvStatus NewmarkSIM::checkConvergence (TimeStep& param)
 {
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   double norms[3];
   model.iterationNorms(linsol,residual,norms[0],norms[1],norms[2]);
   double norm = norms[cNorm];
diff --git a/src/SIM/NewmarkSIM.h b/src/SIM/NewmarkSIM.h
index 700e1e6..51cfdc3 100644
--- a/src/SIM/NewmarkSIM.h
+++ b/src/SIM/NewmarkSIM.h
@@ -126,6 +126,11 @@ protected:
   bool read_factor;          //!< If \e true, read factorized Newton matrix
   LinAlg::StorageFormat fmt; //!< Factorized Newton matrix storage format
 
+private:
+  double convTol;   //!< Convergence tolerance of current step
+  double prevNorm;  //!< Convergence norm of previous iteration
+  int    nIncrease; //!< Number of consecutive iterations with increasing norm
+
 public:
   static const char* inputContext; //!< Input file context for solver parameters
 };
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 6d1ec40..226b680 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -38,6 +38,9 @@ NonLinSIM::NonLinSIM (SIMbase& sim, CNORM n) : MultiStepSIM(sim), iteNorm(n)
   alpha   = alphaO = 1.0;
   eta     = 0.0;
   updNewN = saveExL = false;
+
+  convTol = prevNorm = 0.0;
+  nIncrease = 0;
 }
 
 
@@ -416,10 +419,6 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
   if (iteNorm <= NONE)
     return CONVERGED; // No iterations, we are solving a linear problem
 
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   ConvStatus status = OK;
   double enorm, resNorm, linsolNorm;
   model.iterationNorms(linsol,residual,enorm,resNorm,linsolNorm);
diff --git a/src/SIM/NonLinSIM.h b/src/SIM/NonLinSIM.h
index 13c01b6..7d39612 100644
--- a/src/SIM/NonLinSIM.h
+++ b/src/SIM/NonLinSIM.h
@@ -133,6 +133,11 @@ protected:
 
   std::map<int,int> slowNodes; //!< Nodes for which slow convergence is detected
 
+private:
+  double convTol;   //!< Convergence tolerance of current step
+  double prevNorm;  //!< Convergence norm of previous iteration
+  int    nIncrease; //!< Number of consecutive iterations with increasing norm
+
 public:
   static const char* inputContext; //!< Input file context for solver parameters
 };
-- 
2.43.0


From 0a0baf553202440a142c4d06b67d7955c71d1a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 62/82] fix: HDF5Writer: the active element counts were shared
 between all simulators

The counts were kept in a function-local static vector sized by the first
simulator written. A second one with more patches accessed it out of bounds,
and its element masks were only written if it had more active elements.
---
 src/Utility/HDF5Writer.C | 4 ++--
 src/Utility/HDF5Writer.h | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index c21cd5f..d60dff9 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -317,8 +317,8 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     field.fill(pchVec.ptr());
   };
 
-  static std::vector<size_t> old_count;
-  if ((results & DataExporter::ELEMENT_MASK) && old_count.empty())
+  std::vector<size_t>& old_count = m_active[entry.first];
+  if (results & DataExporter::ELEMENT_MASK)
     old_count.resize(sim->getNoPatches(),0);
 
   const IntegrandBase* prob = sim->getProblem();
diff --git a/src/Utility/HDF5Writer.h b/src/Utility/HDF5Writer.h
index 1507c44..166acfa 100644
--- a/src/Utility/HDF5Writer.h
+++ b/src/Utility/HDF5Writer.h
@@ -130,6 +130,8 @@ protected:
 
 private:
   unsigned int m_flag; //!< The file flags to open HDF5 file with
+  //! Number of active elements in each patch of each simulator when last written
+  std::map<std::string,std::vector<size_t>> m_active;
 #endif
 };
 
-- 
2.43.0


From 3e87953923e38fc3fc40647e836a778becb5f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 63/82] fix: ASMu2DLag::integrate: a failed element could be
 masked by another thread's success

---
 src/ASM/ASMu2DLag.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index 1dba733..35e59f3 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -529,8 +529,8 @@ bool ASMu2DLag::integrate (Integrand& integrand,
   for (size_t t = 0; t < group.size() && ok; t++)
 #pragma omp parallel for schedule(static)
     for (int iel : group[t])
-      if (ok)
-        ok = this->integrateElm(integrand,glInt,iel,cache,time);
+      if (ok && !this->integrateElm(integrand,glInt,iel,cache,time))
+        ok = false;
 
   if (ASM::cachePolicy == ASM::PRE_CACHE)
     cache.clear();
-- 
2.43.0


From 26b7888bc81dff7fa59f0ec9b4413cb996149218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 64/82] fix: NodeVecFunc: guard the point-to-node cache,
 evaluated from several threads

---
 src/SIM/NodeVecFunc.C | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/SIM/NodeVecFunc.C b/src/SIM/NodeVecFunc.C
index c8dc561..ff8ee5d 100644
--- a/src/SIM/NodeVecFunc.C
+++ b/src/SIM/NodeVecFunc.C
@@ -58,16 +58,22 @@ std::pair<int,int> NodeVecFunc::getPointIndex (const Vec3& Xp) const
     }
   }
 
-  // Search among the earlier nodes found
-  std::map<Vec3,int>::const_iterator it = ptMap.find(Xp);
-  if (it != ptMap.end()) return { x4 ? x4->idx : 0, it->second };
+  int node = 0;
+#pragma omp critical(NodeVecFuncMap)
+  {
+    // Search among the earlier nodes found
+    std::map<Vec3,int>::const_iterator it = ptMap.find(Xp);
+    if (it != ptMap.end())
+      node = it->second;
 
-  // Not found, search among all nodes in the model
-  const ASMbase* pch = nullptr;
-  for (size_t i = 1; (pch = model.getPatch(i)); i++)
-    for (size_t inod = 1; inod <= pch->getNoNodes(); inod++)
-      if (Xp.equal(pch->getCoord(inod)))
-        return { x4 ? x4->idx : 0, (ptMap[Xp] = pch->getNodeID(inod)) };
+    // Not found, search among all nodes in the model
+    const ASMbase* pch = nullptr;
+    for (size_t i = 1; node == 0 && (pch = model.getPatch(i)); i++)
+      for (size_t inod = 1; node == 0 && inod <= pch->getNoNodes(); inod++)
+        if (Xp.equal(pch->getCoord(inod)))
+          node = ptMap[Xp] = pch->getNodeID(inod);
+  }
+  if (node > 0) return { x4 ? x4->idx : 0, node };
 
   std::cerr <<" *** NodeVecFunc::getPointIndex: No nodes matches the point "
             << Xp << std::endl;
-- 
2.43.0


From 4f2a568b7123e5fe38237a266994b83547a661bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 65/82] fix: FieldFunctions: guard the loading of a new time
 level during evaluation

---
 src/Utility/FieldFunctions.C | 124 ++++++++++++++++-------------------
 src/Utility/FieldFunctions.h |   8 +++
 2 files changed, 65 insertions(+), 67 deletions(-)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index f56a2f4..9909d41 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -288,6 +288,23 @@ void FieldFuncScalarBase::addPatchField (ASMbase* pch,
 }
 
 
+bool FieldFuncScalarBase::updateLevel (double time)
+{
+  bool ok = false;
+#pragma omp critical(FieldFuncLoad)
+  if (pidx < field.size() && field[pidx])
+  {
+    int level = this->findClosestLevel(time);
+    if (level >= 0 && level != currentLevel)
+      if (this->load({fName},bName,level))
+        currentLevel = level;
+    ok = level >= 0 && pidx < field.size() && field[pidx];
+  }
+
+  return ok;
+}
+
+
 FieldFunction::FieldFunction (const std::string& fileName,
                               const std::string& basisName,
                               const std::string& fieldName,
@@ -308,19 +325,17 @@ FieldFunction::FieldFunction (const std::vector<Field*>& fields)
 
 Real FieldFunction::evaluate (const Vec3& X) const
 {
-  if (pidx >= field.size() || !field[pidx])
-    return Real(0);
-
   const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
-  if (!x4)
+  if (x4)
+  {
+    if (!const_cast<FieldFunction*>(this)->updateLevel(x4->t))
+      return Real(0);
+  }
+  else if (pidx >= field.size() || !field[pidx])
+    return Real(0);
+  else
     return field[pidx]->valueCoor(X);
 
-  int level = this->findClosestLevel(x4->t);
-  if (level < 0) return Real(0);
-  if (level != currentLevel)
-    if (const_cast<FieldFunction*>(this)->load({fName},bName,level))
-      currentLevel = level;
-
   if (x4->idx > 0)
     return field[pidx]->valueNode(x4->idx);
   else
@@ -330,19 +345,10 @@ Real FieldFunction::evaluate (const Vec3& X) const
 
 Vec3 FieldFunction::gradient (const Vec3& X) const
 {
-  if (pidx >= field.size() || !field[pidx])
-    return Vec3();
-
   const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
-  if (!x4)
+  if (!x4 || !const_cast<FieldFunction*>(this)->updateLevel(x4->t))
     return Vec3();
 
-  int level = this->findClosestLevel(x4->t);
-  if (level < 0) return Vec3();
-  if (level != currentLevel)
-    if (const_cast<FieldFunction*>(this)->load({fName},bName,level))
-      currentLevel = level;
-
   Vector res;
   field[pidx]->gradFE(ItgPoint(x4->u, x4->idx), res);
 
@@ -352,19 +358,10 @@ Vec3 FieldFunction::gradient (const Vec3& X) const
 
 SymmTensor FieldFunction::hessian (const Vec3& X) const
 {
-  if (pidx >= field.size() || !field[pidx])
-    return SymmTensor(3);
-
   const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
-  if (!x4)
+  if (!x4 || !const_cast<FieldFunction*>(this)->updateLevel(x4->t))
     return SymmTensor(3);
 
-  int level = this->findClosestLevel(x4->t);
-  if (level < 0) return SymmTensor(3);
-  if (level != currentLevel)
-    if (const_cast<FieldFunction*>(this)->load({fName},bName,level))
-      currentLevel = level;
-
   Matrix hess;
   field[pidx]->hessianFE(ItgPoint(x4->u), hess);
 
@@ -451,23 +448,34 @@ void FieldsFuncBase::addPatchField (ASMbase* pch,
 }
 
 
+bool FieldsFuncBase::updateLevel (double time)
+{
+  bool ok = false;
+#pragma omp critical(FieldFuncLoad)
+  if (pidx < field.size() && field[pidx])
+  {
+    int level = this->findClosestLevel(time);
+    if (level >= 0 && level != currentLevel)
+      if (this->load(fName,bName,level))
+        currentLevel = level;
+    ok = level >= 0 && pidx < field.size() && field[pidx];
+  }
+
+  return ok;
+}
+
+
 RealArray FieldsFuncBase::getValues (const Vec3& X)
 {
   Vector vals;
-  if (pidx >= field.size() || !field[pidx])
-    return vals;
-
   const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
   if (!x4)
-    field[pidx]->valueCoor(X,vals);
-  else
   {
-    int level = this->findClosestLevel(x4->t);
-    if (level < 0) return vals;
-    if (level != currentLevel)
-      if (this->load(fName,bName,level))
-        currentLevel = level;
-
+    if (pidx < field.size() && field[pidx])
+      field[pidx]->valueCoor(X,vals);
+  }
+  else if (this->updateLevel(x4->t))
+  {
     if (x4->idx > 0)
       field[pidx]->valueNode(x4->idx,vals);
     else
@@ -481,15 +489,9 @@ RealArray FieldsFuncBase::getValues (const Vec3& X)
 std::vector<Real> FieldsFuncBase::getGradient (const Vec3& X) const
 {
   const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
-  if (!x4 || pidx >= field.size() || !field[pidx])
+  if (!x4 || !const_cast<FieldsFuncBase*>(this)->updateLevel(x4->t))
     return {};
 
-  int level = this->findClosestLevel(x4->t);
-  if (level < 0) return {};
-  if (level != currentLevel)
-    if (const_cast<FieldsFuncBase*>(this)->load(fName,bName,level))
-      currentLevel = level;
-
   Matrix res;
   field[pidx]->gradFE(ItgPoint(x4->u), res);
   return res;
@@ -499,15 +501,9 @@ std::vector<Real> FieldsFuncBase::getGradient (const Vec3& X) const
 std::vector<Real> FieldsFuncBase::getHessian (const Vec3& X) const
 {
   const Vec4* x4 = dynamic_cast<const Vec4*>(&X);
-  if (!x4 || pidx >= field.size() || !field[pidx])
+  if (!x4 || !const_cast<FieldsFuncBase*>(this)->updateLevel(x4->t))
     return {};
 
-  int level = this->findClosestLevel(x4->t);
-  if (level < 0) return {};
-  if (level != currentLevel)
-    if (const_cast<FieldsFuncBase*>(this)->load(fName,bName,level))
-      currentLevel = level;
-
   Matrix3D res;
   field[pidx]->hessianFE(ItgPoint(x4->u), res);
   return res;
@@ -535,10 +531,8 @@ VecFieldFunction::VecFieldFunction (const std::vector<Fields*>& fields)
 
 Vec3 VecFieldFunction::evaluate (const Vec3& X) const
 {
-  if (pidx >= field.size() || !field[pidx])
-    return Vec3();
-
-  return Vec3(const_cast<VecFieldFunction*>(this)->getValues(X).data(),ncmp);
+  RealArray vals = const_cast<VecFieldFunction*>(this)->getValues(X);
+  return vals.size() < ncmp ? Vec3() : Vec3(vals.data(),ncmp);
 }
 
 
@@ -626,10 +620,8 @@ TensorFieldFunction::TensorFieldFunction (const std::string& fileName,
 
 Tensor TensorFieldFunction::evaluate (const Vec3& X) const
 {
-  if (pidx >= field.size() || !field[pidx])
-    return Tensor(3);
-
-  return const_cast<TensorFieldFunction*>(this)->getValues(X);
+  RealArray vals = const_cast<TensorFieldFunction*>(this)->getValues(X);
+  return vals.empty() ? Tensor(3) : Tensor(vals);
 }
 
 
@@ -714,8 +706,6 @@ STensorFieldFunction::STensorFieldFunction (const std::string& fileName,
 
 SymmTensor STensorFieldFunction::evaluate (const Vec3& X) const
 {
-  if (pidx >= field.size() || !field[pidx])
-    return SymmTensor(3);
-
-  return const_cast<STensorFieldFunction*>(this)->getValues(X);
+  RealArray vals = const_cast<STensorFieldFunction*>(this)->getValues(X);
+  return vals.empty() ? SymmTensor(3) : SymmTensor(vals);
 }
diff --git a/src/Utility/FieldFunctions.h b/src/Utility/FieldFunctions.h
index 5440a0f..29535ed 100644
--- a/src/Utility/FieldFunctions.h
+++ b/src/Utility/FieldFunctions.h
@@ -140,6 +140,10 @@ protected:
   //! \brief Non-virtual actual implementation of clearField()
   void clearFieldInt();
 
+  //! \brief Loads the field of the time level closest to the specified time.
+  //! \return \e false if there is no field for the current patch at that time
+  bool updateLevel(double time);
+
   mutable int currentLevel; //!< Current time level to evaluate at
 
   std::string fName; //!< Name of field
@@ -249,6 +253,10 @@ protected:
   //! \brief Clears the field container.
   virtual void clearField();
 
+  //! \brief Loads the field of the time level closest to the specified time.
+  //! \return \e false if there is no field for the current patch at that time
+  bool updateLevel(double time);
+
   //! \brief Evaluates the field at the givent point \b X.
   std::vector<Real> getValues(const Vec3& X);
 
-- 
2.43.0


From 0360bc43ecd285f13d7a8f19f8320956834b0d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 66/82] fix: GaussQuadrature: the 10-point rule was given with
 eight digits only

---
 src/Utility/GaussQuadrature.C | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/Utility/GaussQuadrature.C b/src/Utility/GaussQuadrature.C
index 3e746f3..4d2c65e 100644
--- a/src/Utility/GaussQuadrature.C
+++ b/src/Utility/GaussQuadrature.C
@@ -171,28 +171,28 @@ static double G9[2][9] = {{
 //! \brief 10-point rule.
 static double G10[2][10] = {{
   // coord
- -0.97390653,
- -0.86506337,
- -0.67940957,
- -0.43339539,
- -0.14887434,
-  0.14887434,
-  0.43339539,
-  0.67940957,
-  0.86506337,
-  0.97390653
+ -0.97390652851717172008,
+ -0.86506336668898451073,
+ -0.67940956829902440623,
+ -0.43339539412924719080,
+ -0.14887433898163121088,
+  0.14887433898163121088,
+  0.43339539412924719080,
+  0.67940956829902440623,
+  0.86506336668898451073,
+  0.97390652851717172008
   // weight
 },{
-  0.06667134,
-  0.14945135,
-  0.21908636,
-  0.26926672,
-  0.29552422,
-  0.29552422,
-  0.26926672,
-  0.21908636,
-  0.14945135,
-  0.06667134
+  0.066671344308688137594,
+  0.14945134915058059315,
+  0.21908636251598204400,
+  0.26926671930999635509,
+  0.29552422471475287017,
+  0.29552422471475287017,
+  0.26926671930999635509,
+  0.21908636251598204400,
+  0.14945134915058059315,
+  0.066671344308688137594
 }};
 
 
-- 
2.43.0


From fd436501c635746ed77c7969dd4d5738f5119f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 67/82] fix: TriangleQuadrature: two points of the 3-point rule
 coincided

---
 src/Utility/TriangleQuadrature.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/TriangleQuadrature.C b/src/Utility/TriangleQuadrature.C
index d175404..33d67f8 100644
--- a/src/Utility/TriangleQuadrature.C
+++ b/src/Utility/TriangleQuadrature.C
@@ -22,7 +22,7 @@ static const double W1[1] = { 1.0 };
 
 //! \brief 3-point rule coordinates.
 static const double T3[6] = {
-  0.5, 0.5,
+  0.5, 0.0,
   0.5, 0.5,
   0.0, 0.5
 };
-- 
2.43.0


From 8c2ada7fff62ceec276635d0a8703ae206426063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:33 +0000
Subject: [PATCH 68/82] fix: HHTSIM: correct the predicted velocity and
 acceleration in the first update

The corrected velocity and acceleration were only formed from the predicted
values when iter==1 and not converged. A step converging in the very first
solve, or a second set of sub-iterations, thus used the wrong values.
---
 src/SIM/HHTSIM.C | 6 +++++-
 src/SIM/HHTSIM.h | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 9a74c84..1d63eb4 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -30,6 +30,7 @@ HHTSIM::HHTSIM (SIMbase& sim) : NewmarkSIM(sim), Finert(nullptr), Fext(nullptr)
   predictor = 'd'; // default predictor (constant displacement)
 
   pV = pA = 0;
+  predicted = false;
 }
 
 
@@ -194,6 +195,7 @@ bool HHTSIM::predictStep (TimeStep& param)
 #endif
 
   incDis.fill(0.0);
+  predicted = true;
   return true;
 }
 
@@ -208,8 +210,10 @@ bool HHTSIM::correctStep (TimeStep& param, bool converged)
   const unsigned short int iV = 1;
   const unsigned short int iA = 2;
 
-  if (param.iter == 1 && !converged)
+  if (predicted)
   {
+    // First update after the predictor step (regardless of convergence)
+    predicted = false;
     // V_n = v_n^1 = v_{n-1} - V_n
     // A_n = a_n^1 = a_{n-1} - A_n
     solution[pV] = solution[iV].add(solution[pV],-1.0);
diff --git a/src/SIM/HHTSIM.h b/src/SIM/HHTSIM.h
index bfdfffa..9de1516 100644
--- a/src/SIM/HHTSIM.h
+++ b/src/SIM/HHTSIM.h
@@ -222,6 +222,8 @@ private:
   unsigned short int pA; //!< Index to predicted acceleration vector
   unsigned short int pV; //!< Index to predicted velocity vector
 
+  bool predicted; //!< If \e true, no correction since last predictor step
+
   Vector incDis;  //!< Incremental displacement vector
 
   SystemVector* Finert; //!< Actual inertia forces in last converged time step
-- 
2.43.0


From 2c01f64e26a72c3771242ba81285c7462457e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:34 +0000
Subject: [PATCH 69/82] fix: AlgEqSystem: release the scalar buffers of an
 assembly that was never finalized

---
 src/ASM/AlgEqSystem.C | 6 ++++++
 src/ASM/AlgEqSystem.h | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index cd48a2e..93e8e2e 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -114,6 +114,8 @@ AlgEqSystem& AlgEqSystem::copy (const AlgEqSystem& that)
   b.resize(that.b.size(),nullptr);
   c = that.c;
   R = that.R;
+  if (d != &c)
+    delete[] d;
   d = nullptr;
 
   size_t i;
@@ -204,6 +206,10 @@ void AlgEqSystem::initialize (char initLHS)
   std::fill(c.begin(),c.end(),0.0);
   std::fill(R.begin(),R.end(),0.0);
 
+  if (d != &c)
+    delete[] d; // in case the previous assembly was never finalized
+  d = nullptr;
+
   if (c.empty())
     return;
 
diff --git a/src/ASM/AlgEqSystem.h b/src/ASM/AlgEqSystem.h
index 3e2b361..7c579f6 100644
--- a/src/ASM/AlgEqSystem.h
+++ b/src/ASM/AlgEqSystem.h
@@ -35,7 +35,10 @@ public:
   //! \brief The constructor sets its reference to SAM and ProcessAdm objects.
   explicit AlgEqSystem(const SAM& s, const ProcessAdm* a = nullptr);
   //! \brief Copy constructor.
-  AlgEqSystem(const AlgEqSystem& a) : sam(a.sam), adm(a.adm) { this->copy(a); }
+  AlgEqSystem(const AlgEqSystem& a) : sam(a.sam), adm(a.adm), d(nullptr)
+  {
+    this->copy(a);
+  }
   //! \brief The destructor frees the dynamically allocated objects.
   virtual ~AlgEqSystem() { this->clear(); }
 
-- 
2.43.0


From 644862ea8ddea933f0c53c74f484b2b849da2e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:25 +0000
Subject: [PATCH 70/82] fix: ASMbase::addMPC dereferenced an erased iterator to
 delete the replaced MPC

---
 src/ASM/ASMbase.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index fc8e667..dc85638 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -562,9 +562,10 @@ bool ASMbase::addMPC (MPC*& mpc, int code, bool verbose, bool overrideD)
     if (verbose)
       std::cout <<"Replacing constraint "<< **mit.first <<" by "<< *mpc;
 #endif
-    dCode.erase(*mit.first);
+    MPC* oldMPC = *mit.first;
+    dCode.erase(oldMPC);
     mpcs.erase(mit.first);
-    delete *mit.first;
+    delete oldMPC;
     mpcs.insert(mpc);
     if (code > 0) dCode[mpc] = code;
     return true;
-- 
2.43.0


From bdc28f9a71a660ebf06a312efdf92ff9a3710c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:23 +0000
Subject: [PATCH 71/82] fix: ASMs2DC1::constrainCorner did not override the
 virtual of ASMs2D

The base class method has a fifth parameter (the basis), such that a corner
constraint on a C1-continuous patch invoked the base class version, which does
not fix the two neighboring nodes. The selection of the neighbor in the second
parameter direction is corrected also (J is -1 or 1).
---
 src/ASM/ASMs2DC1.C | 4 ++--
 src/ASM/ASMs2DC1.h | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ASM/ASMs2DC1.C b/src/ASM/ASMs2DC1.C
index a8168d2..c035bc5 100644
--- a/src/ASM/ASMs2DC1.C
+++ b/src/ASM/ASMs2DC1.C
@@ -228,7 +228,7 @@ void ASMs2DC1::constrainEdge (int dir, bool open, int dof, int code, char)
 }
 
 
-void ASMs2DC1::constrainCorner (int I, int J, int dof, int code)
+void ASMs2DC1::constrainCorner (int I, int J, int dof, int code, char)
 {
   int n1, n2;
   if (!this->getSize(n1,n2)) return;
@@ -242,7 +242,7 @@ void ASMs2DC1::constrainCorner (int I, int J, int dof, int code)
 
   // Also fix the two neighboring nodes
   this->prescribe(I > 0 ? node-1  : node+1 , dof/1000,0);
-  this->prescribe(J > 1 ? node-n1 : node+n1, dof/1000,0);
+  this->prescribe(J > 0 ? node-n1 : node+n1, dof/1000,0);
 }
 
 
diff --git a/src/ASM/ASMs2DC1.h b/src/ASM/ASMs2DC1.h
index 78855d4..2f8fd55 100644
--- a/src/ASM/ASMs2DC1.h
+++ b/src/ASM/ASMs2DC1.h
@@ -65,7 +65,8 @@ public:
   //! \details The sign of the two indices is used to define whether we want
   //! the node at the beginning or the end of that parameter direction.
   //! The magnitude of the indices are not used.
-  virtual void constrainCorner(int I, int J, int dof = 12, int code = 0);
+  virtual void constrainCorner(int I, int J, int dof = 12, int code = 0,
+                               char = 1);
   //! \brief Constrains a node identified by two relative parameter values.
   //! \param[in] xi Parameter in u-direction
   //! \param[in] eta Parameter in v-direction
-- 
2.43.0


From 240ae5bde5107d66443f1f873e6ae18351836a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 72/82] fix: ControlFIFO::poll wrote past its buffer when a
 message filled it

---
 src/Utility/ControlFIFO.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/ControlFIFO.C b/src/Utility/ControlFIFO.C
index 1beba48..1125f12 100644
--- a/src/Utility/ControlFIFO.C
+++ b/src/Utility/ControlFIFO.C
@@ -55,7 +55,7 @@ void ControlFIFO::poll ()
 
   char temp[2048];
   temp[0] = '\0';
-  int len = read(fifo, temp, 2048);
+  int len = read(fifo, temp, sizeof(temp)-1);
   if (len < 0)
     return;
 
-- 
2.43.0


From e093e42f64d56fc1f43a2ec025cda552fc13771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 73/82] fix: utl::invert overran the matrix when it is not
 square

---
 src/LinAlg/MatVec.C | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/MatVec.C b/src/LinAlg/MatVec.C
index 17fbbd8..450b454 100644
--- a/src/LinAlg/MatVec.C
+++ b/src/LinAlg/MatVec.C
@@ -161,8 +161,15 @@ bool utl::invert (Matrix& A)
     return false;
   }
 
+  if (A.rows() != A.cols())
+  {
+    std::cerr <<" *** utl::invert: Not a square matrix "
+              << A.rows() <<"x"<< A.cols() << std::endl;
+    return false;
+  }
+
   // Use LAPack/BLAS for larger matrices
-  int INFO, N = A.rows() > A.cols() ? A.rows() : A.cols();
+  int INFO, N = A.rows();
   int* IPIV = (int*)alloca(N*sizeof(int));
   dgetrf_(N,N,A.ptr(),A.rows(),IPIV,INFO);
   if (INFO != 0)
-- 
2.43.0


From f1b6c98db20ab622b1312231334efb4542f7091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 74/82] fix: SAM::printMEQN overran its text buffers for nodes
 with seven DOFs or more

---
 src/LinAlg/SAM.C | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index a6b60a3..2d675f2 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -181,23 +181,24 @@ void SAM::printMEQN (std::ostream& os) const
 {
   if (meqn && madof && nnod > 0 && neq > 0)
   {
-    char code[7], dofType[7];
+    std::string code, dofType;
     os <<"\nNode --> Equations";
     for (int n = 0; n < nnod; n++)
     {
-      int dof, i = 0;
+      code.clear();
+      dofType.clear();
       os <<'\n'<< std::setw(4) << (minex ? minex[n] : n+1) <<":";
-      for (dof = madof[n]; dof < madof[n+1]; dof++, i++)
+      for (int dof = madof[n]; dof < madof[n+1]; dof++)
       {
 	os <<' '<< std::setw(4) << meqn[dof-1];
-	code[i] = msc[dof-1] > 0 ? '0' + msc[dof-1] : '0';
-	dofType[i] = !dof_type.empty() ? dof_type[dof-1] : '\0';
+	code += msc[dof-1] > 0 ? '0' + msc[dof-1] : '0';
+	if (!dof_type.empty())
+	  dofType += dof_type[dof-1];
       }
-      code[i] = dofType[i] = '\0';
       os <<'\t'<< code;
       if (n < static_cast<int>(nodeType.size()))
         os <<'\t'<< nodeType[n];
-      if (strlen(dofType) > 0)
+      if (!dofType.empty())
         os <<'\t' << dofType;
     }
     os << std::endl;
-- 
2.43.0


From 91ee2c489980227127eb82a69f945b11f36080f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 75/82] fix: AdaptiveSetup::writeMesh overran its file name
 buffers

---
 src/SIM/AdaptiveSetup.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index 6fb48e4..a3f809f 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -533,7 +533,7 @@ bool AdaptiveSetup::writeMesh (int iStep) const
   if (storeMesh%2)
   {
     // Write all patches to the same file
-    char suffix[8];
+    char suffix[16];
     sprintf(suffix,"_%03d.lr",iStep);
     std::ofstream os(mshPrefix+suffix);
     model.dumpGeometry(os);
@@ -542,11 +542,11 @@ bool AdaptiveSetup::writeMesh (int iStep) const
   if (storeMesh > 2)
     for (ASMbase* pch : model.getFEModel())
     {
-      char patchFile[256];
+      char suffix[16];
+      sprintf(suffix,"_%03d",iStep);
+      std::string patchFile = mshPrefix + suffix;
       if (model.getNoPatches() > 1)
-        sprintf(patchFile,"%zu_%s_%03d",pch->idx+1,mshPrefix.c_str(),iStep);
-      else
-        sprintf(patchFile,"%s_%03d",mshPrefix.c_str(),iStep);
+        patchFile = std::to_string(pch->idx+1) + "_" + patchFile;
       dynamic_cast<ASMunstruct*>(pch)->storeMesh(patchFile,storeMesh/2);
     }
 
-- 
2.43.0


From e8a6fb1b787e39a51f5c4908e676f707a08b85b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 76/82] fix: SIMSolverTS::dumpMesh overran the input file name
 and its file name buffer

---
 Apps/Utils/SIMSolverTS.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Apps/Utils/SIMSolverTS.h b/Apps/Utils/SIMSolverTS.h
index 67ef98a..a10f681 100644
--- a/Apps/Utils/SIMSolverTS.h
+++ b/Apps/Utils/SIMSolverTS.h
@@ -253,15 +253,19 @@ protected:
     if (dumpGrid < 1)
       return true;
     else if (dumpGrid == 1) // Dump the final grid only
-      return done ? this->S1.dumpMesh(strcat(strtok(infile,"."),".lr")) : true;
+    {
+      if (!done) return true;
+      std::string fileName(strtok(infile,"."));
+      return this->S1.dumpMesh((fileName+".lr").c_str());
+    }
     else if (done)
       return true;
 
     // Dump grid after each refinement step
-    char fileName[128];
     static int gridNo = 1;
-    sprintf(fileName,"%s_m%d.lr",strtok(infile,"."),++gridNo);
-    return this->S1.dumpMesh(fileName);
+    std::string fileName(strtok(infile,"."));
+    fileName += "_m" + std::to_string(++gridNo) + ".lr";
+    return this->S1.dumpMesh(fileName.c_str());
   }
 
 private:
-- 
2.43.0


From f5193ad8e9d1c36a047e26ccc9a5bf82fa54de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:33 +0000
Subject: [PATCH 77/82] fix: SAM::getNodeAndLocalDof was off by one DOF when
 given an equation number

---
 src/LinAlg/SAM.C       | 2 +-
 src/LinAlg/SPRMatrix.C | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 2d675f2..697a248 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -103,7 +103,7 @@ std::pair<int,int> SAM::getNodeAndLocalDof (int idof, bool eqno) const
   if (eqno)
   {
     if (int* eq = std::find(meqn,meqn+ndof,idof); eq != meqn+ndof)
-      idof = std::distance(meqn,eq);
+      idof = std::distance(meqn,eq) + 1;
     else
       return { 0, 0 };
   }
diff --git a/src/LinAlg/SPRMatrix.C b/src/LinAlg/SPRMatrix.C
index 026ba0b..c25e270 100644
--- a/src/LinAlg/SPRMatrix.C
+++ b/src/LinAlg/SPRMatrix.C
@@ -260,7 +260,7 @@ std::pair<int,int> SPRMatrix::SAM64::getNodeAndLocalDof (int ieq, bool) const
   const Int_ nnod = mpar[0];
   const Int_ ndof = mpar[2];
   if (Int_* idof = std::find(meqn,meqn+ndof,ieq); idof != meqn+ndof)
-    ieq = std::distance(meqn,idof);
+    ieq = std::distance(meqn,idof) + 1;
   else
     return { 0, 0 };
 
-- 
2.43.0


From db0c8285df30ee3a5f9f617e36a50a1de14ddb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:34 +0000
Subject: [PATCH 78/82] fix: report a failed read of the partitioning file

A truncated partitioning file left the remaining element indices at zero,
and parsing went on as if the file had been read completely.
---
 src/SIM/SIMinput.C | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index a2093a2..b3b99b4 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -218,6 +218,13 @@ bool SIMinput::parseGeometryTag (const tinyxml2::XMLElement* elem)
         for (int& iel : elms)
           ifs.read(reinterpret_cast<char*>(&iel), sizeof(int));
 
+        if (!ifs)
+        {
+          std::cerr <<"\n *** SIMinput::parseGeometryTag: Failure reading"
+                    <<" partitioning file "<< file << std::endl;
+          return false;
+        }
+
         IFEM::cout <<", size = "<< elms.size() << std::endl;
       }
       bool save = false;
-- 
2.43.0


From 4fdae8ecd11fe35f6710f92a0401ab55e3c94d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:01 +0000
Subject: [PATCH 79/82] fix: drop the old factorization when a dense matrix is
 resized

DenseMatrix::initAssembly and redim kept the pivot vector of a previous
solve, such that the next solve treated the new, unfactored matrix as
factored (with pivots of the wrong dimension, too).
---
 src/LinAlg/DenseMatrix.C | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 76ec505..ae7d854 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -79,6 +79,10 @@ DenseMatrix::DenseMatrix (const Matrix& A, bool s) : myMat(A)
 void DenseMatrix::initAssembly (const SAM& sam, char)
 {
   myMat.resize(sam.neq,sam.neq,true);
+
+  // Delete pivotation vector of old factorization, if any
+  delete[] ipiv;
+  ipiv = nullptr;
 }
 
 
@@ -453,10 +457,15 @@ bool DenseMatrix::augment (const SparseMatrix& B, size_t r0, size_t c0)
 
 bool DenseMatrix::redim (size_t r, size_t c)
 {
+  if (r == myMat.rows() && c == myMat.cols())
+    return false;
+
+  // The old factorization, if any, does not apply to the resized matrix
+  delete[] ipiv;
+  ipiv = nullptr;
+
   if (r == myMat.rows())
-    if (c == myMat.cols())
-      return false;
-    else if (c > myMat.cols())
+    if (c > myMat.cols())
     {
       myMat.resize(r,c);
       return true;
-- 
2.43.0


From 1b616f807d4795805941f55e743a7dac2bf80cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:22 +0000
Subject: [PATCH 80/82] fix: clear the thread timers of the profiler, too

Profiler::clear left the accumulated results of the tasks measured in
parallel regions, such that they showed up in the next report.
---
 src/Utility/Profiler.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Profiler.h b/src/Utility/Profiler.h
index de4f370..3c46270 100644
--- a/src/Utility/Profiler.h
+++ b/src/Utility/Profiler.h
@@ -61,7 +61,14 @@ public:
   //! \brief Prints a profiling report for all tasks that have been measured.
   template<class Stream> void report(Stream& os) const;
   //! \brief Clears the profiler.
-  void clear() { myTimers.clear(); allCPU = allWall = 0.0; nRunners = 0; }
+  void clear()
+  {
+    myTimers.clear();
+    for (ProfileMap& timers : myMTimers)
+      timers.clear();
+    allCPU = allWall = 0.0;
+    nRunners = 0;
+  }
 
   static bool indentReport; //!< If \e true, indicate task level by indent
 
-- 
2.43.0


From 0b377dee867b8009abe5f851b989c5aa253a2aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:14 +0000
Subject: [PATCH 81/82] fix: release the mixed basis of the previous time level
 in FieldFuncHDF5::load

---
 src/Utility/FieldFunctions.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index 9909d41..65449a6 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -146,6 +146,9 @@ bool FieldFuncHDF5::load (const std::vector<std::string>& fieldNames,
           sbasis << level << "/" << basisName << '-' << i << "/basis/"<< ip+1;
           hdf5->readString(sbasis.str(),g2);
           if (i == 1) {
+            // Replace the basis from the previous time level, if any
+            delete patch[ip];
+            patch[ip] = nullptr;
             if (g2.compare(0,9,"200 1 0 0") == 0)
               patch[ip] = ASM2D::create(ASM::Spline,2,nFld);
             else if (g2.compare(0,9,"700 1 0 0") == 0)
-- 
2.43.0


From cf90f0bf2367f0fac31b000e6e5792aabeeb2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:14 +0000
Subject: [PATCH 82/82] fix: reset the global profiler pointer when the
 profiler it refers to is destroyed

---
 src/Utility/Profiler.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utility/Profiler.C b/src/Utility/Profiler.C
index 3099338..80741ef 100644
--- a/src/Utility/Profiler.C
+++ b/src/Utility/Profiler.C
@@ -52,6 +52,10 @@ Profiler::~Profiler ()
   if (autoReport)
     this->report(IFEM::cout);
 
+  // Don't leave a dangling pointer to this profiler behind
+  if (utl::profiler == this)
+    utl::profiler = nullptr;
+
   LinAlgInit::decrefs();
   IFEM::Close();
 }
-- 
2.43.0

