From 5542cf6813c0ad2ec7c09e41c7b3d22bebbf693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 01/56] fix: a reset no longer repeats the entries of the
 loaded math libraries

The info parameter created after reset_devsim listed every math library
once more for each earlier initialization.
---
 src/math/BlasHeaders.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/BlasHeaders.cc b/src/math/BlasHeaders.cc
index d76d503..c8598c5 100644
--- a/src/math/BlasHeaders.cc
+++ b/src/math/BlasHeaders.cc
@@ -507,6 +507,9 @@ LoaderMessages_t LoadMathLibraries(std::string &errors)
   LoaderMessages_t ret = LoaderMessages_t::NO_ENVIRONMENT;
   const char *env = std::getenv("DEVSIM_MATH_LIBS");
 
+  // initialization is repeated by a reset
+  blas_table::dll_handles.clear();
+
   if (env)
   {
     ret = LoadFromEnvironment(env, errors);
-- 
2.43.0


From 9d886261d61e5a24c995fc2b63b6bd26de192f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 02/56] fix: set_material and get_material refuse a region
 together with a contact

The error message was overwritten by the result of the following
validation, so the contact was silently ignored.
---
 src/commands/MaterialCommands.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/MaterialCommands.cc b/src/commands/MaterialCommands.cc
index 8ff294a..8637424 100644
--- a/src/commands/MaterialCommands.cc
+++ b/src/commands/MaterialCommands.cc
@@ -146,11 +146,11 @@ getParameterCmd(CommandHandler &data)
       {
         if (!regionName.empty())
         {
-          errorString = ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
+          errorString += ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
         }
         else if (!contactName.empty())
         {
-          errorString = ValidateDeviceAndContact(deviceName, contactName, dev, contact);
+          errorString += ValidateDeviceAndContact(deviceName, contactName, dev, contact);
         }
       }
       else
-- 
2.43.0


From 6fb41823dff0ab2d4df8d7a1a2a05ddefe3fb56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 03/56] fix: redefining or re-creating a model marks its
 dependents as out of date

---
 src/Geometry/Region.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 03d4b25..4de24c2 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -890,6 +890,8 @@ void Region::AddNodeModel(NodeModelPtr nmp)
         os << "Replacing Node Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// the dependencies of the old definition are replaced by those of the new one
+        UnregisterCallback(nm);
         nodeModels[nm] = nmp;
     }
     else if (edgeModels.count(nm))
@@ -917,6 +919,9 @@ void Region::AddNodeModel(NodeModelPtr nmp)
     {
       nodeModels[nm] = nmp;
     }
+
+    //// Anything depending on this model is notified it is out of date
+    this->SignalCallbacks(nm);
 }
 
 void Region::AddEdgeModel(EdgeModelPtr emp)
@@ -928,6 +933,8 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
         os << "Replacing Edge Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// the dependencies of the old definition are replaced by those of the new one
+        UnregisterCallback(nm);
         edgeModels[nm] = emp;
     }
     else if (nodeModels.count(nm))
@@ -955,6 +962,9 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
     {
       edgeModels[nm] = emp;
     }
+
+    //// Anything depending on this model is notified it is out of date
+    this->SignalCallbacks(nm);
 }
 
 void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
@@ -966,6 +976,8 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
         os << "Replacing Triangle Edge Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// the dependencies of the old definition are replaced by those of the new one
+        UnregisterCallback(nm);
         triangleEdgeModels[nm] = emp;
     }
     else if (nodeModels.count(nm))
@@ -993,6 +1005,9 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
     {
       triangleEdgeModels[nm] = emp;
     }
+
+    //// Anything depending on this model is notified it is out of date
+    this->SignalCallbacks(nm);
 }
 
 void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
@@ -1004,6 +1019,8 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
         os << "Replacing Tetrahedron Edge Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// the dependencies of the old definition are replaced by those of the new one
+        UnregisterCallback(nm);
         tetrahedronEdgeModels[nm] = emp;
     }
     else if (nodeModels.count(nm))
@@ -1031,6 +1048,9 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
     {
       tetrahedronEdgeModels[nm] = emp;
     }
+
+    //// Anything depending on this model is notified it is out of date
+    this->SignalCallbacks(nm);
 }
 
 
-- 
2.43.0


From 044410e756448bb2ba9bb71c61232380e477bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 04/56] fix: evaluation of nested models no longer mixes up
 equal texts with different meaning

---
 src/AutoEquation/InterfaceModelExprEval.cc | 28 ++++++++++++++++--
 src/AutoEquation/InterfaceModelExprEval.hh |  1 +
 src/AutoEquation/ModelExprEval.cc          | 34 ++++++++++++++++++++--
 src/AutoEquation/ModelExprEval.hh          |  1 +
 4 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index df6f811..3eed008 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -385,6 +385,29 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
   return out;
 }
 
+//// The same text does not always mean the same values:
+//// a name is bound to a model or to a parameter when its expression is created
+template <typename DoubleType>
+std::string InterfaceModelExprEval<DoubleType>::GetCacheKey(Eqo::EqObjPtr arg) const
+{
+  std::string key = EngineAPI::getStringValue(arg);
+
+  const EngineAPI::EqObjType type = EngineAPI::getEnumeratedType(arg);
+  if (type == EngineAPI::VARIABLE_OBJ)
+  {
+    key += "\n" + EngineAPI::getName(arg);
+  }
+  else if ((type != EngineAPI::MODEL_OBJ) && (type != EngineAPI::CONST_OBJ))
+  {
+    for (const auto &variable : EngineAPI::getReferencedType(arg, EngineAPI::VARIABLE_OBJ))
+    {
+      key += "\n" + variable;
+    }
+  }
+
+  return key;
+}
+
 template <typename DoubleType>
 InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr arg)
 {
@@ -406,7 +429,8 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::eval_func
     const_cast<Interface *>(data_ref)->SetInterfaceModelExprDataCache(cache);
   }
 
-  if (cache->GetEntry(EngineAPI::getStringValue(arg), out))
+  const std::string cache_key = GetCacheKey(arg);
+  if (cache->GetEntry(cache_key, out))
   {
     cache_result = false;
   }
@@ -461,7 +485,7 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::eval_func
 
   if (cache_result && (out.GetType() != datatype::INVALID))
   {
-    cache->SetEntry(EngineAPI::getStringValue(arg), out);
+    cache->SetEntry(cache_key, out);
   }
 
   return out;
diff --git a/src/AutoEquation/InterfaceModelExprEval.hh b/src/AutoEquation/InterfaceModelExprEval.hh
index 477bbed..7c1de1d 100644
--- a/src/AutoEquation/InterfaceModelExprEval.hh
+++ b/src/AutoEquation/InterfaceModelExprEval.hh
@@ -44,6 +44,7 @@ class InterfaceModelExprEval {
         InterfaceModelExprData<DoubleType> eval_function(Eqo::EqObjPtr);
 
     private:
+        std::string GetCacheKey(Eqo::EqObjPtr) const;
         InterfaceModelExprData<DoubleType> EvaluateAddType(Eqo::EqObjPtr);
         InterfaceModelExprData<DoubleType> EvaluateProductType(Eqo::EqObjPtr);
         InterfaceModelExprData<DoubleType> EvaluateVariableType(Eqo::EqObjPtr);
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index bc712ed..8525348 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -393,6 +393,35 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateConstantType(Eqo::E
   return out;
 }
 
+//// The same text does not always mean the same values:
+//// a name is bound to a model or to a parameter when its expression is created,
+//// and a model at a contact is only evaluated at the nodes or edges of that contact
+template <typename DoubleType>
+std::string ModelExprEval<DoubleType>::GetCacheKey(Eqo::EqObjPtr arg) const
+{
+  std::string key = EngineAPI::getStringValue(arg);
+
+  const EngineAPI::EqObjType type = EngineAPI::getEnumeratedType(arg);
+  if (type == EngineAPI::VARIABLE_OBJ)
+  {
+    key += "\n" + EngineAPI::getName(arg);
+  }
+  else if ((type != EngineAPI::MODEL_OBJ) && (type != EngineAPI::CONST_OBJ))
+  {
+    for (const auto &variable : EngineAPI::getReferencedType(arg, EngineAPI::VARIABLE_OBJ))
+    {
+      key += "\n" + variable;
+    }
+  }
+
+  if (!indexes.empty())
+  {
+    key += "\n@" + model;
+  }
+
+  return key;
+}
+
 template <typename DoubleType>
 ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr arg)
 {
@@ -414,7 +443,8 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
     const_cast<Region *>(data_ref)->SetModelExprDataCache(cache);
   }
 
-  if (cache->GetEntry(EngineAPI::getStringValue(arg), out))
+  const std::string cache_key = GetCacheKey(arg);
+  if (cache->GetEntry(cache_key, out))
   {
     cache_result = false;
   }
@@ -469,7 +499,7 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
 
   if (cache_result && (out.GetType() != datatype::INVALID))
   {
-    cache->SetEntry(EngineAPI::getStringValue(arg), out);
+    cache->SetEntry(cache_key, out);
   }
 
 #if 0
diff --git a/src/AutoEquation/ModelExprEval.hh b/src/AutoEquation/ModelExprEval.hh
index b5b149c..9d5b2fb 100644
--- a/src/AutoEquation/ModelExprEval.hh
+++ b/src/AutoEquation/ModelExprEval.hh
@@ -37,6 +37,7 @@ class ModelExprEval {
 
         ModelExprData<DoubleType> eval_function(Eqo::EqObjPtr);
     private:
+        std::string GetCacheKey(Eqo::EqObjPtr) const;
         ModelExprData<DoubleType> EvaluateAddType(Eqo::EqObjPtr);
         ModelExprData<DoubleType> EvaluateProductType(Eqo::EqObjPtr);
         ModelExprData<DoubleType> EvaluateVariableType(Eqo::EqObjPtr);
-- 
2.43.0


From aece9d51cbbe3cee42b004ac841c3e86e3d4d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 05/56] fix: set_node_values refuses values given together with
 init_from or not convertible to numbers

---
 src/commands/ModelCommands.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/ModelCommands.cc b/src/commands/ModelCommands.cc
index a80ba1e..df16e89 100644
--- a/src/commands/ModelCommands.cc
+++ b/src/commands/ModelCommands.cc
@@ -900,7 +900,7 @@ setNodeValuesCmd(CommandHandler &data)
 
     std::vector<double> values;
     ObjectHolder vdata = data.GetObjectHolder("values");
-    if (vdata.IsList())
+    if (data.IsSpecified("values"))
     {
       if (!initializer.empty())
       {
@@ -920,7 +920,7 @@ setNodeValuesCmd(CommandHandler &data)
     Device *dev = nullptr;
     Region *reg = nullptr;
 
-    errorString = ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
+    errorString += ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
 
     if (!errorString.empty())
     {
-- 
2.43.0


From 23b2b532676a4970e7ebccbc3469ba8269cf5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 06/56] fix: if() with a test that is not 0 or 1 selects its
 value instead of scaling it

---
 src/AutoEquation/InterfaceModelExprEval.cc | 10 +++++++---
 src/AutoEquation/ModelExprEval.cc          | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index 3eed008..4363d95 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -306,9 +306,13 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
   }
   else
   {
-    // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    //// any nonzero value selects, as for a scalar test
+    margv_t margv;
+    margv.reserve(3);
+    margv.push_back(test);
+    margv.push_back(eval_function(values[1]));
+    margv.push_back(InterfaceModelExprData<DoubleType>(0.0));
+    out = EvaluateExternalMath("ifelse", margv);
   }
 
   return out;
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index 8525348..5c9e988 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -290,9 +290,13 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateIfType(Eqo::EqObjPt
   }
   else
   {
-    // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    //// any nonzero value selects, as for a scalar test
+    margv_t margv;
+    margv.reserve(3);
+    margv.push_back(test);
+    margv.push_back(eval_function(values[1]));
+    margv.push_back(ModelExprData<DoubleType>(0.0, data_ref));
+    out = EvaluateExternalMath("ifelse", margv);
   }
 
   return out;
-- 
2.43.0


From 7275f85349bf026b111da033a1a4436d163993dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 07/56] fix: a constant edge model in a tetrahedron expression
 gets one value per element edge

---
 src/AutoEquation/ModelExprData.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AutoEquation/ModelExprData.cc b/src/AutoEquation/ModelExprData.cc
index 9b4cefc..5d7dfcc 100644
--- a/src/AutoEquation/ModelExprData.cc
+++ b/src/AutoEquation/ModelExprData.cc
@@ -280,7 +280,7 @@ void ModelExprData<DoubleType>::convertToTetrahedronEdgeData()
     if (edgeScalarData->IsUniform())
     {
       const DoubleType val = edgeScalarData->GetUniformValue();
-      size_t       len = 6 * reg->GetTriangleList().size();
+      size_t       len = 6 * reg->GetTetrahedronList().size();
 
       type = datatype::TETRAHEDRONEDGEDATA;
       TetrahedronEdgeScalarData<DoubleType> *e = new TetrahedronEdgeScalarData<DoubleType>(val, len);
-- 
2.43.0


From 4bc4d028299877a51059c5d6b59bc123cce1d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 08/56] fix: an equation given another variable lets go of the
 old one only

Replacing an equation by one of the same name for a different variable
erased the entry of the new variable instead of the old one, and took a
variable away from another equation.
---
 src/Geometry/Region.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 4de24c2..ffedf7d 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1164,12 +1164,20 @@ void Region::AddEquation(EquationHolder &eq)
     {
       if (oeq.GetVariable() != var)
       {
+        if (variableEquationMap.count(var))
+        {
+          std::ostringstream os;
+          os << "ERROR: Can't replace equation if its new variable is already being used\n"
+              << "Region: " << this->GetName() << ", Equation: " << nm << ", Old Equation: " << variableEquationMap[var] << ", Variable: "  << var << "\n";
+          GeometryStream::WriteOut(OutputStream::OutputType::FATAL, *this, os.str());
+        }
+
         std::ostringstream os;
         os << "Warning: Adding a new equation by the same name with a different variable will remove mapping to other variable.\n"
             "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << oeq.GetVariable() << ", New Variable: " << var << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
 
-        variableEquationMap.erase(var);
+        variableEquationMap.erase(oeq.GetVariable());
         variableEquationMap[var] = nm;
       }
       else
-- 
2.43.0


From c441590e08b798625a600af1d6f1b05f1bb036b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 09/56] fix: count a contact's derivative by its circuit node
 once

The derivative of an edge or triangle edge current by the circuit node was
added once for every variable of the region.
---
 src/Equation/ContactEquation.cc | 126 ++++++++++++++++----------------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index dd4bd4c..eeac326 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -1558,48 +1558,48 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          EdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        EdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
+        const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
-          {
-            const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
 
-            for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          {
+            if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
             {
-              if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
-              {
-                continue;
-              }
+              continue;
+            }
 
-              const  size_t eind = (*it)->GetIndex();
-              const DoubleType val = edd[eind];
+            const  size_t eind = (*it)->GetIndex();
+            const DoubleType val = edd[eind];
 
-              if ((*it)->GetHead() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
-              }
-              else if ((*it)->GetTail() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
-              }
-              else
-              {
-                dsAssert(0, "UNEXPECTED");
-              }
+            if ((*it)->GetHead() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
+            }
+            else if ((*it)->GetTail() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
+            }
+            else
+            {
+              dsAssert(0, "UNEXPECTED");
             }
           }
         }
@@ -1809,45 +1809,45 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          TriangleEdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        TriangleEdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
+          for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
           {
-            const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
-            for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
+            const Triangle &triangle = **ti;
+            const size_t tindex = triangle.GetIndex();
+            const ConstEdgeList &edgeList = ttelist[tindex];
+            for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
             {
-              const Triangle &triangle = **ti;
-              const size_t tindex = triangle.GetIndex();
-              const ConstEdgeList &edgeList = ttelist[tindex];
-              for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
-              {
-                const Edge &edge = *edgeList[eindex];
+              const Edge &edge = *edgeList[eindex];
 
-                auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
+              auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
 
-                if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
-                {
-                  continue;
-                }
+              if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
+              {
+                continue;
+              }
 
-                const size_t vindex = 3 * tindex + eindex;
+              const size_t vindex = 3 * tindex + eindex;
 
-                val *= edd[vindex];
+              val *= edd[vindex];
 
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
-              }
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
             }
           }
         }
-- 
2.43.0


From e5e7bb704b286e6db072833e45f37506fe13bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 10/56] fix: report a missing derivative of a contact equation

With the first of the derivatives of a contact's edge or element model
present and another one missing, a null pointer was dereferenced.  Report
it as the equations of a region do.
---
 src/Equation/ContactEquation.cc | 60 +++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index eeac326..3069ade 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -793,6 +793,11 @@ void ContactEquation<DoubleType>::AssembleEdgeEquation(const std::string &emodel
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         EdgeScalarData<DoubleType> edd0(*ec);
@@ -1005,6 +1010,16 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquation(const std::string
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
+      else if (!edm2)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         TriangleEdgeScalarData<DoubleType> edd0(*ec);
@@ -1246,6 +1261,21 @@ void ContactEquation<DoubleType>::AssembleTetrahedronEdgeEquation(const std::str
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
+      else if (!edm2)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
+      else if (!edm3)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel3, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         TetrahedronEdgeScalarData<DoubleType> edd0(*ec);
@@ -1490,6 +1520,11 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         EdgeScalarData<DoubleType> edd0(*ec);
@@ -1721,6 +1756,16 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
+      else if (!edm2)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         TriangleEdgeScalarData<DoubleType> edd0(*ec);
@@ -1974,6 +2019,21 @@ void ContactEquation<DoubleType>::AssembleTetrahedronEdgeEquationOnCircuit(const
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
+      else if (!edm2)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
+      else if (!edm3)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel3, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         TetrahedronEdgeScalarData<DoubleType> edd0(*ec);
-- 
2.43.0


From 6c995d357f86fce898c8af2c22aac48e24814797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 11/56] fix: a shared node is left to another contact only if
 that has the equation

GetActiveNodes looked for the equation in the contact's own list, so a node
shared by two contacts was dropped even when the other one has no such
equation.
---
 src/Equation/ContactEquation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index 3069ade..d4c6671 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -137,7 +137,7 @@ ConstNodeList_t ContactEquation<DoubleType>::GetActiveNodes() const
           else
           {
 
-            const ContactEquationPtrMap_t &cepm = contact.GetEquationPtrList();
+            const ContactEquationPtrMap_t &cepm = ocontact.GetEquationPtrList();
 
             for (ContactEquationPtrMap_t::const_iterator cepmit = cepm.begin(); cepmit != cepm.end(); ++cepmit)
             {
-- 
2.43.0


From 3f8d3f56bf3ad0afc8394314dfcc904912f52587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 12/56] fix: assemble an edge volume model without an edge
 model

An equation's edge_volume_model was ignored unless it had an edge_model.
---
 src/AutoEquation/ExprEquation.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/ExprEquation.cc b/src/AutoEquation/ExprEquation.cc
index daad619..16e7fce 100644
--- a/src/AutoEquation/ExprEquation.cc
+++ b/src/AutoEquation/ExprEquation.cc
@@ -51,10 +51,12 @@ void ExprEquation<DoubleType>::DerivedAssemble(dsMath::RealRowColValueVec<Double
         {
             model_cache->clear();
             Equation<DoubleType>::EdgeCoupleAssemble(edge_model_, m, v, w);
-            if (!edge_volume_model_.empty())
-            {
-              Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
-            }
+        }
+
+        if (!edge_volume_model_.empty())
+        {
+            model_cache->clear();
+            Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
         }
 
         if (!node_model_.empty())
-- 
2.43.0


From e345a44de9d16b0403f602763c26065e988507d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 13/56] fix: a circuit of nothing but its ground does not stop
 the analysis

Any circuit command brings in the ground nodes.  If nothing else follows
there are no circuit unknowns, and every later solve or get_matrix_and_rhs
failed on an assertion (and again, differently, on the next attempt).
---
 src/Circuit/data/NodeKeeper.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 9f8847d..6a0eb28 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -263,7 +263,6 @@ void NodeKeeper::CreateSolution(const std::string &key)
 
     // entry has now been created
     dsAssert(Sol_[key] == nullptr, "CIRCUIT_UNEXPECTED");
-    dsAssert(numberOfNodes_ != 0, "CIRCUIT_UNEXPECTED");
 
     // technically this needs to be deleted in the destructor
     // migrate to smart pointer
-- 
2.43.0


From 1613bf9dd8c755f941faed470ae287a53d1a15e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 14/56] fix: a refused circuit element leaves no nodes behind

The nodes were created before an unknown element type or an element name
in use was noticed; the latter ended in an assertion.
---
 src/commands/CircuitCommands.cc | 43 ++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 0c7d982..8111800 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -199,14 +199,36 @@ circuitElementCmd(CommandHandler &data)
         }
     }
 
-    //// Should not fail
-    CreateNode(n1, CircuitUpdateType::DEFAULT);
-    CreateNode(n2, CircuitUpdateType::DEFAULT);
-
     NodeKeeper &nk = NodeKeeper::instance();
     InstanceKeeper &ik = InstanceKeeper::instance();
     InstanceModel  *im = nullptr;
 
+    if (ik.getInstanceModel(name))
+    {
+        std::ostringstream os;
+        os << "Circuit element -name  \"" << name <<
+              "\" already exists\n";
+        errorString += os.str();
+    }
+
+    if (std::string("VvIiCcLlRr").find(type) == std::string::npos)
+    {
+        std::ostringstream os;
+        os << "Cannot figure out what element type -name  \"" << name <<
+              "\" is\n";
+        errorString += os.str();
+    }
+
+    if (!errorString.empty())
+    {
+        data.SetErrorResult(errorString);
+        return;
+    }
+
+    //// Should not fail
+    CreateNode(n1, CircuitUpdateType::DEFAULT);
+    CreateNode(n2, CircuitUpdateType::DEFAULT);
+
     if (type == 'V' || type == 'v')
     {
         SignalPtr x(new DCOnly(value));
@@ -242,19 +264,6 @@ circuitElementCmd(CommandHandler &data)
         ik.addInstanceModel(im);
         data.SetEmptyResult();
     }
-    else
-    {
-        std::ostringstream os;
-        os << "Cannot figure out what element type -name  \"" << name <<
-              "\" is\n";
-        errorString += os.str();
-    }
-
-    if (!errorString.empty())
-    {
-        data.SetErrorResult(errorString);
-        return;
-    }
 
 }
 
-- 
2.43.0


From 6b79e98721e945929805b835f1560ad55160f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 15/56] fix: models follow the circuit they depend on

A model depending on an alias of a circuit node (or on the node while the
alias is set) was not recalculated by set_circuit_node_value, and no model
was after delete_circuit.
---
 src/commands/CircuitCommands.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 8111800..ac62e17 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -560,7 +560,7 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     else if (commandName == "set_circuit_node_value")
     {
         nk.SetNodeValue(solution, node, val);
-        nk.TriggerCallbackOnNode(node);
+        nk.TriggerCallbacksOnNodes();
         data.SetEmptyResult();
     }
 }
@@ -582,6 +582,9 @@ circuitDeleteCircuitCmd(CommandHandler &data)
       data.SetErrorResult(errorString);
   }
 
+  // models must not keep what they have from the circuit
+  NodeKeeper::instance().TriggerCallbacksOnNodes();
+
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
 };
-- 
2.43.0


From 842718abff436f1ed62e2420925adb83ac41f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 16/56] fix: an element connected to an alias is connected to
 its node

AddNode did not look up aliases, so the element got a node of its own,
hidden behind the alias and connected to nothing else.
---
 src/Circuit/data/NodeKeeper.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 6a0eb28..a82a647 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -49,8 +49,11 @@ NodeKeeper::~NodeKeeper() {
  * Add a node with the suggested name
  * and a default type
  */
-CircuitNodePtr NodeKeeper::AddNode(const std::string & name, CircuitNodeType nt, CircuitUpdateType ut)
+CircuitNodePtr NodeKeeper::AddNode(const std::string & nodename, CircuitNodeType nt, CircuitUpdateType ut)
 {
+    NodeAliasTable_t::const_iterator ait = NodeAliasTable_.find(nodename);
+    const std::string name = (ait == NodeAliasTable_.end()) ? nodename : ait->second;
+
 //    os << "NodeKeeper::AddNode\n";
 
     if (SolutionLocked_)
-- 
2.43.0


From fe5ce46d32a839577beec460829e6cff8c224073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 17/56] fix: refuse custom equation entries outside of the
 system

Rows and columns returned by a custom_equation procedure were used to
index the matrix, the permutation and the right hand side unchecked.
---
 src/math/Newton.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index d603e65..d54d195 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -303,6 +303,30 @@ void Newton<DoubleType>::LoadIntoRHSPermutated(const RHSEntryVec<DoubleType> &r,
   }
 }
 
+namespace {
+//// The rows and columns of a custom equation are whatever the user made them
+template <typename DoubleType>
+void CheckCustomEntries(const RealRowColValueVec<DoubleType> &mat, const RHSEntryVec<DoubleType> &rhs, size_t numeqns)
+{
+  bool ok = true;
+  for (const auto &entry : mat)
+  {
+    ok = ok && (static_cast<size_t>(entry.row) < numeqns) && (static_cast<size_t>(entry.col) < numeqns);
+  }
+  for (const auto &entry : rhs)
+  {
+    ok = ok && (static_cast<size_t>(entry.first) < numeqns);
+  }
+
+  if (!ok)
+  {
+    std::ostringstream os;
+    os << "Error when evaluating custom_equation, row or column is not one of the " << numeqns << " equations\n";
+    OutputStream::WriteOut(OutputStream::OutputType::FATAL, os.str());
+  }
+}
+}
+
 template <typename DoubleType>
 template <typename T>
 void Newton<DoubleType>::LoadMatrixAndRHS(Matrix<DoubleType> &matrix, std::vector<T> &rhs, permvec_t &permvec, dsMathEnum::WhatToLoad w, dsMathEnum::TimeMode t, T scl)
@@ -361,6 +385,8 @@ void Newton<DoubleType>::LoadMatrixAndRHS(Matrix<DoubleType> &matrix, std::vecto
     m.clear();
     v.clear();
     AssembleTclEquations(pm, pv, m, v, w, t);
+    CheckCustomEntries(pm, pv, permvec.size());
+    CheckCustomEntries(m, v, permvec.size());
     LoadIntoMatrixPermutated(pm, matrix, permvec, scl);
     LoadIntoRHSPermutated(pv, rhs, permvec, scl);
     LoadIntoMatrix(m, matrix, scl);
-- 
2.43.0


From 5317cda0646149d270114bf36c70d3021855242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 18/56] fix: clearing a matrix keeps a row for every equation

The rows for entries outside of the pattern were resized to the number of
nonzeros.  A matrix with fewer nonzeros than equations then lost entries
added later (and wrote past the end of the vector).
---
 src/math/CompressedMatrix.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index 4659d11..fffc1aa 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -476,11 +476,11 @@ void CompressedMatrix<DoubleType>::ClearMatrix()
   }
 
   OutOfBandEntries_Real.clear();
-  OutOfBandEntries_Real.resize(sz);
+  OutOfBandEntries_Real.resize(this->size());
   if (GetMatrixType() == MatrixType::COMPLEX)
   {
     OutOfBandEntries_Imag.clear();
-    OutOfBandEntries_Imag.resize(sz);
+    OutOfBandEntries_Imag.resize(this->size());
   }
 }
 
-- 
2.43.0


From 80bb3285763c6d2d781b8466cdd2232011143f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 19/56] fix: delete_circuit reports success, and does nothing
 on wrong arguments

---
 src/commands/CircuitCommands.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index ac62e17..15250d8 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -580,6 +580,7 @@ circuitDeleteCircuitCmd(CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   // models must not keep what they have from the circuit
@@ -587,6 +588,7 @@ circuitDeleteCircuitCmd(CommandHandler &data)
 
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
+  data.SetEmptyResult();
 };
 
 void
-- 
2.43.0


From ab0e56926a0e00fade0592a3ab43c830c90bb19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 20/56] fix: a constant times an interface model has a value
 for each of its nodes

---
 src/models/InterfaceNodeModel.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/models/InterfaceNodeModel.hh b/src/models/InterfaceNodeModel.hh
index f6b45fa..9c2e91d 100644
--- a/src/models/InterfaceNodeModel.hh
+++ b/src/models/InterfaceNodeModel.hh
@@ -93,7 +93,7 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
 
         size_t GetLength() const
         {
-          return length;
+          return model_data.GetLength();
         }
 
         bool IsZero() const;
@@ -137,7 +137,6 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
         mutable bool uptodate = false;
         mutable bool inprocess = false;
         mutable ModelDataHolder model_data;
-        size_t length = 0;
 };
 
 template <typename T1, typename T2, typename ... Args>
-- 
2.43.0


From 0d5605eace73ae18976ed2fe2e5118604d3f3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 21/56] fix: restore the solution when a solve is ended by an
 exception

---
 src/math/Newton.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index d54d195..a8454ad 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -667,6 +667,9 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
   BackupSolutions();
 
+  try
+  {
+
   /////
   ///// Permutation vector
   /////
@@ -890,6 +893,14 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
   }
 
   return converged;
+
+  }
+  catch (...)
+  {
+    //// leave the state as it was before the solve
+    RestoreSolutions();
+    throw;
+  }
 }
 
 template <typename DoubleType>
-- 
2.43.0


From 19f08228e8ee729ca4609def1b57e5da502ac3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 22/56] fix: models depending on circuit nodes follow when
 their solution is restored

---
 src/math/Newton.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index a8454ad..fed1b54 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -471,6 +471,7 @@ void Newton<DoubleType>::RestoreSolutions()
     if (nk.HaveNodes())
     {
       nk.CopySolution("dcop_prev", "dcop");
+      nk.TriggerCallbacksOnNodes();
     }
   }
 }
-- 
2.43.0


From 454870bb8fe7dfb1406c83a2879e53b5b3c7325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:13 +0000
Subject: [PATCH 23/56] fix: an incomplete answer of an external solver to
 "solve" is an error

---
 src/math/ExternalPreconditioner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/ExternalPreconditioner.cc b/src/math/ExternalPreconditioner.cc
index 47daa32..209bcd6 100644
--- a/src/math/ExternalPreconditioner.cc
+++ b/src/math/ExternalPreconditioner.cc
@@ -274,6 +274,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(DoubleVec_t<DoubleType>
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
@@ -285,6 +286,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(DoubleVec_t<DoubleType>
           ret = false;
         }
       }
+      dsAssert(ret, error_string);
       auto status = result_dictionary["status"].GetBoolean().second;
       auto message = result_dictionary["message"].GetString();
       error_string += message;
@@ -334,6 +336,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(ComplexDoubleVec_t<Doubl
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
@@ -345,6 +348,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(ComplexDoubleVec_t<Doubl
           ret = false;
         }
       }
+      dsAssert(ret, error_string);
       auto status = result_dictionary["status"].GetBoolean().second;
       auto message = result_dictionary["message"].GetString();
       error_string += message;
-- 
2.43.0


From 163de277ba575d5b5d2618a3b2295392d650c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 24/56] fix: a solution with an invalid number is not a
 solution

---
 src/math/Preconditioner.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/math/Preconditioner.cc b/src/math/Preconditioner.cc
index 9e4d3cd..a59c7ed 100644
--- a/src/math/Preconditioner.cc
+++ b/src/math/Preconditioner.cc
@@ -10,6 +10,9 @@ SPDX-License-Identifier: Apache-2.0
 #include "Matrix.hh"
 #include "FPECheck.hh"
 #include "OutputStream.hh"
+
+#include <algorithm>
+
 namespace dsMath {
 template <typename DoubleType>
 Preconditioner<DoubleType>::~Preconditioner()
@@ -82,6 +85,10 @@ bool Preconditioner<DoubleType>::LUSolve(DoubleVec_t<DoubleType> &x, const Doubl
     OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
     FPECheck::ClearFPE();
   }
+  else if (std::any_of(x.begin(), x.end(), [](const auto &v) { return v != v; }))
+  {
+    OutputStream::WriteOut(OutputStream::OutputType::INFO, "There was an invalid number in the solution of LU Back Substitution\n");
+  }
   else
   {
     ret = true;
@@ -114,6 +121,10 @@ bool Preconditioner<DoubleType>::LUSolve(ComplexDoubleVec_t<DoubleType> &x, cons
     OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
     FPECheck::ClearFPE();
   }
+  else if (std::any_of(x.begin(), x.end(), [](const auto &v) { return (v.real() != v.real()) || (v.imag() != v.imag()); }))
+  {
+    OutputStream::WriteOut(OutputStream::OutputType::INFO, "There was an invalid number in the solution of LU Back Substitution\n");
+  }
   else
   {
     ret = true;
-- 
2.43.0


From 3e008021ffd29f701bd69c2b1f32c438a5638422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 25/56] fix: the node of the relative error is where the
 relative error is

---
 src/Equation/Equation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index bde16dd..fd788f4 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -286,6 +286,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     DoubleType aerr = 0.0;
     DoubleType rerr = 0.0;
     size_t     aerr_node = 0;
+    size_t     rerr_node = 0;
 
     for (size_t i = 0; i < upds.size(); ++i)
     {
@@ -304,6 +305,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
         if (nrerror > rerr)
         {
             rerr = nrerror;
+            rerr_node = i;
         }
 
     }
@@ -311,7 +313,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     setAbsError(aerr);
     setRelError(rerr);
     setAbsErrorNodeIndex(aerr_node);
-    setRelErrorNodeIndex(aerr_node);
+    setRelErrorNodeIndex(rerr_node);
 //    dsErrors::EquationMathErrorInfo(*this, rerr, aerr, OutputStream::OutputType::INFO);
 }
 
-- 
2.43.0


From 6a6d697ae7d82539fcabe1433a469b8f7b704681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 26/56] fix: evaluating a model does not mark the models
 depending on its name as out of date

---
 src/models/EdgeModel.cc            | 12 ++++++++++--
 src/models/InterfaceNodeModel.cc   | 12 ++++++++++--
 src/models/NodeModel.cc            | 12 ++++++++++--
 src/models/TetrahedronEdgeModel.cc | 12 ++++++++++--
 src/models/TriangleEdgeModel.cc    | 12 ++++++++++--
 5 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index 75ca993..84ba756 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -285,7 +285,11 @@ void EdgeModel::SetValues(const EdgeScalarList<DoubleType> &nv)
     model_data.set_values(nv);
   }
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
@@ -308,7 +312,11 @@ void EdgeModel::SetValues(const DoubleType &v)
     model_data.SetUniformValue<DoubleType>(v);
   }
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
diff --git a/src/models/InterfaceNodeModel.cc b/src/models/InterfaceNodeModel.cc
index 08b6a5e..3bec081 100644
--- a/src/models/InterfaceNodeModel.cc
+++ b/src/models/InterfaceNodeModel.cc
@@ -101,7 +101,11 @@ void InterfaceNodeModel::SetValues(const DoubleType &v) const
 {
   model_data.SetUniformValue<DoubleType>(v);
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
@@ -116,7 +120,11 @@ void InterfaceNodeModel::SetValues(const NodeScalarList<DoubleType> &nv)
 {
   model_data.set_values(nv);
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index f085e38..9de10bd 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -147,7 +147,11 @@ void NodeModel::SetValues(const NodeScalarList<DoubleType> &nv)
     model_data.set_values(nv);
   }
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
@@ -170,7 +174,11 @@ void NodeModel::SetValues(const DoubleType &v)
     model_data.SetUniformValue<DoubleType>(v);
   }
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 55a5582..aebe29a 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -104,7 +104,11 @@ void TetrahedronEdgeModel::SetValues(const TetrahedronEdgeScalarList<DoubleType>
 {
   model_data.set_values(nv);
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
@@ -125,7 +129,11 @@ void TetrahedronEdgeModel::SetValues(const DoubleType &v)
 {
   model_data.SetUniformValue(v);
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 84d6554..cac12d7 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -102,7 +102,11 @@ void TriangleEdgeModel::SetValues(const TriangleEdgeScalarList<DoubleType> &nv)
 {
   model_data.set_values(nv);
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
@@ -123,7 +127,11 @@ void TriangleEdgeModel::SetValues(const DoubleType &v)
 {
   model_data.SetUniformValue(v);
 
-  MarkOld();
+  //// when evaluating, the dependents were told when this went out of date
+  if (!inprocess)
+  {
+    MarkOld();
+  }
   uptodate = true;
 }
 
-- 
2.43.0


From 32b50eb41359257c6ab1b1300818fc93d48431c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:01 +0000
Subject: [PATCH 27/56] fix: an element model follows the edge model evaluated
 in place of an element edge model

---
 src/AutoEquation/EdgeExprModel.cc            |  2 ++
 src/AutoEquation/ModelExprEval.cc            | 17 +++++++++++++++++
 src/AutoEquation/ModelExprEval.hh            |  3 +++
 src/AutoEquation/TetrahedronEdgeExprModel.cc |  2 ++
 src/AutoEquation/TriangleEdgeExprModel.cc    |  2 ++
 5 files changed, 26 insertions(+)

diff --git a/src/AutoEquation/EdgeExprModel.cc b/src/AutoEquation/EdgeExprModel.cc
index 1d737c0..df2ddf0 100644
--- a/src/AutoEquation/EdgeExprModel.cc
+++ b/src/AutoEquation/EdgeExprModel.cc
@@ -64,6 +64,8 @@ void EdgeExprModel<DoubleType>::RegisterModels()
     for (refmodels_t::iterator it = refs.begin(); it != refs.end(); ++it)
     {
         RegisterCallback(*it);
+        //// the edge model evaluated in place of an element edge model
+        RegisterCallback(MEE::GetEdgeModelAlias(*it));
     }
 }
 
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index 5c9e988..aa21697 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -34,6 +34,23 @@ SPDX-License-Identifier: Apache-2.0
 
 namespace MEE {
 
+std::string GetEdgeModelAlias(const std::string &model)
+{
+  std::string alias_model(model);
+  std::string::size_type rpos = alias_model.size();
+  if (rpos > 4)
+  {
+    rpos -= 4;
+
+    if ((alias_model.rfind("@en0") == rpos) || (alias_model.rfind("@en1") == rpos))
+    {
+      //// look for @n0, @n1 in place of @en0, @en11
+      alias_model.erase(rpos+1, 1);
+    }
+  }
+  return alias_model;
+}
+
 template <typename DoubleType>
 ModelExprEval<DoubleType>::ModelExprEval(data_ref_t &vals, const std::string &m, error_t &er) : data_ref(vals), model(m), errors(er), etype(ExpectedType::UNKNOWN)
 {
diff --git a/src/AutoEquation/ModelExprEval.hh b/src/AutoEquation/ModelExprEval.hh
index 9d5b2fb..8805744 100644
--- a/src/AutoEquation/ModelExprEval.hh
+++ b/src/AutoEquation/ModelExprEval.hh
@@ -21,6 +21,9 @@ typedef Region *RegionPtr;
 
 namespace MEE {
 
+/// name of the edge model which may be substituted for an element edge model
+std::string GetEdgeModelAlias(const std::string &);
+
 enum class ExpectedType {UNKNOWN = 0, NODE, EDGE, TRIANGLEEDGE, TETRAHEDRONEDGE};
 
 template <typename DoubleType>
diff --git a/src/AutoEquation/TetrahedronEdgeExprModel.cc b/src/AutoEquation/TetrahedronEdgeExprModel.cc
index 28a0012..e9bd695 100644
--- a/src/AutoEquation/TetrahedronEdgeExprModel.cc
+++ b/src/AutoEquation/TetrahedronEdgeExprModel.cc
@@ -62,6 +62,8 @@ void TetrahedronEdgeExprModel<DoubleType>::RegisterModels()
     for (refmodels_t::iterator it = refs.begin(); it != refs.end(); ++it)
     {
         RegisterCallback(*it);
+        //// the edge model evaluated in place of an element edge model
+        RegisterCallback(MEE::GetEdgeModelAlias(*it));
     }
 }
 
diff --git a/src/AutoEquation/TriangleEdgeExprModel.cc b/src/AutoEquation/TriangleEdgeExprModel.cc
index 8d802e8..f18d072 100644
--- a/src/AutoEquation/TriangleEdgeExprModel.cc
+++ b/src/AutoEquation/TriangleEdgeExprModel.cc
@@ -62,6 +62,8 @@ void TriangleEdgeExprModel<DoubleType>::RegisterModels()
     for (refmodels_t::iterator it = refs.begin(); it != refs.end(); ++it)
     {
         RegisterCallback(*it);
+        //// the edge model evaluated in place of an element edge model
+        RegisterCallback(MEE::GetEdgeModelAlias(*it));
     }
 }
 
-- 
2.43.0


From 36b47e291981be85260fa5b6fe51c62bc1205c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:13 +0000
Subject: [PATCH 28/56] fix: a graded mesh section has no two points at one
 place

---
 src/meshing/MeshUtil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshing/MeshUtil.cc b/src/meshing/MeshUtil.cc
index 8ec4d1a..ca14b8a 100644
--- a/src/meshing/MeshUtil.cc
+++ b/src/meshing/MeshUtil.cc
@@ -54,7 +54,7 @@ pts_t variable(double xl, double xh, double sl, double sh)
 
             /// need to have at least one pt with the minimum spacing
             double tpos = x - sh;
-            if (ret.back() < tpos)
+            if (ret.back() < (tpos - tolerance))
             {
                 ret.push_back(tpos);
             }
-- 
2.43.0


From a0f78904d33f192e58c408c36406a9545cd3654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:13 +0000
Subject: [PATCH 29/56] fix: a one-dimensional mesh can be finalized after a
 refused attempt

---
 src/meshing/Mesh1d.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/meshing/Mesh1d.cc b/src/meshing/Mesh1d.cc
index 04d986b..34c9e41 100644
--- a/src/meshing/Mesh1d.cc
+++ b/src/meshing/Mesh1d.cc
@@ -314,6 +314,14 @@ bool Mesh1d::Finalize_(std::string &errorString)
         return ret;
     }
 
+    //// A previous attempt may have failed
+    locations.clear();
+    tagsToIndices.clear();
+    indicesToTags.clear();
+    indexToRegionIndex.clear();
+    indexToInterfaceIndex.clear();
+    indexToContactIndex.clear();
+
     SetLocationsAndTags();
 
     //// Here we enforce that the first index must be less than the second
-- 
2.43.0


From ef55b8b9bc63d9e2a349319e08ca0181effa00c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 30/56] fix: a device that cannot be made from its mesh is not
 left behind

---
 src/commands/MeshingCommands.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index ce93994..6710ec7 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -663,9 +663,19 @@ createDeviceCmd(CommandHandler &data)
     dsMesh::MeshKeeper &mdata = dsMesh::MeshKeeper::GetInstance();
     dsMesh::MeshPtr mp = mdata.GetMesh(meshName);
 
-    bool ret = mp->Instantiate(deviceName, errorString);
+    bool ret = false;
+    try
+    {
+      ret = mp->Instantiate(deviceName, errorString);
+    }
+    catch (...)
+    {
+      GlobalData::GetInstance().DeleteDevice(deviceName);
+      throw;
+    }
     if (!ret)
     {
+      GlobalData::GetInstance().DeleteDevice(deviceName);
       data.SetErrorResult(errorString);
       return;
     }
-- 
2.43.0


From 5be6cb82cde6335faa0c227b0766bea245f0cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:50 +0000
Subject: [PATCH 31/56] fix: a second box for a two-dimensional region, contact
 or interface is taken in

add_2d_region, add_2d_contact and add_2d_interface called again for a name
added the box to an object that had already been merged and dropped.
---
 src/commands/MeshingCommands.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 6710ec7..2a4e492 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -462,9 +462,9 @@ add2dInterfaceCmd(CommandHandler &data)
         else
         {
             dsMesh::MeshInterface2dPtr ip(new dsMesh::MeshInterface2d(name, region0Name, region1Name));
-            m2dp->AddInterface(ip);
             dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
             ip->AddBoundingBox(bb);
+            m2dp->AddInterface(ip);
             data.SetEmptyResult();
         }
     }
@@ -523,9 +523,9 @@ add2dContactCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshContact2dPtr cp(new dsMesh::MeshContact2d(name, materialName, regionName));
-        m2dp->AddContact(cp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         cp->AddBoundingBox(bb);
+        m2dp->AddContact(cp);
         data.SetEmptyResult();
     }
 }
@@ -628,9 +628,9 @@ add2dRegionCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshRegion2dPtr rp(new dsMesh::MeshRegion2d(regionName, materialName));
-        m2dp->AddRegion(rp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         rp->AddBoundingBox(bb);
+        m2dp->AddRegion(rp);
         data.SetEmptyResult();
     }
 }
-- 
2.43.0


From 7e5070634994b1f817dc3f2e2d3fb7e2f81b05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:55 +0000
Subject: [PATCH 32/56] fix: a gmsh mesh that cannot be read is not left
 behind, and does not upset the next one

---
 src/meshing/GmshReader.cc | 10 ++++++----
 src/meshing/GmshScanner.l | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index 47e217a..9c2d2da 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -8,6 +8,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "GmshReader.hh"
 #include "GmshLoader.hh"
 #include "MeshKeeper.hh"
+#include <memory>
 #include <sstream>
 
 namespace dsGmshParse {
@@ -24,9 +25,7 @@ void DeletePointers()
 
 bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &coordinates, const std::vector<std::string> &physical_names, const std::vector<size_t> &elements, std::string &errorString)
 {
-  dsMesh::GmshLoaderPtr gmshLoaderp = new dsMesh::GmshLoader(meshName);
-  dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-  mk.AddMesh(gmshLoaderp);
+  auto gmshLoaderp = std::make_unique<dsMesh::GmshLoader>(meshName);
 
   dsMesh::GmshLoader &gmshLoader = *gmshLoaderp;
 
@@ -93,7 +92,7 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
 
     size_t physical_number = elements[eeindex + 1];
 
-    if (physical_number > physical_names.size())
+    if (physical_number >= physical_names.size())
     {
       std::ostringstream os;
       os << "ERROR: element physical index " << physical_number << " must be less than number of physical_names " << physical_names.size() <<  " on element " << element_count << " on position " << eeindex + 1 << "\n";
@@ -150,6 +149,9 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
     }
   }
 
+  // only a mesh that was read completely is kept
+  dsMesh::MeshKeeper::GetInstance().AddMesh(gmshLoaderp.release());
+
   return true;
 }
 }
diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index c996e72..eacbcef 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -129,8 +129,6 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
     else
     {
       dsGmshParse::GmshLoader = new dsMesh::GmshLoader(meshName);
-      dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-      mk.AddMesh(dsGmshParse::GmshLoader);
     }
 
     Gmshin = fopen(fname.c_str(), "r");
@@ -146,8 +144,16 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
     else
     {
         Gmsh_switch_to_buffer(Gmsh_create_buffer( Gmshin, YY_BUF_SIZE ) );
+	// a previous file may have ended inside of a section
+	while (yy_start_stack_ptr > 0)
+	{
+	  yy_pop_state();
+	}
+	BEGIN(INITIAL);
 	retval = Gmshparse();
 	yy_delete_buffer( YY_CURRENT_BUFFER );
+	fclose(Gmshin);
+	Gmshin = nullptr;
     }
 
 
@@ -155,6 +161,15 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
 
     dsGmshParse::DeletePointers();
     errorString += dsGmshParse::errors;
+    // only a mesh that was read completely is kept
+    if (ret)
+    {
+      dsMesh::MeshKeeper::GetInstance().AddMesh(dsGmshParse::GmshLoader);
+    }
+    else
+    {
+      delete dsGmshParse::GmshLoader;
+    }
     dsGmshParse::GmshLoader = NULL;
     return ret;
 }
-- 
2.43.0


From 5ec4c0174fb4dd34fe574e3bbd90005b6407c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:55 +0000
Subject: [PATCH 33/56] fix: a gmsh contact or interface with points not on its
 region is refused rather than crashing

---
 src/meshing/GmshLoader.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index 6d0ec95..f96aa1a 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -447,6 +447,12 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         }
       }
 
+      if (cnodes.size() != mesh_nodes.size())
+      {
+        // reported above
+        continue;
+      }
+
       if (cnodes.empty())
       {
         std::ostringstream os;
@@ -632,6 +638,12 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         }
       }
 
+      if (inodes[0].size() != mesh_nodes.size())
+      {
+        // reported above
+        continue;
+      }
+
       if (inodes[0].empty())
       {
         std::ostringstream os;
-- 
2.43.0


From 0bd9bc54a65403f92048df9497892751f3665c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:55 +0000
Subject: [PATCH 34/56] fix: a contact made from a two dimensional interface
 keeps its edges

---
 src/Geometry/Contact.cc   | 6 ++++++
 src/Geometry/Interface.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/Geometry/Contact.cc b/src/Geometry/Contact.cc
index 0033a00..7c4b644 100644
--- a/src/Geometry/Contact.cc
+++ b/src/Geometry/Contact.cc
@@ -207,6 +207,12 @@ void Contact::FindEdges() const
 
 void Contact::FindTriangles() const
 {
+  if (GetRegion()->GetDimension() != 3)
+  {
+    // there are none, and the edges are not to be lost
+    return;
+  }
+
   contacttriangles.clear();
   contactedges.clear();
 
diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index 821ee36..b046656 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -275,6 +275,12 @@ void Interface::FindEdges() const
 
 void Interface::FindTriangles() const
 {
+  if (GetRegion0()->GetDimension() != 3)
+  {
+    // there are none, and the edges are not to be lost
+    return;
+  }
+
   triangles0.clear();
   triangles1.clear();
   edges0.clear();
-- 
2.43.0


From 9ea6f2616fcc9c6480eb6714a185c6c4754e8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:50 +0000
Subject: [PATCH 35/56] fix: the model compiler reads and prints large whole
 numbers without losing digits

---
 src/adiff/EquationObject.cc | 2 +-
 src/adiff/mcScanner.l       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 20d800d..1a3d2ad 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -289,7 +289,7 @@ Constant::Constant(double x) : EquationObject(CONST_OBJ), dvalue(x)
 std::string Constant::createStringValue()
 {
     std::ostringstream os;
-    if (dvalue != floor(dvalue))
+    if ((dvalue != floor(dvalue)) || (std::abs(dvalue) >= 1.0e6))
     {
       os << std::scientific << std::setprecision(15);
     }
diff --git a/src/adiff/mcScanner.l b/src/adiff/mcScanner.l
index ae18862..ba39aef 100644
--- a/src/adiff/mcScanner.l
+++ b/src/adiff/mcScanner.l
@@ -52,7 +52,7 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 {float1}|{float2}|{float3}    {yylval.dval = atof(yytext); return FLOAT;}
 
-{integer}   {yylval.dval = atoi(yytext); return INT;}
+{integer}   {yylval.dval = atof(yytext); return INT;}
 
 ^title  {yylval.str=yytext; return TITLE;}
 
-- 
2.43.0


From 90b287b6fa95aff4d2b7c194c3bf556b336ba23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:50 +0000
Subject: [PATCH 36/56] fix: the arguments of a declared function are not mixed
 up in its derivatives

---
 src/adiff/mcParser.y | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/adiff/mcParser.y b/src/adiff/mcParser.y
index 7e7a652..3437993 100644
--- a/src/adiff/mcParser.y
+++ b/src/adiff/mcParser.y
@@ -289,10 +289,20 @@ userfunccmd :
 		    Eqo::UserDiffInfoVec udiv;
 		    std::vector<Eqo::EqObjPtr> f;
 
+		    // create special reserved names
+		    for (size_t i = 0; i < nargs; ++i)
+		    {
+			std::string foo = $4[i];
+			$4[i] = "@" + foo; // create reserved name
+			for (size_t j = 0; j < nargs; ++j)
+			{
+			    $7[j]=$7[j]->subst(foo, Eqo::var($4[i]));
+			}
+		    }
 		    for (size_t i = 0; i < nargs; ++i)
 		    {
 			udiv.push_back(std::make_pair($4[i], $7[i]));
-			f.push_back(Eqo::var($4[i]));
+			f.push_back(Eqo::var($4[i].substr(1)));
 		    }
 		    Eqo::SetUserFuncDiffs($2, udiv);
 		}
-- 
2.43.0


From 63241846c511a5e2b0d0f473bcd78ff5a4a0d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:10 +0000
Subject: [PATCH 37/56] fix: the model compiler does not search for shared
 terms without end

---
 src/adiff/mcTest.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 5822bcd..fb63a3c 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -260,6 +260,7 @@ namespace {
     void createSubexpressions()
     {
         SubExprMap.clear();
+        SubExprOrdered.clear();
 
         /*** Start with whole model list, assume all derivatives created ***/
        typedef std::list<std::pair<std::string, Eqo::EqObjPtr> >::iterator StrEqListIt;
-- 
2.43.0


From 33aa0376778682429cdf4985abd2147f548ff179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:54 +0000
Subject: [PATCH 38/56] fix: the gradient in three dimensions uses the z
 coordinate

---
 src/Geometry/GradientField.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/GradientField.cc b/src/Geometry/GradientField.cc
index 4e007e7..e545eb2 100644
--- a/src/Geometry/GradientField.cc
+++ b/src/Geometry/GradientField.cc
@@ -89,7 +89,7 @@ void GradientField<DoubleType>::CalcMatrices3d() const
   //// Assert fields exist
   ConstNodeModelPtr ux = myregion_->GetNodeModel("x");
   ConstNodeModelPtr uy = myregion_->GetNodeModel("y");
-  ConstNodeModelPtr uz = myregion_->GetNodeModel("y");
+  ConstNodeModelPtr uz = myregion_->GetNodeModel("z");
 
   dsAssert(ux.get(), "UNEXPECTED");
   dsAssert(uy.get(), "UNEXPECTED");
-- 
2.43.0


From 5af6fcc993c54011cf4a46edca1ed33f13c15652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:54 +0000
Subject: [PATCH 39/56] fix: the gradient at a point of several edges is their
 mean

---
 src/GeomModels/VectorGradient.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GeomModels/VectorGradient.cc b/src/GeomModels/VectorGradient.cc
index 4bc4736..7756cef 100644
--- a/src/GeomModels/VectorGradient.cc
+++ b/src/GeomModels/VectorGradient.cc
@@ -109,11 +109,11 @@ void VectorGradient<DoubleType>::calc1d() const
         val += vgrad[eindex];
         ++count;
       }
-      if (count != 0)
-      {
-        val /= count;
-        vx[i] = val;
-      }
+    }
+    if (count != 0)
+    {
+      val /= count;
+      vx[i] = val;
     }
   }
 
-- 
2.43.0


From b217a7ac00a6e1dd50043bff36112693abe71354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 40/56] fix: a refused or truncated devsim file leaves no
 device, no lexer state and no open file

---
 src/meshing/DevsimParser.y  |  1 +
 src/meshing/DevsimReader.cc | 41 +++++++++++++++++++++++++++++++++++++
 src/meshing/DevsimReader.hh |  4 ++++
 src/meshing/DevsimScanner.l | 37 +++++++++++++++++++++++++++++++--
 4 files changed, 81 insertions(+), 2 deletions(-)

diff --git a/src/meshing/DevsimParser.y b/src/meshing/DevsimParser.y
index 1821327..691e074 100644
--- a/src/meshing/DevsimParser.y
+++ b/src/meshing/DevsimParser.y
@@ -76,6 +76,7 @@ begin_devicecmd : BEG_DEVICE WORD  {
         dsDevsimParse::DevsimLoader = new dsMesh::DevsimLoader($2);
         dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
         mk.AddMesh(dsDevsimParse::DevsimLoader);
+        dsDevsimParse::AddLoad($2);
     }
 }
 ;
diff --git a/src/meshing/DevsimReader.cc b/src/meshing/DevsimReader.cc
index d0f7927..987e44d 100644
--- a/src/meshing/DevsimReader.cc
+++ b/src/meshing/DevsimReader.cc
@@ -7,6 +7,11 @@ SPDX-License-Identifier: Apache-2.0
 
 #include "DevsimReader.hh"
 #include "DevsimLoader.hh"
+#include "GlobalData.hh"
+#include "MeshKeeper.hh"
+#include <set>
+#include <string>
+#include <vector>
 
 namespace dsDevsimParse {
 int meshlineno;
@@ -29,5 +34,41 @@ void DeletePointers()
     Sol.reset();
     Equation.reset();
 }
+
+namespace {
+//// to take back a file which is not loaded completely
+std::vector<std::string> loaded_devices;
+std::set<std::string>    present_devices;
+}
+
+void BeginLoad()
+{
+    loaded_devices.clear();
+    present_devices.clear();
+    for (const auto &d : GlobalData::GetInstance().GetDeviceList())
+    {
+        present_devices.insert(d.first);
+    }
+}
+
+void AddLoad(const std::string &name)
+{
+    loaded_devices.push_back(name);
+}
+
+void CancelLoad()
+{
+    for (const auto &name : loaded_devices)
+    {
+        if (present_devices.count(name) == 0)
+        {
+            GlobalData::GetInstance().DeleteDevice(name);
+        }
+        dsMesh::MeshKeeper::GetInstance().DeleteMesh(name);
+    }
+    loaded_devices.clear();
+    DevsimLoader = nullptr;
+    DeletePointers();
+}
 }
 
diff --git a/src/meshing/DevsimReader.hh b/src/meshing/DevsimReader.hh
index 6256264..6eb9802 100644
--- a/src/meshing/DevsimReader.hh
+++ b/src/meshing/DevsimReader.hh
@@ -30,6 +30,10 @@ extern std::string errors;
 
 void DeletePointers();
 
+void BeginLoad();
+void AddLoad(const std::string &/*deviceName*/);
+void CancelLoad();
+
 bool LoadMeshes(const std::string &/*filename*/, std::string &/*errorString*/);
 }
 
diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index 004ac56..c550558 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -10,6 +10,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "DevsimReader.hh"
 #include "DevsimParser.hh"
 #include <sstream>
+#include <exception>
 #define YY_NO_UNPUT
 #ifdef _WIN32
 #include <io.h>
@@ -318,6 +319,7 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
     bool ret = false;
     dsDevsimParse::errors.clear();
     dsDevsimParse::meshlineno = 1;
+    dsDevsimParse::BeginLoad();
 
     Devsimin = fopen(fname.c_str(), "r");
 
@@ -332,13 +334,44 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
     else
     {
         Devsim_switch_to_buffer(Devsim_create_buffer( Devsimin, YY_BUF_SIZE ) );
-        retval = Devsimparse();
+        // a previous file may have ended inside of a section
+        while (yy_start_stack_ptr > 0)
+        {
+          yy_pop_state();
+        }
+        BEGIN(INITIAL);
+        std::exception_ptr failure;
+        try
+        {
+          retval = Devsimparse();
+        }
+        catch (...)
+        {
+          failure = std::current_exception();
+        }
         yy_delete_buffer( YY_CURRENT_BUFFER );
+        fclose(Devsimin);
+        Devsimin = nullptr;
+        if (failure)
+        {
+          dsDevsimParse::CancelLoad();
+          std::rethrow_exception(failure);
+        }
+        if (!retval && dsDevsimParse::DevsimLoader)
+        {
+          retval = 1;
+          std::ostringstream os;
+          os << "File " << fname << " ended inside of a device\n";
+          errorString += os.str();
+        }
     }
 
-
     ret = !retval;
 
+    if (!ret)
+    {
+      dsDevsimParse::CancelLoad();
+    }
     dsDevsimParse::DeletePointers();
     errorString += dsDevsimParse::errors;
     return ret;
-- 
2.43.0


From 2edac849b1e7a1e94814f4e08cd2e3d50e31fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 41/56] fix: surface areas in 1D only from the contacts and
 interfaces of the region

---
 src/GeomModels/SurfaceArea.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/GeomModels/SurfaceArea.cc b/src/GeomModels/SurfaceArea.cc
index 23d6082..34249e7 100644
--- a/src/GeomModels/SurfaceArea.cc
+++ b/src/GeomModels/SurfaceArea.cc
@@ -73,7 +73,8 @@ void SurfaceArea<DoubleType>::calcSurfaceArea1d() const
     ConstEdgeModelPtr elen = GetRegion().GetEdgeModel("EdgeLength");
     dsAssert(elen.get(), "UNEXPECTED");
 
-    const Device &device = *GetRegion().GetDevice();
+    const Region &region = GetRegion();
+    const Device &device = *region.GetDevice();
 
     const Device::CoordinateIndexToInterface_t &cti = device.GetCoordinateIndexToInterface();
     const Device::CoordinateIndexToContact_t   &ctc = device.GetCoordinateIndexToContact();
@@ -90,15 +91,25 @@ void SurfaceArea<DoubleType>::calcSurfaceArea1d() const
         const size_t ci  = node.GetCoordinate().GetIndex();
         const size_t ni  = node.GetIndex();
 
-        if (cti.count(ci))
+        if (auto iit = cti.find(ci); iit != cti.end())
         {
-            const DoubleType length = 1.0;
-            nv[ni] += length;
+            for (const auto &ip : iit->second)
+            {
+                if ((ip->GetRegion0() == &region) || (ip->GetRegion1() == &region))
+                {
+                    nv[ni] = 1.0;
+                }
+            }
         }
-        if (ctc.count(ci))
+        if (auto cit = ctc.find(ci); cit != ctc.end())
         {
-            const DoubleType length = 1.0;
-            ca[ni] += length;
+            for (const auto &cp : cit->second)
+            {
+                if (cp->GetRegion() == &region)
+                {
+                    ca[ni] = 1.0;
+                }
+            }
         }
     }
     SetValues(nv);
-- 
2.43.0


From 9b33dc348fddb41316eeeb16a1aee3a5383beca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 42/56] fix: cylindrical models are saved with the commands
 which exist

---
 src/GeomModels/TriangleCylindricalEdgeCouple.cc | 2 +-
 src/GeomModels/TriangleCylindricalNodeVolume.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GeomModels/TriangleCylindricalEdgeCouple.cc b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
index 80924fe..aaaf29a 100644
--- a/src/GeomModels/TriangleCylindricalEdgeCouple.cc
+++ b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
@@ -161,7 +161,7 @@ Vector<DoubleType> TriangleCylindricalEdgeCouple<DoubleType>::calcTriangleCylind
 template <typename DoubleType>
 void TriangleCylindricalEdgeCouple<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalEdgeCouple<double>;
diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index db0043a..c789501 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -261,7 +261,7 @@ std::vector<DoubleType> TriangleCylindricalNodeVolume<DoubleType>::calcTriangleC
 template <typename DoubleType>
 void TriangleCylindricalNodeVolume<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalNodeVolume<double>;
-- 
2.43.0


From 90f853a8b4199efffcd69c3d496108030495f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 43/56] fix: element_from_edge_model derivatives on tetrahedra
 are saved as such

---
 src/models/TetrahedronEdgeFromEdgeModelDerivative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
index 2cd56ed..48c6d34 100644
--- a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
+++ b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
@@ -147,7 +147,7 @@ void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::calcTetrahedronEdgeScal
 template <typename DoubleType>
 void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_pair_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
+  of << "COMMAND element_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
 }
 
 template class TetrahedronEdgeFromEdgeModelDerivative<double>;
-- 
2.43.0


From 43234546294de34b219877482d415f87c119b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 44/56] fix: interface node pairs of a loaded file are paired
 by coordinate without erasing past the end

---
 src/meshing/DevsimLoader.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index 66e229f..adee868 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -363,12 +363,10 @@ void FixNodePairs(MeshInterface &mint, ConstNodeList &cn0, ConstNodeList &cn1)
     {
       (*jt).second.second = (*it)->GetIndex();
     }
-    else
-    {
-      mmap.erase(jt);
-    }
   }
 
+  cn0.clear();
+  cn1.clear();
   for (std::map<size_t, std::pair<size_t, size_t> >::iterator it = mmap.begin(); it != mmap.end(); ++it)
   {
     if ((*it).second.second != size_t(-1))
@@ -572,6 +570,7 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
         GetNodes(mint.GetMeshRegion0(), rp0, cn0);
         GetNodes(mint.GetMeshRegion1(), rp1, cn1);
         FixNodePairs(mint, cn0, cn1);
+        mnp = mint.GetNodePairs();
       }
 
       if (!mnp.empty())
-- 
2.43.0


From 02a633a73961cdc375f802df3075f85e27eeed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 45/56] fix: write_devices of a device which does not exist
 leaves an existing file alone

---
 src/commands/MeshingCommands.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 2a4e492..86ef9dc 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -846,6 +846,12 @@ writeDevicesCmd(CommandHandler &data)
     {
         ret = mw->WriteMeshes(fileName, include_test, errorString);
     }
+    else if (!GlobalData::GetInstance().GetDevice(device))
+    {
+        // an existing file must not be opened
+        ret = false;
+        errorString += "Device \"" + device + "\" does not exist\n";
+    }
     else
     {
         ret = mw->WriteMesh(device, fileName, include_test, errorString);
-- 
2.43.0


From 583d68dedd6cae9e15c7d73cae2e6854ca308215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:34 +0000
Subject: [PATCH 46/56] fix: saved values keep all of their bits

---
 src/meshing/DevsimRestartWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 69bd1ee..5e56ce2 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -179,7 +179,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
   std::ios oldState(nullptr);
   oldState.copyfmt(myfile);
 
-  myfile << std::setprecision(15) << std::scientific;
+  myfile << std::setprecision(16) << std::scientific;
   GlobalData   &gdata = GlobalData::GetInstance();
 
   DevicePtr dp = gdata.GetDevice(dname);
-- 
2.43.0


From 83394210dbb3ca1be2ccca9eaa1df186dd9c83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:34 +0000
Subject: [PATCH 47/56] fix: contacts without elements keep their nodes when
 saved

---
 src/meshing/DevsimRestartWriter.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 5e56ce2..9a0039e 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -262,7 +262,8 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
 
       const ConstNodeList_t &ctnodes = cnt.GetNodes();
 
-      if (dimension == 1)
+      //// a contact does not need to have elements
+      if (!ctnodes.empty())
       {
         myfile << "begin_nodes\n";
         for (ConstNodeList_t::const_iterator ctit = ctnodes.begin(); ctit != ctnodes.end(); ++ctit)
@@ -271,7 +272,8 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
         }
         myfile << "end_nodes\n\n";
       }
-      else if (dimension == 2)
+
+      if (dimension == 2)
       {
         const ConstEdgeList_t &itedges = cnt.GetEdges();
         if (!itedges.empty())
-- 
2.43.0


From 2203d10e216ece322b66e6bbff403228103e487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:34 +0000
Subject: [PATCH 48/56] fix: a device file which can not be written is an error

---
 src/meshing/DevsimRestartWriter.cc | 18 +++++++++++++++---
 src/meshing/DevsimWriter.cc        | 18 +++++++++++++++---
 src/meshing/TecplotWriter.cc       | 23 ++++++++++++++++++++---
 src/meshing/VTKWriter.cc           | 17 ++++++++++++++---
 4 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 9a0039e..04c0569 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -407,7 +407,7 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -416,6 +416,13 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
     }
+
+    myfile.close();
+    if (ret && !myfile)
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
     errorString += os.str();
     return ret;
 }
@@ -427,7 +434,7 @@ bool DevsimRestartWriter::WriteMeshes_(const std::string &filename, MeshWriterTe
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -435,13 +442,18 @@ bool DevsimRestartWriter::WriteMeshes_(const std::string &filename, MeshWriterTe
 
     GlobalData   &gdata = GlobalData::GetInstance();
     const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
-    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
+    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); ret && dit != dlist.end(); ++dit)
     {
         const std::string &dname = dit->first;
         ret = WriteSingleDevice(dname, myfile, errorString);
     }
 
     myfile.close();
+    if (ret && !myfile)
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/DevsimWriter.cc b/src/meshing/DevsimWriter.cc
index 5e1f65a..9ea01ac 100644
--- a/src/meshing/DevsimWriter.cc
+++ b/src/meshing/DevsimWriter.cc
@@ -244,7 +244,7 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -253,6 +253,13 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
     }
+
+    myfile.close();
+    if (ret && !myfile)
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
     errorString += os.str();
     return ret;
 }
@@ -264,7 +271,7 @@ bool DevsimWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t, s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -272,13 +279,18 @@ bool DevsimWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t, s
 
     GlobalData   &gdata = GlobalData::GetInstance();
     const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
-    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
+    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); ret && dit != dlist.end(); ++dit)
     {
         const std::string &dname = dit->first;
         ret = WriteSingleDevice(dname, myfile, errorString);
     }
 
     myfile.close();
+    if (ret && !myfile)
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index ba61f36..43464f5 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -797,7 +797,7 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
@@ -806,6 +806,13 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
     {
         ret = Tecplot::WriteSingleDevice(deviceName, myfile, include_test, errorString);
     }
+
+    myfile.close();
+    if (ret && !myfile)
+    {
+        ret = false;
+        os << "Could not write " << filename << "\n";
+    }
     errorString += os.str();
     return ret;
 }
@@ -817,7 +824,7 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
@@ -826,7 +833,12 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
     GlobalData   &gdata = GlobalData::GetInstance();
     const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
 
-    if (dlist.size() > 1)
+    if (!ret)
+    {
+        errorString += os.str();
+        return ret;
+    }
+    else if (dlist.size() > 1)
     {
         ret = false;
         os << "More than 1 device in simulation when output format only supports one device.\n";
@@ -840,6 +852,11 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
         }
     }
     myfile.close();
+    if (ret && !myfile)
+    {
+        ret = false;
+        os << "Could not write " << filename << "\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index 1c7f35a..f1dfb5e 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -474,12 +474,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     std::ofstream visitfile;
     vtmfile.open (vtmfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
     visitfile.open (visitfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (vtmfile.bad())
+    if (!vtmfile)
     {
       ret = false;
       os << "Could not open " << vtmfilename << " for writing\n";
     }
-    else if (visitfile.bad())
+    else if (!visitfile)
     {
       ret = false;
       os << "Could not open " << visitfilename << " for writing\n";
@@ -503,7 +503,7 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
         std::ofstream vtufile;
         vtufile.open (vtufilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-        if (vtufile.bad())
+        if (!vtufile)
         {
             ret = false;
             os << "Could not open " << vtufilename << " for writing\n";
@@ -521,6 +521,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
           vtufile << "\n";
           vtufile.close();
+          if (!vtufile)
+          {
+            ret = false;
+            os << "Could not write " << vtufilename << "\n";
+            break;
+          }
           vtufiles.push_back(vtufilename);
         }
         ++i;
@@ -549,6 +555,11 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     }
     vtmfile.close();
     visitfile.close();
+    if (ret && (!vtmfile || !visitfile))
+    {
+      ret = false;
+      os << "Could not write " << vtmfilename << " or " << visitfilename << "\n";
+    }
   }
   errorString += os.str();
   return ret;
-- 
2.43.0


From a3c5222cc8ce394969453431bfb0b09bb2444f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:49 +0000
Subject: [PATCH 49/56] fix: a tecplot file is left alone when there is more
 than one device to write

---
 src/meshing/TecplotWriter.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index 43464f5..9cb133c 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -822,26 +822,23 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
     bool ret = true;
     std::ostringstream os;
 
-    std::ofstream myfile;
-    myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (!myfile)
-    {
-        ret = false;
-        os << "Could not open " << filename << " for writing\n";
-    }
-
     GlobalData   &gdata = GlobalData::GetInstance();
     const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
 
-    if (!ret)
+    // an existing file must not be opened
+    if (dlist.size() > 1)
     {
+        os << "More than 1 device in simulation when output format only supports one device.\n";
         errorString += os.str();
-        return ret;
+        return false;
     }
-    else if (dlist.size() > 1)
+
+    std::ofstream myfile;
+    myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
+    if (!myfile)
     {
         ret = false;
-        os << "More than 1 device in simulation when output format only supports one device.\n";
+        os << "Could not open " << filename << " for writing\n";
     }
     else
     {
-- 
2.43.0


From 945589262808d6aed43338f861e1d878a850b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:49 +0000
Subject: [PATCH 50/56] fix: the filter of a VTK file applies to vectors and
 models of tetrahedra

---
 src/meshing/VTKWriter.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index f1dfb5e..5b28128 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -158,6 +158,11 @@ void WritePointData(const Region &reg, MeshWriterTest_t include_test, std::ostre
       const std::string &nm = it->first;
       const EdgeModel &em = *(it->second);
 
+      if (!include_test(nm))
+      {
+        continue;
+      }
+
       if (em.GetDisplayType() == EdgeModel::DisplayType::VECTOR)
       {
         const NodeVectorList<double> &nvl = em.GetVectorValuesOnNodes<double>();
@@ -239,6 +244,11 @@ void WriteElementData(const Region &reg, MeshWriterTest_t include_test, std::ost
       const std::string &nm = it->first;
       const TetrahedronEdgeModel &em = *(it->second);
 
+      if (!include_test(nm))
+      {
+          continue;
+      }
+
       std::vector<double> nsl;
       if (em.GetDisplayType() == TetrahedronEdgeModel::DisplayType::SCALAR)
       {
-- 
2.43.0


From 32491f598f98db77a83b876fe0e30ac6a73059c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:49 +0000
Subject: [PATCH 51/56] fix: a tecplot file can be written when an edge model
 is a vector in one region only

---
 src/meshing/TecplotWriter.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index 9cb133c..4542b2a 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -269,11 +269,9 @@ void WriteEdgeBlockVector(std::ostream &myfile, const Region &reg, const std::st
 
 
   /// in case the model doesn't exist in our region
-  /// TODO: make sure it is the same type in each region
+  /// the type may be different in each region, and the first one is used
   if (emp)
   {
-    dsAssert(emp->GetDisplayType() == EdgeModel::DisplayType::VECTOR, "UNEXPECTED");
-
     const NodeVectorList<double> &values = emp->GetVectorValuesOnNodes<double>();
     dsAssert(values.size() > 0, "UNEXPECTED");
 
-- 
2.43.0


From 4bd2ba33ab603b1d7849c335e607dbbd400697e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:37 +0000
Subject: [PATCH 52/56] fix: the last block of a VTK array is not lost when it
 is full

---
 src/utility/base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/base64.cc b/src/utility/base64.cc
index 6fd1e43..7e46f53 100644
--- a/src/utility/base64.cc
+++ b/src/utility/base64.cc
@@ -98,7 +98,7 @@ template <typename T> std::string convertVectorToZlibBase64(const std::vector<T>
   for (size_t i = 0; i < numberOfBlocks; ++i)
   {
     size_t inputLength = maxLength;
-    if (i == (numberOfBlocks - 1))
+    if ((numberTInPartialBlock != 0) && (i == (numberOfBlocks - 1)))
     {
       inputLength = sizeof(T) * numberTInPartialBlock;
     }
-- 
2.43.0


From aefb49b6b82602d716fd21206b9191d224287273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:50 +0000
Subject: [PATCH 53/56] fix: circuit commands refuse wrong arguments instead of
 going on without them

---
 src/commands/CircuitCommands.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 15250d8..fc24a43 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -390,6 +390,7 @@ circuitNodeAliasCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -446,6 +447,7 @@ void circuitGetCircuitNodeListCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -487,6 +489,7 @@ void circuitGetCircuitSolutionListCmd (CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -520,6 +523,7 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -609,6 +613,7 @@ circuitGetCircuitEquationNumberCmd (CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   // const std::string commandName = data.GetCommandName();
-- 
2.43.0


From 0724eab48513f151a44d53260db1b0dc2131b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:51 +0000
Subject: [PATCH 54/56] fix: an integer argument which is not an integer is
 refused

---
 src/pythonapi/ObjectHolder.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 27ce406..0198f48 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -217,7 +217,7 @@ ObjectHolder::IntegerEntry_t ObjectHolder::GetInteger() const
 {
   EnsurePythonGIL gil;
 
-  bool   ok = true;
+  bool   ok = false;
   int    val= 0;
 
   ObjectHolder::LongEntry_t lent = this->GetLong();
@@ -251,8 +251,9 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
     PyObject *obj = reinterpret_cast<PyObject *>(object_);
     if (PyLong_CheckExact(obj))
     {
-      ok = true;
       val = PyLong_AsLong(obj);
+      ok = !PyErr_Occurred();
+      PyErr_Clear();
     }
     else if (PyUnicode_CheckExact(obj) || PyBytes_CheckExact(obj))
     {
@@ -264,8 +265,8 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
       {
         if ((*p) == 0)
         {
-          ok = true;
           val = PyLong_AsLong(iobj);
+          ok = !PyErr_Occurred();
         }
         Py_DECREF(iobj);
       }
-- 
2.43.0


From 434de54b5bfa00626c58588ac41fd670fced65ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:51 +0000
Subject: [PATCH 55/56] fix: a Python object which cannot be converted does not
 end the process

---
 src/pythonapi/ObjectHolder.cc | 49 +++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 0198f48..9605ebb 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -129,8 +129,21 @@ std::string GetStringFromStringObject(PyObject *obj)
   if (PyUnicode_CheckExact(obj))
   {
     PyObject *sobj = PyUnicode_AsUTF8String(obj);
-    ret = PyBytes_AsString(sobj);
-    Py_DECREF(sobj);
+    if (!sobj)
+    {
+      // for example, a surrogate
+      PyErr_Clear();
+      sobj = PyUnicode_AsEncodedString(obj, "utf-8", "backslashreplace");
+    }
+    if (sobj)
+    {
+      ret = PyBytes_AsString(sobj);
+      Py_DECREF(sobj);
+    }
+    else
+    {
+      PyErr_Clear();
+    }
   }
   else if (PyBytes_CheckExact(obj))
   {
@@ -154,8 +167,15 @@ std::string ObjectHolder::GetString() const
     if (ret.empty())
     {
       PyObject *strobj = PyObject_Str(obj);
-      ret = GetStringFromStringObject(strobj);
-      Py_DECREF(strobj);
+      if (strobj)
+      {
+        ret = GetStringFromStringObject(strobj);
+        Py_DECREF(strobj);
+      }
+      else
+      {
+        PyErr_Clear();
+      }
     }
   }
   return ret;
@@ -207,6 +227,10 @@ ObjectHolder::BooleanEntry_t ObjectHolder::GetBoolean() const
       ok  = true;
       val = (ret == 1);
     }
+    else
+    {
+      PyErr_Clear();
+    }
   }
 
   return std::make_pair(ok, val);
@@ -318,16 +342,25 @@ bool ObjectHolder::GetListOfObjects(ObjectHolderList_t &objs) const
   PyObject *obj = reinterpret_cast<PyObject *>(object_);
   if (obj && PySequence_Check(obj))
   {
-    ok = true;
-    size_t len = PySequence_Size(obj);
-    objs.resize(len);
-    for (size_t i = 0; i < len; ++i)
+    const Py_ssize_t len = PySequence_Size(obj);
+    ok = (len >= 0);
+    if (ok)
+    {
+      objs.resize(len);
+    }
+    for (Py_ssize_t i = 0; ok && (i < len); ++i)
     {
       //// this is a new reference
       PyObject *lobj = PySequence_GetItem(obj, i);
       //Py_INCREF(lobj);
+      ok = (lobj != nullptr);
       objs[i] = ObjectHolder(lobj);
     }
+    if (!ok)
+    {
+      PyErr_Clear();
+      objs.clear();
+    }
   }
 
   return ok;
-- 
2.43.0


From a33612b40f8b131ceb6a8c3d6b6eb59ebe65e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:48 +0000
Subject: [PATCH 56/56] fix: an option with an empty name is refused as any
 other unknown one

---
 src/pythonapi/GetArgs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pythonapi/GetArgs.cc b/src/pythonapi/GetArgs.cc
index 0041302..6dde853 100644
--- a/src/pythonapi/GetArgs.cc
+++ b/src/pythonapi/GetArgs.cc
@@ -30,7 +30,7 @@ bool GetArgs::processOptions(CommandInfo &tdata, std::string &error)
   for (ObjectHolderMap_t::iterator it = hashmap.begin(); it != hashmap.end(); ++it)
   {
     const std::string &optname = it->first;
-    if (!optname.empty())
+    // an empty name is no option either
     {
       if (optionMap.count(optname))
       {
-- 
2.43.0

