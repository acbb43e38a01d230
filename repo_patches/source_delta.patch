From c50736f450dedff65d284cec6c0e939b71193557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 01/38] fix: FitResult copies keep the print precision and
 replace the stat space safely

The copy constructor and assignment dropped the print precision, and the
assignment tested its own stat space instead of the source's: it leaked the old
one and dereferenced a null source. SetStatSpace leaked the one it replaced.
---
 src/optimise/FitResult.cpp | 13 +++++++++++--
 src/optimise/FitResult.h   |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index c89f4e1..314a48b 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -26,6 +26,9 @@ FitResult::GetBestFit() const
 
 void FitResult::SetStatSpace(const Histogram &statSpace_)
 {
+    if (fStatSpace == &statSpace_)
+        return;
+    delete fStatSpace;
     fStatSpace = new Histogram(statSpace_);
 }
 
@@ -35,13 +38,18 @@ FitResult::GetStatSpace() const
     return *fStatSpace;
 }
 
-FitResult
+FitResult &
 FitResult::operator=(const FitResult &other_)
 {
-    if (!fStatSpace)
+    if (this == &other_)
+        return *this;
+
+    delete fStatSpace;
+    if (!other_.fStatSpace)
         fStatSpace = NULL;
     else
         fStatSpace = new Histogram(*other_.fStatSpace);
+    printPrecision = other_.printPrecision;
     fIsValid = other_.fIsValid;
     fBestFit = other_.fBestFit;
     fExtremeVal = other_.fExtremeVal;
@@ -59,6 +67,7 @@ FitResult::FitResult(const FitResult &other_)
 
     else
         fStatSpace = new Histogram(*other_.fStatSpace);
+    printPrecision = other_.printPrecision;
     fStatSample = other_.fStatSample;
     fBestFit = other_.fBestFit;
     fIsValid = other_.fIsValid;
diff --git a/src/optimise/FitResult.h b/src/optimise/FitResult.h
index 94a54fd..8cc11aa 100644
--- a/src/optimise/FitResult.h
+++ b/src/optimise/FitResult.h
@@ -18,7 +18,7 @@ class FitResult
 public:
    FitResult() : fStatSpace(NULL), fExtremeVal(0), printPrecision(5), fIsValid(true) {}
    FitResult(const FitResult &);           // deep copy
-   FitResult operator=(const FitResult &); // deep copy
+   FitResult &operator=(const FitResult &); // deep copy
    ~FitResult();                           // frees stat space
 
    const ParameterDict &GetBestFit() const;
-- 
2.43.0


From c0cd41e38bae75d4e15fd4a8d892a84c4ecbe62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 02/38] fix: EventConvolution copies its name and releases the
 kernel it replaces

---
 src/eventSystematic/EventConvolution.cpp | 19 ++++++++++++++-----
 src/eventSystematic/EventConvolution.h   |  2 +-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/eventSystematic/EventConvolution.cpp b/src/eventSystematic/EventConvolution.cpp
index c2d7aa1..3073cda 100644
--- a/src/eventSystematic/EventConvolution.cpp
+++ b/src/eventSystematic/EventConvolution.cpp
@@ -23,11 +23,16 @@ EventConvolution::EventConvolution(const EventConvolution &other_)
     fDist = NULL;
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
+  fName = other_.fName;
 }
 
-EventConvolution
+EventConvolution &
 EventConvolution::operator=(const EventConvolution &other_)
 {
+  if (this == &other_)
+    return *this;
+
+  delete fDist;
   if (other_.fDist)
     fDist = other_.fDist->Clone();
   else
@@ -35,6 +40,7 @@ EventConvolution::operator=(const EventConvolution &other_)
 
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
+  fName = other_.fName;
   return *this;
 }
 
@@ -45,23 +51,26 @@ EventConvolution::operator=(const EventConvolution &other_)
 void EventConvolution::SetPDF(PDF *f_)
 {
   if (!f_)
+  {
+    delete fDist;
     fDist = NULL;
+  }
 
   else
   {
     if (f_->GetNDims() != 1)
       throw DimensionError("EventConvolution::SetFunction", 1,
                            f_->GetNDims(), "Only implemented for 1D functions");
+    delete fDist;
     fDist = static_cast<ConditionalPDF *>(new JumpPDF("kernel", f_));
   }
 }
 
 void EventConvolution::SetConditionalPDF(ConditionalPDF *c_)
 {
-  if (!c_)
-    fDist = NULL;
-  else
-    fDist = c_->Clone();
+  ConditionalPDF *dist = c_ ? c_->Clone() : NULL;
+  delete fDist;
+  fDist = dist;
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/src/eventSystematic/EventConvolution.h b/src/eventSystematic/EventConvolution.h
index 5e601b1..3a418aa 100644
--- a/src/eventSystematic/EventConvolution.h
+++ b/src/eventSystematic/EventConvolution.h
@@ -15,7 +15,7 @@ public:
   EventConvolution(const std::string &name_) : fDist(NULL), fName(name_) {}
   ~EventConvolution();
   EventConvolution(const EventConvolution &);
-  EventConvolution operator=(const EventConvolution &);
+  EventConvolution &operator=(const EventConvolution &);
 
   // Get/Set
   void SetPDF(PDF *f);
-- 
2.43.0


From ae9d3c0596e12f9b6d2b49ffe97b82d78b217408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 03/38] fix: JumpPDF assignment releases the PDF it replaces
 and returns itself

---
 src/function/JumpPDF.cpp | 6 +++++-
 src/function/JumpPDF.h   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 308d0f2..48f6a0c 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -33,9 +33,13 @@ JumpPDF::JumpPDF(const JumpPDF &other_)
   fName = other_.fName;
 }
 
-JumpPDF
+JumpPDF &
 JumpPDF::operator=(const JumpPDF &other_)
 {
+  if (this == &other_)
+    return *this;
+
+  delete fPDF;
   if (other_.fPDF)
     fPDF = static_cast<PDF *>(other_.fPDF->Clone());
   else
diff --git a/src/function/JumpPDF.h b/src/function/JumpPDF.h
index f62d966..bae9037 100644
--- a/src/function/JumpPDF.h
+++ b/src/function/JumpPDF.h
@@ -13,7 +13,7 @@ public:
   JumpPDF(const std::string &name_, PDF *);
   ~JumpPDF();
   JumpPDF(const JumpPDF &);
-  JumpPDF operator=(const JumpPDF &);
+  JumpPDF &operator=(const JumpPDF &);
   ConditionalPDF *Clone() const;
 
   // ConditDist Interface, just execute the function on x - x2
-- 
2.43.0


From fe560b203ea87c89347754ddf78c8ebe7b91c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 04/38] fix: VaryingCDF copies its functions deeply and starts
 without a kernel

Copies shared the parameter functions and both released them, a new object had
an indeterminate kernel pointer, and replaced kernels and functions leaked.
---
 src/function/VaryingCDF.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 8e3fa45..5f5b89d 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -16,7 +16,7 @@ using ContainerTools::ToString;
 // Constructory Things //
 /////////////////////////
 
-VaryingCDF::VaryingCDF(const std::string &name_ = "")
+VaryingCDF::VaryingCDF(const std::string &name_ = "") : fCdf(NULL)
 {
     if (name_ == "")
         fName = std::string("VaryingCDF");
@@ -34,16 +34,25 @@ VaryingCDF::~VaryingCDF()
 
 VaryingCDF::VaryingCDF(const VaryingCDF &copy_)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
+    for (std::map<std::string, Function *>::const_iterator it = copy_.fFunctions.begin(); it != copy_.fFunctions.end(); ++it)
+        fFunctions[it->first] = it->second->Clone();
+    fCdf = copy_.fCdf ? copy_.fCdf->Clone() : NULL;
     fName = copy_.fName;
 }
 
 VaryingCDF &
 VaryingCDF::operator=(const VaryingCDF &copy_)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
+    if (this == &copy_)
+        return *this;
+
+    for (std::map<std::string, Function *>::iterator it = fFunctions.begin(); it != fFunctions.end(); ++it)
+        delete it->second;
+    fFunctions.clear();
+    for (std::map<std::string, Function *>::const_iterator it = copy_.fFunctions.begin(); it != copy_.fFunctions.end(); ++it)
+        fFunctions[it->first] = it->second->Clone();
+    delete fCdf;
+    fCdf = copy_.fCdf ? copy_.fCdf->Clone() : NULL;
     fName = copy_.fName;
     return *this;
 }
@@ -77,7 +86,11 @@ VaryingCDF::ConditionalProbability(const std::vector<double> &x_,
 
 void VaryingCDF::SetDependance(const std::string &paraName_, const Function *func_)
 {
-    fFunctions[paraName_] = func_->Clone();
+    Function *func = func_->Clone();
+    std::map<std::string, Function *>::iterator it = fFunctions.find(paraName_);
+    if (it != fFunctions.end())
+        delete it->second;
+    fFunctions[paraName_] = func;
 }
 
 double
@@ -93,7 +106,9 @@ VaryingCDF::Integral(const std::vector<double> &mins_,
 
 void VaryingCDF::SetKernel(ConditionalPDF *PDF_)
 {
-    fCdf = PDF_->Clone();
+    ConditionalPDF *cdf = PDF_->Clone();
+    delete fCdf;
+    fCdf = cdf;
 }
 
 void VaryingCDF::SetKernel(PDF *PDF_)
@@ -101,6 +116,7 @@ void VaryingCDF::SetKernel(PDF *PDF_)
     // BL : If we are passed a PDF we transform to a JumpPDF in order to preserve
     // the structure of shifting a function to a bin center and integrating over
     // over bins relative to that shift.
+    delete fCdf;
     fCdf = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
 }
 
-- 
2.43.0


From 416ef1f3730516b72d449c3ee7f2f0d488867148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 05/38] fix: AnalyticED and CompositeED copy the objects they
 own

AnalyticED had no assignment and CompositeED no copies at all, so two objects
released the same memory. Cloning a CompositeED lost a name set by the user.
---
 src/dist/AnalyticED.cpp  | 14 ++++++++++++++
 src/dist/AnalyticED.h    |  1 +
 src/dist/CompositeED.cpp | 26 ++++++++++++++++++++++++--
 src/dist/CompositeED.h   |  2 ++
 4 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/dist/AnalyticED.cpp b/src/dist/AnalyticED.cpp
index 7498c8e..f325c16 100644
--- a/src/dist/AnalyticED.cpp
+++ b/src/dist/AnalyticED.cpp
@@ -23,6 +23,20 @@ AnalyticED::AnalyticED(const AnalyticED &other_)
     fFunction = dynamic_cast<PDF *>(other_.fFunction->Clone());
 }
 
+AnalyticED &
+AnalyticED::operator=(const AnalyticED &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    delete fFunction;
+    fName = other_.fName;
+    fNorm = other_.fNorm;
+    fObservables = other_.fObservables;
+    fFunction = dynamic_cast<PDF *>(other_.fFunction->Clone());
+    return *this;
+}
+
 EventDistribution *
 AnalyticED::Clone() const
 {
diff --git a/src/dist/AnalyticED.h b/src/dist/AnalyticED.h
index 5c64865..0c3d6b4 100644
--- a/src/dist/AnalyticED.h
+++ b/src/dist/AnalyticED.h
@@ -11,6 +11,7 @@ class AnalyticED : public EventDistribution, public FitComponent
 public:
    AnalyticED(const std::string &, PDF *); // make a copy
    AnalyticED(const AnalyticED &other_);   // deep copy
+   AnalyticED &operator=(const AnalyticED &other_); // deep copy
    ~AnalyticED();                          // frees fFunction
    EventDistribution *Clone() const;
 
diff --git a/src/dist/CompositeED.cpp b/src/dist/CompositeED.cpp
index f9bfb8d..01e8fe6 100644
--- a/src/dist/CompositeED.cpp
+++ b/src/dist/CompositeED.cpp
@@ -23,6 +23,29 @@ CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_)
     }
     fName = name;
 }
+
+CompositeED::CompositeED(const CompositeED &other_)
+{
+    fName = other_.fName;
+    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
+        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
+}
+
+CompositeED &
+CompositeED::operator=(const CompositeED &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    for (size_t i = 0; i < fDistPtrs.size(); i++)
+        delete fDistPtrs[i];
+    fDistPtrs.clear();
+    fName = other_.fName;
+    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
+        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
+    return *this;
+}
+
 CompositeED::~CompositeED()
 {
     for (size_t i = 0; i < fDistPtrs.size(); i++)
@@ -56,8 +79,7 @@ CompositeED::Integral() const
 EventDistribution *
 CompositeED::Clone() const
 {
-    EventDistribution *cp = new CompositeED(fDistPtrs);
-    return static_cast<EventDistribution *>(cp);
+    return static_cast<EventDistribution *>(new CompositeED(*this));
 }
 
 CompositeED
diff --git a/src/dist/CompositeED.h b/src/dist/CompositeED.h
index ce9da0e..db68e58 100644
--- a/src/dist/CompositeED.h
+++ b/src/dist/CompositeED.h
@@ -18,6 +18,8 @@ class CompositeED : public EventDistribution
 public:
    CompositeED(const EventDistribution *p1_, const EventDistribution *p2_);
    CompositeED(const std::vector<EventDistribution *> &pdfs_);
+   CompositeED(const CompositeED &other_);            // deep copy
+   CompositeED &operator=(const CompositeED &other_); // deep copy
    virtual ~CompositeED();
 
    virtual double Probability(const Event &) const;
-- 
2.43.0


From e64b2dd3ef8d6542c7a6d4ee962b195c7e154986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 06/38] fix: Convolution copies the kernel it owns

---
 src/systematic/Convolution.cpp | 30 +++++++++++++++++++++++++++++-
 src/systematic/Convolution.h   |  2 ++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index b22318f..442d3d8 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -14,8 +14,36 @@ void Convolution::SetFunction(PDF *function_)
 
 void Convolution::SetConditionalPDF(ConditionalPDF *c_)
 {
+    ConditionalPDF *dist = c_->Clone();
     delete fDist;
-    fDist = c_->Clone();
+    fDist = dist;
+}
+
+Convolution::Convolution(const Convolution &other_) : Systematic(other_),
+                                                      fDist(other_.fDist ? other_.fDist->Clone() : NULL),
+                                                      fName(other_.fName),
+                                                      fCachedIndexPermutations(other_.fCachedIndexPermutations),
+                                                      fSubMapAxes(other_.fSubMapAxes),
+                                                      fNotSubMapAxes(other_.fNotSubMapAxes),
+                                                      fColumnPerms(other_.fColumnPerms)
+{
+}
+
+Convolution &
+Convolution::operator=(const Convolution &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    Systematic::operator=(other_);
+    delete fDist;
+    fDist = other_.fDist ? other_.fDist->Clone() : NULL;
+    fName = other_.fName;
+    fCachedIndexPermutations = other_.fCachedIndexPermutations;
+    fSubMapAxes = other_.fSubMapAxes;
+    fNotSubMapAxes = other_.fNotSubMapAxes;
+    fColumnPerms = other_.fColumnPerms;
+    return *this;
 }
 
 Convolution::~Convolution()
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 5cc7a2d..88e4c51 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -18,6 +18,8 @@ class Convolution : public Systematic
 public:
    // Constructor/Destructor
    Convolution(const std::string &name_) : fDist(NULL), fName(name_), fCachedIndexPermutations(false) {}
+   Convolution(const Convolution &other_);            // deep copy
+   Convolution &operator=(const Convolution &other_); // deep copy
    ~Convolution();
    // Two ways of setting the kernel for convolution:
    void SetFunction(PDF *function_);                  // Just give me a PDF object directly...
-- 
2.43.0


From 7c717cbae77bafc715a7d0ccae7aaac96df65a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 07/38] fix: EDManager copies own their distributions and
 register their own parameters

---
 src/fitutil/EDManager.cpp | 27 +++++++++++++++++++++++++++
 src/fitutil/EDManager.h   |  2 ++
 2 files changed, 29 insertions(+)

diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 79054c4..737e8be 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -3,6 +3,33 @@
 #include <Event.h>
 #include <Exceptions.h>
 
+EDManager::EDManager(const EDManager &other_) : fNDists(other_.fNDists), fNDims(other_.fNDims),
+                                                fNormalisations(other_.fNormalisations), fName(other_.fName)
+{
+    for (size_t i = 0; i < other_.fDists.size(); i++)
+        fDists.push_back(other_.fDists[i]->Clone());
+    RegisterParameters();
+}
+
+EDManager &
+EDManager::operator=(const EDManager &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    for (size_t i = 0; i < fDists.size(); i++)
+        delete fDists[i];
+    fDists.clear();
+    for (size_t i = 0; i < other_.fDists.size(); i++)
+        fDists.push_back(other_.fDists[i]->Clone());
+    fNDists = other_.fNDists;
+    fNDims = other_.fNDims;
+    fNormalisations = other_.fNormalisations;
+    fName = other_.fName;
+    RegisterParameters();
+    return *this;
+}
+
 EDManager::~EDManager()
 {
     for (size_t i = 0; i < fDists.size(); i++)
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index 53d468e..1bbbfed 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -11,6 +11,8 @@ class EDManager : public FitComponent
 {
 public:
    EDManager() : fNDists(0), fNDims(0), fName("norms") {}
+   EDManager(const EDManager &other_);            // deep copy
+   EDManager &operator=(const EDManager &other_); // deep copy
    ~EDManager(); // free pdf copies
 
    void AddDist(EventDistribution *); // take a copy
-- 
2.43.0


From 621e8d95fcf7d3e356d094f66decdab242d18741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 08/38] fix: ParameterManager releases a parameter it replaces

---
 src/core/ParameterManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/ParameterManager.cpp b/src/core/ParameterManager.cpp
index c26c45d..fe87810 100644
--- a/src/core/ParameterManager.cpp
+++ b/src/core/ParameterManager.cpp
@@ -54,12 +54,15 @@ ParameterManager::GetParameterCount() const
 
 void ParameterManager::Add(FitParameter *p_, const std::string &n_)
 {
+    std::map<std::string, FitParameter *>::iterator it = fParamPtrs.find(n_);
+    if (it != fParamPtrs.end())
+        delete it->second;
     fParamPtrs[n_] = p_;
 }
 
 void ParameterManager::AddDouble(double &d_, const std::string &n_)
 {
-    fParamPtrs[n_] = new DoubleParameter(d_);
+    Add(new DoubleParameter(d_), n_);
 }
 
 void ParameterManager::Clear()
-- 
2.43.0


From 16ef478f5885ee6924a57c3bd7ce622feba35e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 09/38] fix: LazyOXSXDataSet copies register themselves and
 release what they held

---
 src/data/LazyOXSXDataSet.cpp | 9 +++++++--
 src/data/LazyOXSXDataSet.h   | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index 7e976fb..6e26d63 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -12,13 +12,17 @@ LazyOXSXDataSet::LazyOXSXDataSet(const LazyOXSXDataSet &other_)
 {
   fFileName = other_.fFileName;
   fDataSet = NULL;
+  Register();
 }
 
-LazyOXSXDataSet
+LazyOXSXDataSet &
 LazyOXSXDataSet::operator=(const LazyOXSXDataSet &other_)
 {
+  if (this == &other_)
+    return *this;
+
+  Close();
   fFileName = other_.fFileName;
-  fDataSet = NULL;
   return *this;
 }
 
@@ -50,6 +54,7 @@ void LazyOXSXDataSet::Load() const
 {
   for (size_t i = 0; i < fFiles.size(); i++)
     fFiles[i]->Close();
+  Close();
   fDataSet = IO::LoadDataSet(fFileName);
 }
 
diff --git a/src/data/LazyOXSXDataSet.h b/src/data/LazyOXSXDataSet.h
index 7918928..1aa54b3 100644
--- a/src/data/LazyOXSXDataSet.h
+++ b/src/data/LazyOXSXDataSet.h
@@ -16,7 +16,7 @@ public:
     LazyOXSXDataSet(const std::string &filename_) : fFileName(filename_), fDataSet(NULL) { Register(); }
     ~LazyOXSXDataSet(); // frees fData
     LazyOXSXDataSet(const LazyOXSXDataSet &);
-    LazyOXSXDataSet operator=(const LazyOXSXDataSet &);
+    LazyOXSXDataSet &operator=(const LazyOXSXDataSet &);
 
     // Memory management
     void Load() const;
-- 
2.43.0


From 3ba6360ed7fc01ad4ddc02e85010ef3bb74f3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 10/38] fix: OXSXDataSet copies look names up in themselves,
 and + leaves its operands alone

The events of a copied data set kept pointing at the names of the original, and
a + b appended b to a.
---
 src/data/OXSXDataSet.cpp | 34 +++++++++++++++++++++++++++++++---
 src/data/OXSXDataSet.h   |  6 +++++-
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index 7b93c19..9b94d5b 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -2,6 +2,33 @@
 #include <Event.h>
 #include <Exceptions.h>
 #include <iostream>
+
+OXSXDataSet::OXSXDataSet(const OXSXDataSet &other_) : DataSet(other_), fData(other_.fData),
+                                                      fObservableNames(other_.fObservableNames),
+                                                      fNObservables(other_.fNObservables)
+{
+    PointEventsAtNames();
+}
+
+OXSXDataSet &
+OXSXDataSet::operator=(const OXSXDataSet &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    fData = other_.fData;
+    fObservableNames = other_.fObservableNames;
+    fNObservables = other_.fNObservables;
+    PointEventsAtNames();
+    return *this;
+}
+
+void OXSXDataSet::PointEventsAtNames()
+{
+    for (size_t i = 0; i < fData.size(); i++)
+        fData[i].SetObservableNames(&fObservableNames);
+}
+
 void OXSXDataSet::AddEntry(const Event &evData_)
 {
     // fNObservables is zero at initialisation, after the first time it is set it shouldnt change
@@ -50,12 +77,13 @@ OXSXDataSet::GetObservableNames() const
 }
 
 OXSXDataSet
-OXSXDataSet::operator+(const OXSXDataSet &other_)
+OXSXDataSet::operator+(const OXSXDataSet &other_) const
 {
+    OXSXDataSet sum(*this);
     for (size_t i = 0; i < other_.GetNEntries(); i++)
-        AddEntry(other_.GetEntry(i));
+        sum.AddEntry(other_.GetEntry(i));
 
-    return *this;
+    return sum;
 }
 
 void OXSXDataSet::Reserve(int i)
diff --git a/src/data/OXSXDataSet.h b/src/data/OXSXDataSet.h
index 54fff34..18dd100 100644
--- a/src/data/OXSXDataSet.h
+++ b/src/data/OXSXDataSet.h
@@ -15,6 +15,8 @@ class OXSXDataSet : public DataSet
 {
 public:
     OXSXDataSet() : fNObservables(0) {}
+    OXSXDataSet(const OXSXDataSet &other_);
+    OXSXDataSet &operator=(const OXSXDataSet &other_);
 
     void AddEntry(const Event &);
     Event GetEntry(size_t eventIndex_) const;
@@ -25,7 +27,7 @@ public:
     std::vector<std::string> GetObservableNames() const;
 
     // concatenate
-    OXSXDataSet operator+(const OXSXDataSet &other_);
+    OXSXDataSet operator+(const OXSXDataSet &other_) const;
 
     void Reserve(int);
 
@@ -33,5 +35,7 @@ private:
     std::vector<Event> fData;
     std::vector<std::string> fObservableNames;
     unsigned fNObservables;
+
+    void PointEventsAtNames(); // the events look their names up in this data set
 };
 #endif
-- 
2.43.0


From f60cbb98fd94a51ea846e67a96bc63877d7c5f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 11/38] fix: BinnedEDManager copies register their own
 parameters

A copied manager had no fit parameters at all.
---
 src/fitutil/BinnedEDManager.cpp | 29 +++++++++++++++++++++++++++++
 src/fitutil/BinnedEDManager.h   |  4 +++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 6de255d..f1f4401 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -5,6 +5,35 @@
 #include <Exceptions.h>
 #include <sstream>
 
+BinnedEDManager::BinnedEDManager(const BinnedEDManager &other_) : fOriginalPdfs(other_.fOriginalPdfs), fWorkingPdfs(other_.fWorkingPdfs),
+                                                                  fNormalisations(other_.fNormalisations),
+                                                                  fAllowNormsFittable(other_.fAllowNormsFittable),
+                                                                  fFittableNorms(other_.fFittableNorms),
+                                                                  fAllNormsDirFittable(other_.fAllNormsDirFittable),
+                                                                  fNPdfs(other_.fNPdfs), fNDims(other_.fNDims), fName(other_.fName)
+{
+    RegisterParameters();
+}
+
+BinnedEDManager &
+BinnedEDManager::operator=(const BinnedEDManager &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    fOriginalPdfs = other_.fOriginalPdfs;
+    fWorkingPdfs = other_.fWorkingPdfs;
+    fNormalisations = other_.fNormalisations;
+    fAllowNormsFittable = other_.fAllowNormsFittable;
+    fFittableNorms = other_.fFittableNorms;
+    fAllNormsDirFittable = other_.fAllNormsDirFittable;
+    fNPdfs = other_.fNPdfs;
+    fNDims = other_.fNDims;
+    fName = other_.fName;
+    RegisterParameters();
+    return *this;
+}
+
 unsigned
 BinnedEDManager::GetNPdfs() const
 {
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 18ccce7..1bac54d 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -22,7 +22,9 @@ enum NormFittingStatus
 class BinnedEDManager : public FitComponent
 {
 public:
-   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fName("norms") {}
+   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0), fName("norms") {}
+   BinnedEDManager(const BinnedEDManager &other_);
+   BinnedEDManager &operator=(const BinnedEDManager &other_);
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
-- 
2.43.0


From bfe4ea106df28800b4e73f685e7d991be104c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 12/38] fix: SpectralFitDist clones whole, sets bin contents
 and keeps parameter names unique

SetParameter overwrote the name of the bin with the value, cloning sliced to a
BinnedED, and two bins could be given the same name.
---
 src/dist/SpectralFitDist.cpp | 10 +++++++++-
 src/dist/SpectralFitDist.h   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index 91c5454..4ff46c4 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -22,13 +22,19 @@ SpectralFitDist::SpectralFitDist(const std::string &name_,
     fName = name_;
 }
 
+EventDistribution *
+SpectralFitDist::Clone() const
+{
+    return static_cast<EventDistribution *>(new SpectralFitDist(*this));
+}
+
 void SpectralFitDist::SetParameter(const std::string &name_, double value)
 {
     std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), name_);
     if (it == fBinNames.end())
         throw ParameterError("Can't set " + name_ + ", parameters are called " + ToString(fBinNames));
 
-    *it = value;
+    fHistogram.SetBinContent(it - fBinNames.begin(), value);
 }
 
 double
@@ -76,6 +82,8 @@ void SpectralFitDist::RenameParameter(const std::string &old_, const std::string
     std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), old_);
     if (it == fBinNames.end())
         throw ParameterError("Can't rename " + old_ + " it doesn't exist, parameters are called: \n " + ToString(fBinNames));
+    if (std::find(fBinNames.begin(), fBinNames.end(), new_) != fBinNames.end())
+        throw ParameterError("Can't rename " + old_ + " to " + new_ + ", it already exists, parameters are called: \n " + ToString(fBinNames));
     *it = new_;
 }
 
diff --git a/src/dist/SpectralFitDist.h b/src/dist/SpectralFitDist.h
index f141ac7..da7f661 100644
--- a/src/dist/SpectralFitDist.h
+++ b/src/dist/SpectralFitDist.h
@@ -8,6 +8,7 @@ class SpectralFitDist : public BinnedED, public FitComponent
 public:
    SpectralFitDist(const std::string &name_,
                    const AxisCollection &axes_);
+   EventDistribution *Clone() const;
 
    // Make this fittable with each bin content adjustable
    void SetParameter(const std::string &name_, double value);
-- 
2.43.0


From c1142340c5862f744ef64e4b4eac9f81857c6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 13/38] fix: FitResult::SetStatSpace copies before it releases

---
 src/optimise/FitResult.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index 314a48b..65a1949 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -26,10 +26,9 @@ FitResult::GetBestFit() const
 
 void FitResult::SetStatSpace(const Histogram &statSpace_)
 {
-    if (fStatSpace == &statSpace_)
-        return;
+    Histogram *statSpace = new Histogram(statSpace_);
     delete fStatSpace;
-    fStatSpace = new Histogram(statSpace_);
+    fStatSpace = statSpace;
 }
 
 const Histogram &
-- 
2.43.0


From 9da184c996d8df15e96a3411030b042c368e551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 14/38] fix: constructors leave no member without a value

---
 src/constraint/BivariateQuadraticConstraint.h | 2 +-
 src/constraint/FractionalConstraint.h         | 2 +-
 src/constraint/QuadraticConstraint.h          | 2 +-
 src/constraint/RatioConstraint.h              | 2 +-
 src/constraint/ShapeConstraint.h              | 2 +-
 src/count/CountingExperiment.h                | 2 ++
 src/cut/BoolCut.h                             | 1 -
 src/fitutil/SystematicManager.h               | 1 +
 src/optimise/GridSearch.h                     | 2 +-
 src/optimise/MCMC.h                           | 4 +++-
 src/optimise/MCMCSamples.h                    | 3 ++-
 src/systematic/Renorm.h                       | 2 +-
 src/teststat/BinnedNLLH.h                     | 1 -
 src/teststat/ChiSquare.h                      | 2 +-
 14 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/constraint/BivariateQuadraticConstraint.h b/src/constraint/BivariateQuadraticConstraint.h
index 61a336b..f914ac7 100644
--- a/src/constraint/BivariateQuadraticConstraint.h
+++ b/src/constraint/BivariateQuadraticConstraint.h
@@ -12,7 +12,7 @@ class BivariateQuadraticConstraint
 {
 public:
     // Default constructor
-    BivariateQuadraticConstraint() {}
+    BivariateQuadraticConstraint() : fMean1(0), fSigma1(0), fMean2(0), fSigma2(0), fCorr(0) {}
     // Main constructor
     BivariateQuadraticConstraint(double mean_1, double sigma_1, double mean_2, double sigma_2, double correlation) : fMean1(mean_1), fSigma1(sigma_1), fMean2(mean_2), fSigma2(sigma_2), fCorr(correlation)
     {
diff --git a/src/constraint/FractionalConstraint.h b/src/constraint/FractionalConstraint.h
index 1039271..e431298 100644
--- a/src/constraint/FractionalConstraint.h
+++ b/src/constraint/FractionalConstraint.h
@@ -11,7 +11,7 @@ class FractionalConstraint
 {
 public:
     // Default constructor
-    FractionalConstraint() {}
+    FractionalConstraint() : fFractionalMean(0), fFractionalSigma(0) {}
     // Main constructor
     FractionalConstraint(double mean_, double sigma_) : fFractionalMean(mean_), fFractionalSigma(sigma_) {}
 
diff --git a/src/constraint/QuadraticConstraint.h b/src/constraint/QuadraticConstraint.h
index b8f6323..920bf6f 100644
--- a/src/constraint/QuadraticConstraint.h
+++ b/src/constraint/QuadraticConstraint.h
@@ -9,7 +9,7 @@
 class QuadraticConstraint
 {
 public:
-    QuadraticConstraint() {}
+    QuadraticConstraint() : fMean(0), fWidth(0), fWidth_lo(0), is_asym(false) {}
     // Symmetric constraint constructor
     QuadraticConstraint(double mean_, double width_) : fMean(mean_), fWidth(width_), fWidth_lo(0), is_asym(false) {}
     // Asymmetric constraint constructor
diff --git a/src/constraint/RatioConstraint.h b/src/constraint/RatioConstraint.h
index 1948b66..4bced9e 100644
--- a/src/constraint/RatioConstraint.h
+++ b/src/constraint/RatioConstraint.h
@@ -11,7 +11,7 @@ class RatioConstraint
 {
 public:
     // Default constructor
-    RatioConstraint() {}
+    RatioConstraint() : fRatioMean(0), fRatioSigma(0) {}
     // Main constructor
     RatioConstraint(double mean_, double sigma_) : fRatioMean(mean_), fRatioSigma(sigma_) {}
 
diff --git a/src/constraint/ShapeConstraint.h b/src/constraint/ShapeConstraint.h
index 37f2e38..4298db8 100644
--- a/src/constraint/ShapeConstraint.h
+++ b/src/constraint/ShapeConstraint.h
@@ -20,7 +20,7 @@ class ShapeConstraint
 {
 public:
     // Default constructor
-    ShapeConstraint() {}
+    ShapeConstraint() : fShapeMean(0), fShapeSigma(0) {}
     // Main constructor
     ShapeConstraint(const ShapeFunc &shape_func_, double mean_, double sigma_) : fShapeFunc(shape_func_), fShapeMean(mean_), fShapeSigma(sigma_) {}
 
diff --git a/src/count/CountingExperiment.h b/src/count/CountingExperiment.h
index 4411219..2d3fc11 100644
--- a/src/count/CountingExperiment.h
+++ b/src/count/CountingExperiment.h
@@ -10,6 +10,8 @@ class EventSystematic;
 class CountingExperiment
 {
 public:
+   CountingExperiment() : fTestDataSet(NULL), fSignalDataSet(NULL) {}
+
    void CountData(DataSet *);
    void CountBackgrounds();
    void CountSignal();
diff --git a/src/cut/BoolCut.h b/src/cut/BoolCut.h
index e77add5..da2a370 100644
--- a/src/cut/BoolCut.h
+++ b/src/cut/BoolCut.h
@@ -15,7 +15,6 @@ public:
 private:
    std::string fName;
    std::string fObs;
-   size_t fDim;
    double fVal;
 };
 #endif
diff --git a/src/fitutil/SystematicManager.h b/src/fitutil/SystematicManager.h
index 5cf43af..0c54ed9 100644
--- a/src/fitutil/SystematicManager.h
+++ b/src/fitutil/SystematicManager.h
@@ -23,6 +23,7 @@ public:
    {
       std::vector<Systematic *> holder;
       fGroups[""] = holder;
+      fNGroups = fGroups.size();
    }
    ~SystematicManager() {}
 
diff --git a/src/optimise/GridSearch.h b/src/optimise/GridSearch.h
index e743728..dcb7144 100644
--- a/src/optimise/GridSearch.h
+++ b/src/optimise/GridSearch.h
@@ -9,7 +9,7 @@ class TestStatistic;
 class GridSearch : public Optimiser
 {
 public:
-   GridSearch() : fMaximising(false) {}
+   GridSearch() : fMaximising(false), fMinVal(0) {}
    virtual const FitResult &Optimise(TestStatistic *);
 
    void SetMinima(const ParameterDict &);
diff --git a/src/optimise/MCMC.h b/src/optimise/MCMC.h
index 66139c9..cc540eb 100644
--- a/src/optimise/MCMC.h
+++ b/src/optimise/MCMC.h
@@ -11,13 +11,15 @@ class MCMC : public Optimiser
 {
 public:
    MCMC(MCSampler &s_) : fMaxIter(100000),
+                         fNDims(0),
                          fTestStatLogged(false),
                          fFlipSign(false),
                          fMaxVal(0),
                          fCurrentVal(0.),
                          fSamples(this),
                          pTestStatistic(NULL),
-                         fSampler(s_)
+                         fSampler(s_),
+                         fSaveChain(false)
    {
    }
 
diff --git a/src/optimise/MCMCSamples.h b/src/optimise/MCMCSamples.h
index eab5a53..5a0ca14 100644
--- a/src/optimise/MCMCSamples.h
+++ b/src/optimise/MCMCSamples.h
@@ -14,7 +14,8 @@ public:
    MCMCSamples(MCMC *p_) : fSaveFullHistogram(false), fAcceptedSteps(0), fTotalSteps(0),
                            fBurnIn(1000), fThinFactor(1), fInitialised(false), fMCMC(p_),
                            fAutoCorrelator(1000),
-                           fSaveChain(false)
+                           fChain(NULL), fAccepted(false), fCurrentVal(0),
+                           fStepNumber(0), fStepTime(0), fSaveChain(false)
    {
    }
 
diff --git a/src/systematic/Renorm.h b/src/systematic/Renorm.h
index d44c918..d8c41bf 100644
--- a/src/systematic/Renorm.h
+++ b/src/systematic/Renorm.h
@@ -9,7 +9,7 @@
 class Renorm : public Systematic
 {
 public:
-Renorm(const std::string &name_) : fParamDict(), fName(name_){}
+Renorm(const std::string &name_) : fScaleFactor(1), fParamDict(), fName(name_){}
     void Construct();
 
     void SetScaleFactor(double);
diff --git a/src/teststat/BinnedNLLH.h b/src/teststat/BinnedNLLH.h
index c50f5b7..96416c9 100644
--- a/src/teststat/BinnedNLLH.h
+++ b/src/teststat/BinnedNLLH.h
@@ -51,7 +51,6 @@ private:
    BinnedEDShrinker fPdfShrinker;
 
    BinnedED fDataDist;
-   bool fCalculatedDataDist;
    bool fAlreadyShrunk;
 
    std::vector<unsigned int> fGenRates;
diff --git a/src/teststat/ChiSquare.h b/src/teststat/ChiSquare.h
index 706b69c..7df13d7 100644
--- a/src/teststat/ChiSquare.h
+++ b/src/teststat/ChiSquare.h
@@ -14,7 +14,7 @@ class DataSet;
 class ChiSquare : public TestStatistic
 {
 public:
-   ChiSquare() : fCalculatedDataDist(false) {}
+   ChiSquare() : fCalculatedDataDist(false), fDataSet(NULL) {}
 
    void SetDataSet(DataSet *d);
    DataSet *GetDataSet();
-- 
2.43.0


From c091f9711e72cd15b5501a2346174a02e4184d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 15/38] fix: Shape, ScaleFunction and Renorm take only their
 own parameters and refuse a rename onto an existing one

---
 src/systematic/Renorm.cpp        |  7 +++++--
 src/systematic/ScaleFunction.cpp |  7 +++++--
 src/systematic/Shape.cpp         | 11 +++++++----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index b48d08e..694b0c3 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -47,11 +47,12 @@ double Renorm::GetParameter(const std::string &name_) const
 
 void Renorm::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // Only take the parameters this systematic has: the dict may hold others' too
+    for (auto &&pair : fParamDict)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
@@ -74,6 +75,8 @@ void Renorm::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Renorm: can't rename " + old_);
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("Renorm: can't rename " + old_ + ", " + new_ + " already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index bb5b815..a607e86 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -98,11 +98,12 @@ ScaleFunction::GetParameter(const std::string &name_) const
 
 void ScaleFunction::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // Only take the parameters this systematic has: the dict may hold others' too
+    for (auto &&pair : fParamDict)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
@@ -126,6 +127,8 @@ void ScaleFunction::RenameParameter(const std::string &old_, const std::string &
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("ScaleFunction: can't rename " + old_);
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("ScaleFunction: can't rename " + old_ + ", " + new_ + " already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index b210796..4674fba 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -83,15 +83,16 @@ double Shape::GetParameter(const std::string &name_) const
 
 void Shape::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // Only take the parameters this systematic has: the dict may hold others' too
+    for (auto &&pair : fParamDict)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("Shift: cannot set parameter " + pair.first);
+            throw ParameterError("Shape: cannot set parameter " + pair.first);
         }
     }
 }
@@ -109,7 +110,9 @@ std::set<std::string> Shape::GetParameterNames() const
 void Shape::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
-        throw ParameterError("Shift: can't rename " + old_);
+        throw ParameterError("Shape: can't rename " + old_);
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("Shape: can't rename " + old_ + ", " + new_ + " already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
-- 
2.43.0


From 2c670ba0e78a87ba8c508dbfb527e62652f4edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 16/38] fix: GaussianFitter reads back the parameter asked for,
 refuses unknown names and counts shared names once

---
 src/function/Gaussian.cpp       | 18 +++++++++++++++--
 src/function/GaussianFitter.cpp | 36 ++++++++++++++++-----------------
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/function/Gaussian.cpp b/src/function/Gaussian.cpp
index 907e3d1..3cd6c76 100644
--- a/src/function/Gaussian.cpp
+++ b/src/function/Gaussian.cpp
@@ -109,12 +109,26 @@ Gaussian::GetStDev(size_t dimension_) const
 
 void Gaussian::SetMean(const size_t &dim_, const double &value_)
 {
-    fMeans[dim_] = value_;
+    try
+    {
+        fMeans.at(dim_) = value_;
+    }
+    catch (const std::out_of_range &e_)
+    {
+        throw NotFoundError("Gaussian::Attempted to set Gaussian mean beyond function dimensionality!");
+    }
 }
 
 void Gaussian::SetStDev(const size_t &dim_, const double &value_)
 {
-    fStdDevs[dim_] = value_;
+    try
+    {
+        fStdDevs.at(dim_) = value_;
+    }
+    catch (const std::out_of_range &e_)
+    {
+        throw NotFoundError("Gaussian::Attempted to set Gaussian stdDev beyond function dimensionality!");
+    }
 }
 
 void Gaussian::SetMeans(const std::vector<double> &means_)
diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 2b96f13..7aa2e00 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -39,22 +39,18 @@ GaussianFitter::GaussianFitter(Gaussian *gaus, const std::vector<std::string> &m
 
 void GaussianFitter::RenameParameter(const std::string &old_, const std::string &new_)
 {
-    std::vector<std::string>::iterator it;
     if (find(fMeansNames.begin(), fMeansNames.end(), old_) == fMeansNames.end() && find(fStdDevsNames.begin(), fStdDevsNames.end(), old_) == fStdDevsNames.end())
         throw NotFoundError(Formatter() << "GaussianFitter:: When attempting to renaming the parameter " << old_ << ", it wasn't found. Available names: " << ToString(GetParameterNames()));
 
-    it = find(fMeansNames.begin(), fMeansNames.end(), old_);
-    while (it != fMeansNames.end())
+    for (auto &name : fMeansNames)
     {
-        *it = new_;
-        it = find(it++, fMeansNames.end(), old_);
+        if (name == old_)
+            name = new_;
     }
-
-    it = find(fStdDevsNames.begin(), fStdDevsNames.end(), old_);
-    while (it != fStdDevsNames.end())
+    for (auto &name : fStdDevsNames)
     {
-        *it = new_;
-        it = find(it++, fStdDevsNames.end(), old_);
+        if (name == old_)
+            name = new_;
     }
 }
 
@@ -72,6 +68,9 @@ GaussianFitter::GetStdDevNames() const
 
 void GaussianFitter::SetParameter(const std::string &name_, double value_)
 {
+    if (GetParameterNames().count(name_) == 0)
+        throw NotFoundError(Formatter() << "GaussianFitter:: Parameter : " << name_ << " was not known to the GaussianFitter. Available names: " << ToString(GetParameterNames()));
+
     std::vector<std::string>::iterator it;
     it = find(fMeansNames.begin(), fMeansNames.end(), name_);
     while (it != fMeansNames.end())
@@ -101,15 +100,19 @@ GaussianFitter::GetParameter(const std::string &name_) const
         it = find(fStdDevsNames.begin(), fStdDevsNames.end(), name_);
         if (it == fStdDevsNames.end())
             throw NotFoundError(Formatter() << "GaussianFitter:: Parameter : " << name_ << " was not known to the GaussianFitter. Available names: " << ToString(GetParameterNames()));
-        return fOrignalFunc->GetStDev(std::distance(it, fStdDevsNames.begin()));
+        return fOrignalFunc->GetStDev(std::distance(fStdDevsNames.begin(), it));
     }
-    return fOrignalFunc->GetMean(std::distance(it, fMeansNames.begin()));
+    return fOrignalFunc->GetMean(std::distance(fMeansNames.begin(), it));
 }
 
 void GaussianFitter::SetParameters(const ParameterDict &ps_)
 {
+    // Only take the parameters known here: the dict may hold others' too
+    const std::set<std::string> names = GetParameterNames();
     for (ParameterDict::const_iterator i = ps_.begin(); i != ps_.end(); ++i)
     {
+        if (names.count(i->first) == 0)
+            continue;
         SetParameter(i->first, i->second);
     }
 }
@@ -136,17 +139,14 @@ GaussianFitter::GetParameters() const
 size_t
 GaussianFitter::GetParameterCount() const
 {
-    return fMeansNames.size() + fStdDevsNames.size();
+    return GetParameterNames().size();
 }
 
 std::set<std::string>
 GaussianFitter::GetParameterNames() const
 {
     std::set<std::string> names;
-    for (size_t i = 0; i < fMeansNames.size(); ++i)
-    {
-        names.insert(fMeansNames.at(i));
-        names.insert(fStdDevsNames.at(i));
-    }
+    names.insert(fMeansNames.begin(), fMeansNames.end());
+    names.insert(fStdDevsNames.begin(), fStdDevsNames.end());
     return names;
 }
-- 
2.43.0


From bd9424787d73b049e2b920b9114ca8f9cda7c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 17/38] fix: VaryingCDF sets and renames only in the functions
 that have the parameter

---
 src/function/VaryingCDF.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 5f5b89d..8e0aa2a 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -131,10 +131,17 @@ VaryingCDF::Sample(const std::vector<double> &x2_) const
 
 void VaryingCDF::SetParameter(const std::string &name_, double value_)
 {
+    // A name can belong to several of the functions: set it in each that has it.
+    bool found = false;
     for (std::map<std::string, Function *>::iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (function->second->GetParameterNames().count(name_) == 0)
+            continue;
         function->second->SetParameter(name_, value_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: can't set parameter " << name_ << ". Parameters available : " << ToString(GetParameterNames()));
 }
 
 double
@@ -143,13 +150,8 @@ VaryingCDF::GetParameter(const std::string &name_) const
     // This returns parameters of the parameter functions that have been defined.
     for (const auto &function : fFunctions)
     {
-        try
-        {
+        if (function.second->GetParameterNames().count(name_) != 0)
             return function.second->GetParameter(name_);
-        }
-        catch (const NotFoundError &e_)
-        {
-        }
     }
     // Parameter couldn't be found, so throw exception.
     std::vector<std::string> functionNames;
@@ -184,12 +186,7 @@ VaryingCDF::GetParameters() const
 size_t
 VaryingCDF::GetParameterCount() const
 {
-    size_t number = 0;
-    for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
-    {
-        number += function->second->GetParameterCount();
-    }
-    return number;
+    return GetParameterNames().size();
 }
 
 std::set<std::string>
@@ -206,10 +203,16 @@ VaryingCDF::GetParameterNames() const
 
 void VaryingCDF::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (function->second->GetParameterNames().count(old_) == 0)
+            continue;
         function->second->RenameParameter(old_, new_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: can't rename parameter " << old_ << ". Parameters available : " << ToString(GetParameterNames()));
 }
 
 std::string
-- 
2.43.0


From 58434956cf141b35056974a6cf72eb43ace3023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 18/38] fix: BinnedEDManager gives each pdf its own
 normalisation when direct and indirect ones are mixed

---
 src/fitutil/BinnedEDManager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index f1f4401..c706eb4 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -344,11 +344,12 @@ void BinnedEDManager::ReassertNorms(bool calcing_binprob)
         size_t j = 0;
         for (size_t i = 0; i < fNormalisations.size(); i++)
         {
+            // fFittableNorms has an entry for every pdf with a fittable normalisation
+            if (fAllowNormsFittable.at(i) == FALSE)
+                continue;
             if (fAllowNormsFittable.at(i) == ((calcing_binprob) ? DIRECT : INDIRECT))
-            {
                 fNormalisations[i] = fFittableNorms.at(j);
-                j++;
-            }
+            j++;
         }
     }
 }
-- 
2.43.0


From 01e2deb1c171d01e979142b7b1988678432a3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 19/38] fix: BinnedNLLH takes the positive root for beta when
 the Barlow-Beeston linear term is positive

---
 src/teststat/BinnedNLLH.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 8e18591..6779fb1 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -88,7 +88,7 @@ BinnedNLLH::Evaluate()
             double q = -0.5 * (b + sign * sqrt(det));
 
             double x1 = q;
-            double x2 = fDataDist.GetBinContent(i) * sigma2 / q;
+            double x2 = -1. * fDataDist.GetBinContent(i) * sigma2 / q;
 
             double beta = (x1 > x2) ? x1 : x2;
 
-- 
2.43.0


From cbf18a2dd28a17cafc64525300b64d25de9f2b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 20/38] fix: BinnedNLLH shrinks the data it is given after an
 evaluation

---
 src/fitutil/BinnedEDShrinker.cpp | 5 +++++
 src/teststat/BinnedNLLH.cpp      | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/fitutil/BinnedEDShrinker.cpp b/src/fitutil/BinnedEDShrinker.cpp
index eb585d5..6e3a1af 100644
--- a/src/fitutil/BinnedEDShrinker.cpp
+++ b/src/fitutil/BinnedEDShrinker.cpp
@@ -70,6 +70,11 @@ void BinnedEDShrinker::SetBinMap(const BinnedED &dist_)
 
   size_t nDims = dist_.GetNDims();
 
+  // Start again from any earlier map
+  fNewAxes = AxisCollection();
+  fBinVec.clear();
+  fUseContent.clear();
+
   // FIXME Add a check to see if the non zero entries of fBuffers are in the pdf and give warning
 
   // 1. Build new axes. ShrinkPdf method just makes a copy if buffer size is zero
diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 6779fb1..fea983b 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -130,6 +130,7 @@ void BinnedNLLH::BinData()
     CutLog log(GetCuts().GetCutNames());
     DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
     SetCalculatedDataDist(true);
+    fAlreadyShrunk = false;
     SetSignalCutLog(log);
 }
 
@@ -277,6 +278,7 @@ void BinnedNLLH::SetDataDist(const BinnedED &binnedPdf_)
 {
     fDataDist = binnedPdf_;
     SetCalculatedDataDist(true);
+    fAlreadyShrunk = false;
 }
 
 BinnedED
-- 
2.43.0


From 47fec302b29d2788871fa6cce8a479a76babc1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 21/38] fix: BinnedEDManager::ApplyShrink recognises a shrunk
 distribution in any number of dimensions, each on its own

---
 src/fitutil/BinnedEDManager.cpp | 36 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index c706eb4..54eb578 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -205,25 +205,29 @@ void BinnedEDManager::ApplyShrink(const BinnedEDShrinker &shrinker_)
     if (!shrinker_.GetBuffers().size())
         return;
 
-    // If the number of bins in the working PDFs =/= the number of bins in the corresponding original PDF, it's likely the
-    // shrinking has already been applied. This probably only happens if a buffer is being used without systematics. So
-    // we check if the bins equals the original number minus the shrinking, and if it has we assume the shrinking has already
-    // been applied successfully. If it doesn't equal that or the original number of bins, something bad has happened! For these
-    // tests we assume the buffer and number of bins are the same for all PDFs so just look at the 0th element
-    int bufferBins = 0;
-    std::map<std::string, std::pair<unsigned, unsigned>> bufferMap = shrinker_.GetBuffers();
-    for (std::map<std::string, std::pair<unsigned, unsigned>>::iterator it = bufferMap.begin(); it != bufferMap.end(); ++it)
-    {
-        bufferBins += it->second.first;
-        bufferBins += it->second.second;
-    }
-    if (fWorkingPdfs.at(0).GetNBins() == fOriginalPdfs.at(0).GetNBins() - bufferBins)
-        return;
-    else if (fWorkingPdfs.at(0).GetNBins() != fOriginalPdfs.at(0).GetNBins() )
-        throw DimensionError(Formatter() << "BinnedEDManager:: #bins in Original PDF != #bins in Working PDF");
+    const std::map<std::string, std::pair<unsigned, unsigned>> buffers = shrinker_.GetBuffers();
 
     for (size_t i = 0; i < fWorkingPdfs.size(); i++)
     {
+        // If the number of bins in the working PDF =/= the number of bins in the corresponding original PDF, it's likely the
+        // shrinking has already been applied. This probably only happens if a buffer is being used without systematics. So
+        // we check if the bins equals the number left by the shrinking along each axis, and if it has we assume the shrinking
+        // has already been applied successfully. If it doesn't equal that or the original number of bins, something bad has happened!
+        size_t originalBins = 1;
+        size_t shrunkBins = 1;
+        for (const std::string &axisName : fWorkingPdfs.at(i).GetAxes().GetAxisNames())
+        {
+            const size_t axisBins = fOriginalPdfs.at(i).GetAxes().GetAxis(axisName).GetNBins();
+            size_t bufferBins = 0;
+            if (buffers.count(axisName))
+                bufferBins = buffers.at(axisName).first + buffers.at(axisName).second;
+            originalBins *= axisBins;
+            shrunkBins *= axisBins - bufferBins;
+        }
+        if (fWorkingPdfs.at(i).GetNBins() == shrunkBins)
+            continue;
+        else if (fWorkingPdfs.at(i).GetNBins() != originalBins)
+            throw DimensionError(Formatter() << "BinnedEDManager:: #bins in Original PDF != #bins in Working PDF");
 
         const double integral_before = fWorkingPdfs[i].Integral();
         fWorkingPdfs[i] = shrinker_.ShrinkDist(fWorkingPdfs.at(i));
-- 
2.43.0


From 95841025222488bded1ba75b4488eebde51cfbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 22/38] fix: Histogram bin contents one past the end are
 refused

---
 src/histogram/Histogram.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index db9cbb8..9a1265b 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -109,7 +109,7 @@ Histogram::FindBin(double value) const
 double
 Histogram::GetBinContent(size_t bin_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -118,7 +118,7 @@ Histogram::GetBinContent(size_t bin_) const
 
 void Histogram::AddBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -127,7 +127,7 @@ void Histogram::AddBinContent(size_t bin_, double content_)
 
 void Histogram::SetBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "Out of bounds bin access attempted on bin " << bin_ << " !");
     fBinContents[bin_] = content_;
 }
-- 
2.43.0


From 012a54ba7507f9f4ec8ffe1baa1bd4bf844fe7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 23/38] fix: Histogram::GetSlice puts each content in the bin
 of its own indices

---
 src/histogram/Histogram.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index 9a1265b..f4ac4a3 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -385,12 +385,14 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
     std::cout << "Number of combinations found: " << localIdx.size() << std::endl;
 
     // for every combination, obtain the global flat idx in original histogram
-    size_t bin = 0;
+    std::vector<size_t> sliceCoords(newAxisIndexes.size());
     for (size_t idx = 0; idx < localIdx.size(); idx++)
     {
         size_t oldGlobalBin = fAxes.FlattenIndices(localIdx.at(idx));
+        for (size_t i = 0; i < newAxisIndexes.size(); i++)
+            sliceCoords[i] = localIdx.at(idx).at(newAxisIndexes[i]);
+        size_t bin = slice.FlattenIndices(sliceCoords);
         slice.AddBinContent(bin, fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
-        bin += 1;
     }
 
     return slice;
-- 
2.43.0


From 1f75a4ea4ec573e5ea3b22525f94411a8d4bc04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 24/38] fix: Histogram::GetSlice refuses a bin its axis does
 not have

---
 src/histogram/Histogram.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index f4ac4a3..9d00812 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -321,6 +321,11 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
                                 << "Histogram::GetSlice::Tried "
                                 << "to get slice of non existent axis "
                                 << it->first << "!");
+        if (it->second >= fAxes.GetAxis(it->first).GetNBins())
+            throw NotFoundError(Formatter()
+                                << "Histogram::GetSlice::Tried "
+                                << "to get slice at non existent bin "
+                                << it->second << " of axis " << it->first << "!");
     }
 
     // want to support multidimensional slices
-- 
2.43.0


From b32a65aba338e7fff911d53d70ea3de14028dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 25/38] fix: Histogram::GetLatticePointValues refuses a point
 without neighbours on both sides

---
 src/histogram/Histogram.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index 9d00812..28df627 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -527,6 +527,9 @@ Histogram::GetLatticePointValues(const std::vector<double>& vals, std::vector<st
             // Determine bin indices for lattice point along each axis
             // Turns out this magic formula works!
             const size_t latt_ax_bin = vals_bin_idxs.at(dim) + latt_idx_bits.test(dim) + vals_is_larger.at(dim) - 1;
+            if (latt_ax_bin >= fAxes.GetAxis(dim).GetNBins())
+                throw NotFoundError(Formatter() << "Histogram::GetLatticePointValues(): no lattice point on one side of "
+                                                << vals.at(dim) << " on axis " << dim << "!");
             latt_ax_bins.push_back(latt_ax_bin);
         }
         // add lattice point position & value to vectors
-- 
2.43.0


From 78395ebae97e52a3d394ba71e7f691746f3979b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:31 +0000
Subject: [PATCH 26/38] fix: Convolution follows the order of its
 transformation observables

BlockedBinningIndex took the bin indices of the transformed axes in the
order of the distribution's axes, but the submatrix they index is laid out
in the order of the transformation observables: with the two in different
orders the response was transposed.
---
 src/systematic/Convolution.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index 442d3d8..082918e 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -191,22 +191,19 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
      * convert to the bin number that would be used if we asserted that
      * we counted in the transformed axes first.
      */
-    if (relativeIndices.size() == fAxes.GetNDimensions())
-    {
-        return bin_index; // case where all axes are being transformed is trivial!
-    }
     // First - unpack indices for each axis
     const std::vector<size_t> bin_idxs = fAxes.UnpackIndices(bin_index);
     // Now split these indices into those within the transforing sub-collection, and those which aren't
     std::vector<size_t> bin_idxs_sub;
     std::vector<size_t> bin_idxs_notsub;
+    for (size_t i = 0; i < relativeIndices.size(); i++)
+    {
+        // same order as the axes of fSubMapAxes, which need not be the order of the axes in fAxes
+        bin_idxs_sub.push_back(bin_idxs.at(relativeIndices.at(i)));
+    }
     for (size_t ax_idx = 0; ax_idx < fAxes.GetNDimensions(); ax_idx++)
     {
-        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) != std::end(relativeIndices))
-        {
-            bin_idxs_sub.push_back(bin_idxs.at(ax_idx));
-        }
-        else
+        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) == std::end(relativeIndices))
         {
             bin_idxs_notsub.push_back(bin_idxs.at(ax_idx));
         }
@@ -214,6 +211,10 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
     // Re-pack each individually, the combine to get bin index if going through transformed
     // sub-collection first
     const size_t idx_sub = fSubMapAxes.FlattenIndices(bin_idxs_sub);
+    if (bin_idxs_notsub.empty())
+    {
+        return idx_sub; // case where all axes are being transformed
+    }
     const size_t idx_notsub = fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
     const size_t idx_blocked = idx_sub + idx_notsub * fSubMapAxes.GetNBins();
 
-- 
2.43.0


From 20e3f25ec0b9855f1699cca2f89cb57089b31525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 27/38] fix: systematics drop their cached bin mappings when
 the axes or observables change

Scale, Shift, ScaleFunction, Shape and Convolution work out a mapping of
bins at the first Construct and kept it after SetAxes,
SetTransformationObs or SetDistributionObs, so that a later Construct
filled the response from the mapping of the old axes.
---
 src/systematic/Convolution.h   | 1 +
 src/systematic/Scale.h         | 1 +
 src/systematic/ScaleFunction.h | 1 +
 src/systematic/Shape.h         | 1 +
 src/systematic/Shift.h         | 1 +
 src/systematic/Systematic.cpp  | 3 +++
 src/systematic/Systematic.h    | 3 +++
 7 files changed, 11 insertions(+)

diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 88e4c51..ba2a298 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -53,6 +53,7 @@ private:
    AxisCollection DetermineAxisSubCollection(const std::vector<size_t> &rel_indices) const;
    size_t BlockedBinningIndex(size_t bin_index, const std::vector<size_t> &relativeIndices) const;
    void CacheIndexPermutations();
+   void ClearCache() { fCachedIndexPermutations = false; }
    void ConstructSubmatrix(std::vector<long long unsigned int> &column_indices, std::vector<long long unsigned int> &row_indices,
                            std::vector<double> &vals) const;
    void MakeFullMatrix(const std::vector<long long unsigned int> &column_indices, const std::vector<long long unsigned int> &row_indices,
diff --git a/src/systematic/Scale.h b/src/systematic/Scale.h
index eefca3e..858a19e 100644
--- a/src/systematic/Scale.h
+++ b/src/systematic/Scale.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ClearCache() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/ScaleFunction.h b/src/systematic/ScaleFunction.h
index 52e9d70..60ddcbf 100644
--- a/src/systematic/ScaleFunction.h
+++ b/src/systematic/ScaleFunction.h
@@ -51,6 +51,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ClearCache() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/Shape.h b/src/systematic/Shape.h
index 4f25d4c..1a5ee35 100644
--- a/src/systematic/Shape.h
+++ b/src/systematic/Shape.h
@@ -53,6 +53,7 @@ private:
     bool fCachedBinMapping;
 
     void CacheBinMapping();
+    void ClearCache() { fCachedBinMapping = false; }
 };
 
 #endif
diff --git a/src/systematic/Shift.h b/src/systematic/Shift.h
index 7e4a0e3..ba9f00a 100644
--- a/src/systematic/Shift.h
+++ b/src/systematic/Shift.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ClearCache() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &shiftAxis, double shiftedLow,
                              double shiftedHigh, size_t bin_test);
 };
diff --git a/src/systematic/Systematic.cpp b/src/systematic/Systematic.cpp
index c83a9df..46f1b9f 100644
--- a/src/systematic/Systematic.cpp
+++ b/src/systematic/Systematic.cpp
@@ -40,6 +40,7 @@ Systematic::GetResponse() const
 void Systematic::SetTransformationObs(const ObsSet &rep_)
 {
     fTransObs = rep_;
+    ClearCache();
 }
 
 ObsSet
@@ -51,6 +52,7 @@ Systematic::GetTransformationObs() const
 void Systematic::SetDistributionObs(const ObsSet &rep_)
 {
     fDistObs = rep_;
+    ClearCache();
 }
 
 ObsSet
@@ -95,4 +97,5 @@ void Systematic::SetAxes(const AxisCollection &axes_)
 {
     fAxes = axes_;
     SetResponse(SparseMatrix(axes_.GetNBins(), axes_.GetNBins()));
+    ClearCache();
 }
diff --git a/src/systematic/Systematic.h b/src/systematic/Systematic.h
index 6a5d323..b1d7222 100644
--- a/src/systematic/Systematic.h
+++ b/src/systematic/Systematic.h
@@ -46,6 +46,9 @@ protected:
    // obs of the pdfs it will act on, needs to be at least the lenth of the
    // systematics representation
 
+   // drop whatever was worked out from the axes and observables above: called when they change
+   virtual void ClearCache() {}
+
    // methods below used for index manipilation between pdf and response
    bool BinsCompatible(size_t bin1, size_t bin2) const;
    bool VectorContains(const std::vector<size_t> &, size_t) const;
-- 
2.43.0


From 4b62ba79c23156bb3716f87c0a937d5abced61b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 28/38] fix: SystematicManager names the right systematic and
 refuses unknown groups

GetNSystematicsInGroup dereferenced the end iterator for an unknown group,
and UniqueSystematics indexed a group with the number of the group, so that
the refusal of a systematic in two groups threw std::out_of_range or named
another one.
---
 src/fitutil/SystematicManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 4b5fb6c..dd948d0 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -113,7 +113,7 @@ void SystematicManager::UniqueSystematics(const std::vector<std::string> &syss_)
             if (allname.find(group.at(j)->GetName()) == allname.end())
                 allname.insert(group.at(j)->GetName());
             else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(i)->GetName() << " is in more than one group.");
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(j)->GetName() << " is in more than one group.");
         }
     }
     // Check the "" group only after everything else has been checked and
@@ -191,7 +191,7 @@ SystematicManager::GetNSystematicsInGroup(const std::string &name_) const
 {
     try
     {
-        return fGroups.find(name_)->second.size();
+        return fGroups.at(name_).size();
     }
     catch (const std::out_of_range &e_)
     {
-- 
2.43.0


From 45bb68c6292b9b2f5ae0c3e4d06bce6aca8b97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 29/38] fix: Event refuses unknown indices and missing
 observable names

---
 src/data/Event.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index 7890b18..0b092cf 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -43,7 +43,7 @@ void Event::SetDatum(size_t index_, double val_)
 {
     try
     {
-        fObservations[index_] = val_;
+        fObservations.at(index_) = val_;
     }
 
     catch (const std::out_of_range &e_)
@@ -56,11 +56,12 @@ void Event::SetDatum(const std::string &name_, double val_)
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    SetDatum(it - fObsNames->begin(), val_);
+    SetDatum(it - names.begin(), val_);
 }
 
 double
@@ -68,11 +69,12 @@ Event::GetDatum(const std::string &name_) const
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    return GetDatum(it - fObsNames->begin());
+    return GetDatum(it - names.begin());
 }
 
 std::vector<double>
-- 
2.43.0


From b76311290c327a7e0ae6f93d215d8d2b8430d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 30/38] fix: assigning a CutCollection to itself keeps its cuts

---
 src/cut/CutCollection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cut/CutCollection.cpp b/src/cut/CutCollection.cpp
index 2853c10..f631ebf 100644
--- a/src/cut/CutCollection.cpp
+++ b/src/cut/CutCollection.cpp
@@ -48,6 +48,9 @@ CutCollection::CutCollection(const CutCollection &other_)
 CutCollection &
 CutCollection::operator=(const CutCollection &other_)
 {
+  if (this == &other_)
+    return *this;
+
   for (size_t i = 0; i < fCuts.size(); i++)
     delete fCuts.at(i);
 
-- 
2.43.0


From 121028e51277a82ed1370c294b9beef9aac998e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 31/38] fix: CutLog gives its remainders and notices a file it
 cannot open

---
 src/cut/CutLog.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 514ea05..2904b85 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -45,12 +45,24 @@ CutLog::GetCutCounts() const
     return fCutCounts;
 }
 
+std::vector<int>
+CutLog::GetRemainderCounts() const
+{
+    return fRemainderCounts;
+}
+
 std::vector<double>
 CutLog::GetCutPercentages() const
 {
     return fCutPercentages;
 }
 
+std::vector<double>
+CutLog::GetRemainderPercentages() const
+{
+    return fRemainderPercentages;
+}
+
 std::vector<std::string>
 CutLog::GetCutNames() const
 {
@@ -120,11 +132,11 @@ void CutLog::SaveAs(const std::string &title_,
                     const std::string &path_)
 {
     std::ofstream fs;
-    if (fs.is_open())
+    fs.open(path_.c_str());
+    if (!fs.is_open())
     {
         throw IOError("CutLog::SaveAs - couldn't open file" + path_);
     }
-    fs.open(path_.c_str());
     fs << "-----------------------------------"
        << "-----------------------------------"
        << std::endl
-- 
2.43.0


From 02c7501b4b693c129c53c3ac629681b0f87423bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 32/38] fix: define EventReconvolution::GetCorrection

---
 src/eventSystematic/EventReconvolution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventSystematic/EventReconvolution.cpp b/src/eventSystematic/EventReconvolution.cpp
index 9a4486a..b95deef 100644
--- a/src/eventSystematic/EventReconvolution.cpp
+++ b/src/eventSystematic/EventReconvolution.cpp
@@ -30,6 +30,12 @@ void EventReconvolution::SetCorrection(double correction_)
     fCorrection = correction_;
 }
 
+double
+EventReconvolution::GetCorrection() const
+{
+    return fCorrection;
+}
+
 // Fit Component Interface
 
 void EventReconvolution::SetParameter(const std::string &name_, double value)
-- 
2.43.0


From 99166dca506dcab6cd9bead99891f2f6648bbb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 33/38] fix: counting backgrounds again does not count them
 twice

---
 src/count/CountingExperiment.cpp | 3 +++
 src/count/CountingResult.cpp     | 8 ++++++++
 src/count/CountingResult.h       | 1 +
 3 files changed, 12 insertions(+)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index c4a39f2..246f926 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -21,6 +21,9 @@ void CountingExperiment::CountData(DataSet *testData_)
 
 void CountingExperiment::CountBackgrounds()
 {
+    // counting again replaces what was counted before
+    fResult.ClearBackgrounds();
+
     // loop over all the background types
     for (size_t i = 0; i < fBackgroundDataSets.size(); i++)
     {
diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index 768d6f2..c9b1a75 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -20,6 +20,14 @@ void CountingResult::AddBackground(double expectedRate_, const std::string &name
     fBackgroundLogs.push_back(log_);
 }
 
+void CountingResult::ClearBackgrounds()
+{
+    fExpectedRates.clear();
+    fExpectedRateErrors.clear();
+    fBackgroundNames.clear();
+    fBackgroundLogs.clear();
+}
+
 void CountingResult::SetDataLog(const CutLog &log_)
 {
     fDataLog = log_;
diff --git a/src/count/CountingResult.h b/src/count/CountingResult.h
index ef0c40c..6c3da32 100644
--- a/src/count/CountingResult.h
+++ b/src/count/CountingResult.h
@@ -10,6 +10,7 @@ public:
    CountingResult() : fObservedCounts(-1), fSignalEfficiency(-1) {}
    void AddBackground(double expectedRate_, const std::string &name_,
                       double error_, const CutLog &);
+   void ClearBackgrounds();
    void SetSignal(double sigEff_, const std::string &name_, const CutLog &);
 
    void SetDataLog(const CutLog &);
-- 
2.43.0


From 656fdbf01f2199d720542156c79e6dc38cb6899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:44 +0000
Subject: [PATCH 34/38] fix: the grid search visits every grid point, whatever
 the number of parameters, and reports the extreme value found

---
 src/optimise/GridSearch.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index fe95327..18bd42a 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -69,6 +69,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
     // Prepare best fit
     ParameterDict bestFit;
     fMinVal = 0;
+    bool firstPoint = true;
 
     // Initialise LH space and count the number of grid steps
     unsigned maxSteps = 1;
@@ -97,7 +98,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
     if (oneTenth < 10)
         oneTenth = 1;
 
-    while (Increment(fStepSizes.begin(), fStepSizes.end()))
+    do
     {
         // calculate the new value
         // if bigger, grab this as new best fit
@@ -116,24 +117,25 @@ GridSearch::Optimise(TestStatistic *testStat_)
         if (fMaximising)
             currentVal *= -1;
 
-        if (currentVal < fMinVal || !fMinVal)
+        if (firstPoint || currentVal < fMinVal)
         {
+            firstPoint = false;
             fMinVal = currentVal;
             bestFit = fParamVals;
         }
-    }
+    } while (Increment(fStepSizes.begin(), fStepSizes.end()));
     fFitResult.SetBestFit(bestFit);
-    fFitResult.SetExtremeVal(fMinVal);
+    fFitResult.SetExtremeVal(fMaximising ? -fMinVal : fMinVal);
     return fFitResult;
 }
 
 bool GridSearch::Increment(ParameterDict::iterator it_,
                            ParameterDict::iterator end_)
 {
-    const std::string paramToChange = it_->first;
     // nothing doing
     if (fMinima == fMaxima)
         return false;
+    const std::string paramToChange = it_->first;
     fParamVals[paramToChange] += fStepSizes.at(paramToChange);
 
     // wrap around past the maximum
@@ -142,14 +144,11 @@ bool GridSearch::Increment(ParameterDict::iterator it_,
         fParamVals[paramToChange] = fMinima.at(paramToChange);
 
         // if its the last index no rippling to do
-        if (it_ == end_--)
+        if (++it_ == end_)
             return false;
 
         // ripple up to next index
-        if (Increment(++it_, end_)) // propagate the false down
-            return true;
-        else
-            return false;
+        return Increment(it_, end_); // propagate the false down
     }
     return true;
 }
-- 
2.43.0


From ee7158ac0eb90918264796853dec2e74fe195acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:49 +0000
Subject: [PATCH 35/38] fix: multiplying sparse matrices changed the left one;
 products of matrices that are not square kept the old number of columns; a
 dense matrix that is not square could be made the identity

---
 src/core/DenseMatrix.cpp  | 3 ++-
 src/core/SparseMatrix.cpp | 8 +++++---
 src/core/SparseMatrix.h   | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/DenseMatrix.cpp b/src/core/DenseMatrix.cpp
index 83c7080..68b6a83 100644
--- a/src/core/DenseMatrix.cpp
+++ b/src/core/DenseMatrix.cpp
@@ -62,6 +62,7 @@ DenseMatrix
 DenseMatrix::operator*=(const DenseMatrix &other_)
 {
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
@@ -74,7 +75,7 @@ void DenseMatrix::SetZeros()
 
 void DenseMatrix::SetToIdentity()
 {
-    if (!fNRows || !fNCols)
+    if (!fNRows || !fNCols || fNCols != fNRows)
         throw DimensionError(Formatter() << "DenseMatrix:: Can't set identity as matrix is not square. (rows,cols) : (" << fNRows << "," << fNCols << ")");
     fArmaMat.eye();
 }
diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index d4a8284..98a185c 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -68,14 +68,16 @@ SparseMatrix
 SparseMatrix::operator*=(const SparseMatrix &other_)
 {
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
 SparseMatrix
-SparseMatrix::operator*(const SparseMatrix &other_)
+SparseMatrix::operator*(const SparseMatrix &other_) const
 {
-    fArmaMat = fArmaMat * other_.fArmaMat;
-    return *this;
+    SparseMatrix product(*this);
+    product *= other_;
+    return product;
 }
 
 void SparseMatrix::SetZeros()
diff --git a/src/core/SparseMatrix.h b/src/core/SparseMatrix.h
index b95801e..8b684ca 100644
--- a/src/core/SparseMatrix.h
+++ b/src/core/SparseMatrix.h
@@ -26,7 +26,7 @@ public:
                       const std::vector<double> &values_);
 
    SparseMatrix operator*=(const SparseMatrix &other_);
-   SparseMatrix operator*(const SparseMatrix &other_);
+   SparseMatrix operator*(const SparseMatrix &other_) const;
    size_t GetNRows() const { return fNRows; }
    size_t GetNCols() const { return fNCols; }
    void SetZeros();
-- 
2.43.0


From c3467f26b195b27bce8cced22008ddf7fecb042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:58 +0000
Subject: [PATCH 36/38] fix: components set beyond a sparse matrix were dropped
 without a word

---
 src/core/SparseMatrix.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index 98a185c..3a4b9d2 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -102,6 +102,16 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
     if (rowIndices_.size() != values_.size() || colIndices_.size() != values_.size())
         throw DimensionError("SparseMatrix::SetComponent() #values != #locations");
 
+    for (size_t i = 0; i < values_.size(); i++)
+    {
+        if (rowIndices_.at(i) >= fNRows || colIndices_.at(i) >= fNCols)
+            throw NotFoundError(Formatter()
+                                << "Attempted out of bounds access on  matrix ("
+                                << rowIndices_.at(i) << "," << colIndices_.at(i) << ")."
+                                << "Matrix is (" << fNRows << "x" << fNCols
+                                << ")");
+    }
+
     arma::umat locs(2, rowIndices_.size());
     locs.row(0) = arma::urowvec(rowIndices_);
     locs.row(1) = arma::urowvec(colIndices_);
-- 
2.43.0


From 38ec9f58fe700d9ca34f74eb2c75da3c4709986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:40 +0000
Subject: [PATCH 37/38] fix: the Bayesian upper bound of a histogram was
 interpolated up to two bins past the critical one

---
 src/interval/BayesIntervalCalc.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index a2b167d..d68d7a6 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -12,9 +12,9 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     if (!posterior_.Integral())
         throw ValueError("BayesIntervalCalc::Empty histogram passed!");
 
-    if (cl_ <= 0)
+    if (cl_ <= 0 || cl_ >= 1)
         throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
-                                     << " , must be >0!");
+                                     << " , must be >0 and <1!");
 
     // only works for 1D histograms currently
     if (posterior_.GetNDims() != 1)
@@ -26,16 +26,11 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     // Integrate from the minimum to x until the total probability exceeds cl_
     // find the first bin <b> for which the integral  <0>-><b> > cl
     size_t critBin = 0;
-    double sum = 0;
-    while (sum < cl_)
+    double sum = posterior_.GetBinContent(0);
+    while (sum < cl_ && critBin + 1 < posterior_.GetNBins())
     {
-        sum = 0;
-        for (size_t i = 0; i < critBin; i++)
-        {
-            sum += posterior_.GetBinContent(i);
-        }
-
         critBin++;
+        sum += posterior_.GetBinContent(critBin);
     }
 
     // now interpolate between the bins
-- 
2.43.0


From a2fa62b059a460948f7bf74ea72e7f75cce01c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:59 +0000
Subject: [PATCH 38/38] fix: the variance of the values in an
 AutoCorrelationCalc was summed in integers and not divided by their number

---
 src/optimise/AutoCorrelationCalc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimise/AutoCorrelationCalc.cpp b/src/optimise/AutoCorrelationCalc.cpp
index 68be4f1..5a55601 100644
--- a/src/optimise/AutoCorrelationCalc.cpp
+++ b/src/optimise/AutoCorrelationCalc.cpp
@@ -44,8 +44,8 @@ double
 AutoCorrelationCalc::Var() const
 {
     double mean = Mean();
-    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0);
-    return sumSq - mean * mean;
+    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0.0);
+    return sumSq / fValues.size() - mean * mean;
 }
 
 void AutoCorrelationCalc::Clear()
-- 
2.43.0

