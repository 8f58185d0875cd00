From 089864c3cffb4359de8762697beb81a303c97577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 01/38] fix: restart aborted when no communication precedes the
 first step

FunctionTimer::ResetGroupTimeRecord threw if the group had no record yet, which is the
case for runs from a restart file whose test case needs no exchange before the loop.
---
 src/base/FunctionTimer.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/base/FunctionTimer.cpp b/src/base/FunctionTimer.cpp
index f8e3884..377c8ef 100644
--- a/src/base/FunctionTimer.cpp
+++ b/src/base/FunctionTimer.cpp
@@ -157,13 +157,11 @@ void FunctionTimer::ResetGroupTimeRecord(const char *szName) {
 
 	iter = m_mapGroupData.find(szName);
 
-	// Retrieve existing group record
+	// Remove existing group record; if nothing has been recorded for this
+	// group (e.g. no communication prior to the first step of a simulation
+	// initialized from a restart file) then there is nothing to reset.
 	if (iter != m_mapGroupData.end()) {
 		m_mapGroupData.erase(iter);
-
-	// Group record does not exist
-	} else {
-		_EXCEPTION1("Group time record %s does not exist.", szName);
 	}
 }
 
-- 
2.43.0


From fdff2f013a9e8d14a92efbcf6cbda5b2da73f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 02/38] fix: evaluate test case physical constants when
 restarting

Restarted simulations ran with the default planet (radius, rotation, gravity) instead of the
constants of the test case.
---
 src/atm/Model.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index dcc02fd..f9cb2fa 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -236,22 +236,20 @@ void Model::SetTestCase(
 	// Attach the test case
 	m_pTestCase = pTestCase;
 
-	// Evaluate physical constants and data from TestCase
-	if (!m_fGridFromRestartFile) {
+	// Evaluate physical constants from TestCase (these are not stored in the
+	// restart file)
+	m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
+	// Evaluate data from TestCase
+	if (!m_fGridFromRestartFile) {
 
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase(*pTestCase, m_timeStart);
 	}
 	
-	// Evaluate physical constants and data from TestCase if pertubation is needed on restart
+	// Evaluate data from TestCase if pertubation is needed on restart
 	if ((m_fRestartPerturbation) && (m_fGridFromRestartFile)) {
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
-
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase_Perturbation(*pTestCase, m_timeStart);
 	}
-- 
2.43.0


From 058a6bc6b649b369f06863bcabc46f165b56eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 03/38] fix: keep vertical stretching and the XZ domain flag
 when restarting

Neither is stored in the restart file: a restarted run treated an XZ domain as fully 3D and
evaluated a stretched vertical coordinate as uniform.
---
 src/atm/TempestInitialize.h | 65 ++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 256769e..21053a0 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -473,6 +473,29 @@ void _TempestSetupOutputManagers(
 
 ///////////////////////////////////////////////////////////////////////////////
 
+void _TempestSetVerticalStretchFunction(
+	Grid * pGrid,
+	_TempestCommandLineVariables & vars
+) {
+	// Set the vertical stretching function from --vstretch
+	STLStringHelper::ToLower(vars.strVerticalStretch);
+	if (vars.strVerticalStretch == "uniform") {
+
+	} else if (vars.strVerticalStretch == "cubic") {
+		pGrid->SetVerticalStretchFunction(
+			new VerticalStretchCubic);
+
+	} else if (vars.strVerticalStretch == "pwlinear") {
+		pGrid->SetVerticalStretchFunction(
+			new VerticalStretchPiecewiseLinear);
+
+	} else {
+		_EXCEPTIONT("Invalid value for --vstretch");
+	}
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 void _TempestSetupCubedSphereModel(
 	Model & model,
 	_TempestCommandLineVariables & vars
@@ -547,20 +570,7 @@ void _TempestSetupCubedSphereModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strVerticalStretch);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-		}
+		_TempestSetVerticalStretchFunction(pGrid, vars);
 
 		// Vertical type
 		STLStringHelper::ToLower(vars.strVerticalDiscretization);
@@ -576,6 +586,9 @@ void _TempestSetupCubedSphereModel(
 
 		pGrid->DefineParameters();
 
+		// The vertical stretching function is not part of the restart file
+		_TempestSetVerticalStretchFunction(pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
@@ -666,21 +679,7 @@ void _TempestSetupCartesianModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strHorizontalDynamics);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-
-		}
+		_TempestSetVerticalStretchFunction(pGrid, vars);
 
 		// Set the Model Grid
 		model.SetGrid(pGrid);
@@ -689,10 +688,16 @@ void _TempestSetupCartesianModel(
 	} else {
 		AnnounceStartBlock("Constructing Grid from restart file");
 
-		Grid * pGrid = new GridCartesianGLL(model);
+		GridCartesianGLL * pGrid = new GridCartesianGLL(model);
 
 		pGrid->DefineParameters();
 
+		// The vertical stretching function and the flag indicating a 2D XZ
+		// domain are not part of the restart file
+		_TempestSetVerticalStretchFunction(pGrid, vars);
+
+		pGrid->m_fCartesianXZ = fCartesianXZ;
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
-- 
2.43.0


From 96be3859726dd7c59679f25d79bc3435596bc526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 04/38] fix: support processors without grid patches

With more processors than patches (announced as 'threads will be unutilized', or a restart on
more processors) the surplus ranks created a patch from an uninitialized patch box, or refused
to take part in writing restart files, and left the remaining ranks waiting forever.
---
 src/atm/Grid.cpp                   |  4 ++--
 src/atm/OutputManagerComposite.cpp | 12 +++++-------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/atm/Grid.cpp b/src/atm/Grid.cpp
index b21f3ee..cbc4dde 100644
--- a/src/atm/Grid.cpp
+++ b/src/atm/Grid.cpp
@@ -1046,8 +1046,8 @@ void Grid::DistributePatches() {
 	MPI_Comm_rank(MPI_COMM_WORLD, &nRank);
 
 	// Loop over all patches and initialize data
-	m_vecPatchProcessor.resize(m_aPatchBoxes.GetRows());
-	for (int n = 0; n < m_aPatchBoxes.GetRows(); n++) {
+	m_vecPatchProcessor.resize(GetPatchCount());
+	for (int n = 0; n < GetPatchCount(); n++) {
 		int iPatchProcessor = n % nSize;
 		m_vecPatchProcessor[n] = iPatchProcessor;
 
diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index e6b472c..0108283 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -240,13 +240,11 @@ void OutputManagerComposite::Output(
 	// Send data from GridPatches to root
 	if (nRank != 0) {
 
+		// Processors without GridPatches have nothing to send
 		int nActivePatches = m_grid.GetActivePatchCount();
-		if (nActivePatches == 0) {
-			_EXCEPTIONT("No GridPatches on processor");
-		}
 
-		DataArray1D<MPI_Request> vecSendReqGeo(nActivePatches);
-		DataArray1D<MPI_Request> vecSendReqAcS(nActivePatches);
+		std::vector<MPI_Request> vecSendReqGeo(nActivePatches);
+		std::vector<MPI_Request> vecSendReqAcS(nActivePatches);
 
 		for (int i = 0; i < nActivePatches; i++) {
 			const GridPatch * pPatch = m_grid.GetActivePatch(i);
@@ -291,7 +289,7 @@ void OutputManagerComposite::Output(
 		int iWaitAllMsgGeo =
 			MPI_Waitall(
 				nActivePatches,
-				&(vecSendReqGeo[0]),
+				vecSendReqGeo.data(),
 				MPI_STATUSES_IGNORE);
 
 		if (iWaitAllMsgGeo == MPI_ERR_IN_STATUS) {
@@ -301,7 +299,7 @@ void OutputManagerComposite::Output(
 		int iWaitAllMsgAcS =
 			MPI_Waitall(
 				nActivePatches,
-				&(vecSendReqAcS[0]),
+				vecSendReqAcS.data(),
 				MPI_STATUSES_IGNORE);
 
 		if (iWaitAllMsgAcS == MPI_ERR_IN_STATUS) {
-- 
2.43.0


From 0cb04b3ca674def853773cfbc73d4d36f87af157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 05/38] fix: complete sends at the end of each exchange

The sends of the last exchange were never completed: the buffers they read
were released, and MPI finalized, while they could still be in progress.
---
 src/atm/Grid.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/atm/Grid.cpp b/src/atm/Grid.cpp
index cbc4dde..cf2af8e 100644
--- a/src/atm/Grid.cpp
+++ b/src/atm/Grid.cpp
@@ -635,11 +635,6 @@ void Grid::Exchange(
 
 	FunctionTimer timer("Communicate");
 
-#ifdef TEMPEST_MPIOMP
-	// Verify all processors are prepared to exchange
-	m_aExchangeBufferRegistry.WaitSend();
-#endif
-
 	// Set up asynchronous recvs
 	m_aExchangeBufferRegistry.PrepareExchange();
 
@@ -682,6 +677,12 @@ void Grid::Exchange(
 				eDataType, iDataIndex, *((*pExchangeBuffers)[b]));
 		}
 	}
+
+#ifdef TEMPEST_MPIOMP
+	// Complete all sends, since the buffers will be reused by the next
+	// exchange or released after MPI has been finalized
+	m_aExchangeBufferRegistry.WaitSend();
+#endif
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 7e345f81359e420fb926b623f3b8e7941ee6cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:53 +0000
Subject: [PATCH 06/38] fix: write restart files atomically and verify them
 when reading

Write and close errors were ignored and a crash or error while writing
destroyed an existing restart file of the same name.  Short, foreign or
unreadable restart files were accepted.
---
 src/atm/OutputManagerComposite.cpp | 87 +++++++++++++++++++++++++-----
 src/atm/OutputManagerComposite.h   |  5 ++
 2 files changed, 80 insertions(+), 12 deletions(-)

diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index 0108283..48ef376 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -55,7 +55,12 @@ OutputManagerComposite::OutputManagerComposite(
 ///////////////////////////////////////////////////////////////////////////////
 
 OutputManagerComposite::~OutputManagerComposite() {
-	CloseFile();
+
+	// An output which is still open here is incomplete; discard it
+	if (m_ofsActiveOutput.is_open()) {
+		m_ofsActiveOutput.close();
+		remove((m_strActiveFileName + ".tmp").c_str());
+	}
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -76,14 +81,17 @@ bool OutputManagerComposite::OpenFile(
 			_EXCEPTIONT("Restart file already open");
 		}
 
-		// Open new binary output stream
-		std::string strRestartFileName = strFileName + ".restart.dat";
+		// Open new binary output stream.  Output is written to a temporary
+		// file, which only takes its final name once it is complete.
+		m_strActiveFileName = strFileName + ".restart.dat";
+
+		std::string strTempFileName = m_strActiveFileName + ".tmp";
 		m_ofsActiveOutput.open(
-			strRestartFileName.c_str(), std::ios::binary | std::ios::out);
+			strTempFileName.c_str(), std::ios::binary | std::ios::out);
 
 		if (!m_ofsActiveOutput) {
 			_EXCEPTION1("Error opening output file \"%s\"",
-				strRestartFileName.c_str());
+				strTempFileName.c_str());
 		}
 	}
 
@@ -100,7 +108,29 @@ bool OutputManagerComposite::OpenFile(
 ///////////////////////////////////////////////////////////////////////////////
 
 void OutputManagerComposite::CloseFile() {
+
+	// File is only open at root
+	if (!m_ofsActiveOutput.is_open()) {
+		return;
+	}
+
+	// Verify that all data has reached the file
 	m_ofsActiveOutput.close();
+
+	std::string strTempFileName = m_strActiveFileName + ".tmp";
+
+	if (!m_ofsActiveOutput) {
+		remove(strTempFileName.c_str());
+		_EXCEPTION1("Error writing output file \"%s\"",
+			strTempFileName.c_str());
+	}
+
+	// Move the complete file into place
+	if (rename(strTempFileName.c_str(), m_strActiveFileName.c_str()) != 0) {
+		remove(strTempFileName.c_str());
+		_EXCEPTION1("Error creating output file \"%s\"",
+			m_strActiveFileName.c_str());
+	}
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -135,7 +165,7 @@ void OutputManagerComposite::Output(
 		const GridPatch * pPatch = m_grid.GetActivePatch(i);
 
 		int iPatchIx = pPatch->GetPatchIndex();
-		if (iPatchIx > m_grid.GetPatchCount()) {
+		if ((iPatchIx < 0) || (iPatchIx >= m_grid.GetPatchCount())) {
 			_EXCEPTION2("PatchIndex (%i) out of range [0,%i)",
 				iPatchIx, m_grid.GetPatchCount());
 		}
@@ -322,7 +352,7 @@ void OutputManagerComposite::Output(
 			const GridPatch * pPatch = m_grid.GetActivePatch(i);
 
 			int iPatchIx = pPatch->GetPatchIndex();
-			if (iPatchIx > m_grid.GetPatchCount()) {
+			if ((iPatchIx < 0) || (iPatchIx >= m_grid.GetPatchCount())) {
 				_EXCEPTION2("PatchIndex (%i) out of range [0,%i)",
 					iPatchIx, m_grid.GetPatchCount());
 			}
@@ -386,7 +416,7 @@ void OutputManagerComposite::Output(
 			// Check patch index
 			int iPatchIx = *((int*)(&(m_vecRecvBuffer[0])));
 
-			if (iPatchIx > m_vecGridPatchByteLoc.GetRows()) {
+			if ((iPatchIx < 0) || (iPatchIx >= m_vecGridPatchByteLoc.GetRows())) {
 				_EXCEPTION2("PatchIndex (%i) out of range [0,%i)",
 					iPatchIx, m_vecGridPatchByteLoc.GetRows());
 			}
@@ -446,9 +476,9 @@ Time OutputManagerComposite::Input(
 	}
 
 	// Read check bits
-	int iCheckInput;
+	int iCheckInput = 0;
 	ifsActiveInput.read((char *)(&iCheckInput), sizeof(int));
-	if (iCheckInput != m_iCheck) {
+	if ((!ifsActiveInput) || (iCheckInput != m_iCheck)) {
 		_EXCEPTION1("Invalid or incompatible input file \"%s\"",
 			strFileName.c_str());
 	}
@@ -465,6 +495,11 @@ Time OutputManagerComposite::Input(
 
 	ifsActiveInput.read(pGridParameters, nGridParametersByteSize);
 
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Error reading input file \"%s\"",
+			strFileName.c_str());
+	}
+
 	// Initialize the Grid from specified parameters
 	m_grid.InitializeDataLocal();
 
@@ -477,6 +512,11 @@ Time OutputManagerComposite::Input(
 
 	ifsActiveInput.read(pGridPatchData, nGridPatchDataByteSize);
 
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Error reading input file \"%s\"",
+			strFileName.c_str());
+	}
+
 	// Distribute GridPatches to processors
 	m_grid.DistributePatches();
 
@@ -487,7 +527,7 @@ Time OutputManagerComposite::Input(
 		const GridPatch * pPatch = m_grid.GetActivePatch(i);
 
 		int iPatchIx = pPatch->GetPatchIndex();
-		if (iPatchIx > m_grid.GetPatchCount()) {
+		if ((iPatchIx < 0) || (iPatchIx >= m_grid.GetPatchCount())) {
 			_EXCEPTION2("PatchIndex (%i) out of range [0,%i)",
 				iPatchIx, m_grid.GetPatchCount());
 		}
@@ -531,12 +571,26 @@ Time OutputManagerComposite::Input(
 		_EXCEPTIONT("ActiveInput::tellg() fail");
 	}
 
+	// Verify that the file contains exactly the expected data
+	int iLastPatchIx = m_grid.GetPatchCount() - 1;
+
+	ifsActiveInput.seekg(0, std::ios::end);
+	if ((!ifsActiveInput) ||
+		(ifsActiveInput.tellg() !=
+			posRefFile
+			+ m_vecGridPatchByteLoc[iLastPatchIx][1]
+			+ std::streamoff(m_vecGridPatchByteSize[iLastPatchIx][1]))
+	) {
+		_EXCEPTION1("Incomplete or incompatible input file \"%s\"",
+			strFileName.c_str());
+	}
+
 	// Load in GridPatch data from file
 	for (int i = 0; i < m_grid.GetActivePatchCount(); i++) {
 		GridPatch * pPatch = m_grid.GetActivePatch(i);
 
 		int iPatchIx = pPatch->GetPatchIndex();
-		if (iPatchIx > m_grid.GetPatchCount()) {
+		if ((iPatchIx < 0) || (iPatchIx >= m_grid.GetPatchCount())) {
 			_EXCEPTION2("PatchIndex (%i) out of range [0,%i)",
 				iPatchIx, m_grid.GetPatchCount());
 		}
@@ -564,6 +618,15 @@ Time OutputManagerComposite::Input(
 			posRefFile + m_vecGridPatchByteLoc[iPatchIx][1]);
 		ifsActiveInput.read(
 			pActiveStateData, m_vecGridPatchByteSize[iPatchIx][1]);
+
+		if (!ifsActiveInput) {
+			_EXCEPTION1("Error reading input file \"%s\"",
+				strFileName.c_str());
+		}
+		if (pPatch->GetPatchIndex() != iPatchIx) {
+			_EXCEPTION1("Incompatible input file \"%s\"",
+				strFileName.c_str());
+		}
 	}
 
 	// Close the file
diff --git a/src/atm/OutputManagerComposite.h b/src/atm/OutputManagerComposite.h
index f9416aa..e0e63a1 100644
--- a/src/atm/OutputManagerComposite.h
+++ b/src/atm/OutputManagerComposite.h
@@ -114,6 +114,11 @@ protected:
 	///	</summary>
 	std::ofstream m_ofsActiveOutput;
 
+	///	<summary>
+	///		Final name of the active output file.
+	///	</summary>
+	std::string m_strActiveFileName;
+
 private:
 	///	<summary>
 	///		Byte size for each GridPatch.
-- 
2.43.0


From 939b14fb1c11dcdfbf0e27b94f1a3993bdcdc7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 07/38] fix: terminate all processors when one of them raises
 an exception

The others never returned from their next communication call.
---
 src/atm/Model.cpp | 57 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index f9cb2fa..31699bd 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -21,11 +21,38 @@
 #include "OutputManager.h"
 #include "OutputManagerComposite.h"
 
+#include "Exception.h"
 #include "FunctionTimer.h"
 #include "Announce.h"
 #include "MemoryTools.h"
 
 #include <cfloat>
+#include <iostream>
+
+#if defined(TEMPEST_MPIOMP)
+#include <mpi.h>
+#endif
+
+///////////////////////////////////////////////////////////////////////////////
+
+///	<summary>
+///		Terminate all processors after an Exception on this processor.  The
+///		other processors may not have encountered an error, and would then
+///		wait indefinitely for messages from this one.
+///	</summary>
+static void TerminateParallelRun(
+	const Exception & e
+) {
+#if defined(TEMPEST_MPIOMP)
+	int nCommSize;
+	MPI_Comm_size(MPI_COMM_WORLD, &nCommSize);
+
+	if (nCommSize > 1) {
+		std::cout << e.ToString() << std::endl;
+		MPI_Abort(MPI_COMM_WORLD, 1);
+	}
+#endif
+}
 
 ///////////////////////////////////////////////////////////////////////////////
 
@@ -109,7 +136,7 @@ void Model::SetGrid(
 	Grid * pGrid,
 	int nPatchCount,
 	bool fInitializeConnectivity
-) {
+) try {
 	if (pGrid == NULL) {
 		_EXCEPTIONT("Invalid Grid (NULL)");
 	}
@@ -141,6 +168,10 @@ void Model::SetGrid(
 		m_pGrid->InitializeExchangeBuffersFromActivePatches();
 		m_pGrid->InitializeConnectivity();
 	}
+
+} catch(Exception & e) {
+	TerminateParallelRun(e);
+	throw;
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -149,7 +180,7 @@ void Model::SetGridFromRestartFile(
 	Grid * pGrid,
 	const std::string & strRestartFile,
 	const bool & fRestartPerturbation
-) {
+) try {
 	if (pGrid == NULL) {
 		_EXCEPTIONT("Invalid Grid (NULL)");
 	}
@@ -179,6 +210,10 @@ void Model::SetGridFromRestartFile(
     
     // Set flag indicating that a perturbation is made upon restart
     m_fRestartPerturbation = fRestartPerturbation;
+
+} catch(Exception & e) {
+	TerminateParallelRun(e);
+	throw;
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -224,7 +259,7 @@ void Model::SetVerticalDynamics(VerticalDynamics * pVerticalDynamics) {
 
 void Model::SetTestCase(
 	TestCase * pTestCase
-) {
+) try {
 	if (m_pGrid == NULL) {
 		_EXCEPTIONT(
 			"A grid must be specified before attaching a TestCase.");
@@ -253,6 +288,10 @@ void Model::SetTestCase(
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase_Perturbation(*pTestCase, m_timeStart);
 	}
+
+} catch(Exception & e) {
+	TerminateParallelRun(e);
+	throw;
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -311,7 +350,7 @@ void Model::SubStep(
 
 ///////////////////////////////////////////////////////////////////////////////
 
-void Model::Go() {
+void Model::Go() try {
 
 	// Check pointers
 	if (m_pGrid == NULL) {
@@ -686,11 +725,15 @@ void Model::Go() {
 			lGlobalTimeComm[0], lGlobalTimeComm[1], lGlobalTimeComm[2], nEntriesComm);
 	}
 #endif
+
+} catch(Exception & e) {
+	TerminateParallelRun(e);
+	throw;
 }
 
 ///////////////////////////////////////////////////////////////////////////////
 
-void Model::ComputeErrorNorms() {
+void Model::ComputeErrorNorms() try {
 	if (m_pTestCase == NULL) {
 		Announce("Error: No TestCase specified; cannot compute error norms.");
 		return;
@@ -777,6 +820,10 @@ void Model::ComputeErrorNorms() {
 				dL1Error, dL2Error, dLinfError);
 		}
 	}
+
+} catch(Exception & e) {
+	TerminateParallelRun(e);
+	throw;
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From bec8fbf7e58fe02c81d5786d95bf8fbc6a924044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 08/38] fix: time coordinate of output from a run not starting
 at midnight

The units refer to the beginning of the day, so output after a restart
was shifted by the time of day of the restart.
---
 src/atm/OutputManagerReference.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atm/OutputManagerReference.cpp b/src/atm/OutputManagerReference.cpp
index 43fa105..8f78fcb 100644
--- a/src/atm/OutputManagerReference.cpp
+++ b/src/atm/OutputManagerReference.cpp
@@ -571,7 +571,12 @@ void OutputManagerReference::Output(
 	// Add new time
 	if (nRank == 0) {
 #pragma message "FIX: Doesn't give correct count of days"
-		double dTimeDays = (time - m_grid.GetModel().GetStartTime()) / 86400.0;
+		// Time is relative to the beginning of the day of the start time
+		Time timeReference = m_grid.GetModel().GetStartTime();
+		timeReference.SetSecond(0);
+		timeReference.SetMicroSecond(0);
+
+		double dTimeDays = (time - timeReference) / 86400.0;
 		m_varTime->set_cur(m_ixOutputTime);
 		m_varTime->put(&dTimeDays, 1);
 	}
-- 
2.43.0


From e6a1be022380a39429f4f363a5682a13924379b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 09/38] fix: output files within the same second overwrote each
 other

---
 src/atm/OutputManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/atm/OutputManager.cpp b/src/atm/OutputManager.cpp
index 4712aa4..f75374f 100644
--- a/src/atm/OutputManager.cpp
+++ b/src/atm/OutputManager.cpp
@@ -76,6 +76,14 @@ void OutputManager::GetFileName(
 	strFileName += m_strOutputPrefix;
 	strFileName += ".";
 	strFileName += time.ToShortString();
+
+	// Distinguish between files within the same second
+	if (time.GetMicroSecond() != 0) {
+		char szMicroSecond[16];
+		snprintf(szMicroSecond, sizeof(szMicroSecond), "-%06i",
+			time.GetMicroSecond());
+		strFileName += szMicroSecond;
+	}
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 73dfd197a0b2405ecd12d4c3f85f5625e6af7174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:36 +0000
Subject: [PATCH 10/38] fix: report read and write errors in the
 post-processing tools

---
 util/CFConverter/CFConverter.cpp       |  81 ++++++++++++++-----
 util/ExtractSurface/ExtractSurface.cpp | 105 +++++++++++++++++++------
 2 files changed, 142 insertions(+), 44 deletions(-)

diff --git a/util/CFConverter/CFConverter.cpp b/util/CFConverter/CFConverter.cpp
index ae2ac23..1037a51 100644
--- a/util/CFConverter/CFConverter.cpp
+++ b/util/CFConverter/CFConverter.cpp
@@ -390,7 +390,9 @@ try {
 
 	DataArray1D<double> dTime(nTime);
 	varTime->set_cur((long)0);
-	varTime->get(&(dTime[0]), nTime);
+	if (!varTime->get(&(dTime[0]), nTime)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	// Load latitude array
 	Announce("Latitude");
@@ -403,7 +405,9 @@ try {
 
 	DataArray1D<double> dLat(nLat);
 	varLat->set_cur((long)0);
-	varLat->get(&(dLat[0]), nLat);
+	if (!varLat->get(&(dLat[0]), nLat)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	// Load longitude array
 	Announce("Longitude");
@@ -416,7 +420,9 @@ try {
 
 	DataArray1D<double> dLon(nLon);
 	varLon->set_cur((long)0);
-	varLon->get(&(dLon[0]), nLon);
+	if (!varLon->get(&(dLon[0]), nLon)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	// Load Ztop parameter
 	NcAtt * attZtop = ncdf_in.get_att("Ztop");
@@ -439,7 +445,9 @@ try {
 
 	DataArray1D<double> dLev(nLev);
 	varLev->set_cur((long)0);
-	varLev->get(&(dLev[0]), nLev);
+	if (!varLev->get(&(dLev[0]), nLev)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	for (int k = 0; k < nLev; k++) {
 		dLev[k] *= dZtop;
@@ -463,7 +471,9 @@ try {
 		}
 		dILev.Allocate(nILev);
 		varILev->set_cur((long)0);
-		varILev->get(&(dILev[0]), nILev);
+		if (!varILev->get(&(dILev[0]), nILev)) {
+			_EXCEPTIONT("Error reading input file");
+		}
 	}
 
 	for (int k = 0; k < nILev; k++) {
@@ -480,7 +490,9 @@ try {
 
 	DataArray2D<double> dZs(nLat, nLon);
 	varZs->set_cur((long)0, (long)0);
-	varZs->get(&(dZs[0][0]), nLat, nLon);
+	if (!varZs->get(&(dZs[0][0]), nLat, nLon)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	AnnounceEndBlock("Done");
 
@@ -510,7 +522,9 @@ try {
 
 		dRho.Allocate(nTime * nLev * nLon * nLat);
 		varRho->set_cur(0, 0, 0, 0);
-		varRho->get(&(dRho[0]), nTime, nLev, nLat, nLon);
+		if (!varRho->get(&(dRho[0]), nTime, nLev, nLat, nLon)) {
+			_EXCEPTIONT("Error reading input file");
+		}
 
 		for (int i = 0; i < dRho.GetRows(); i++) {
 			if (dRho[i] == 0.0) {
@@ -581,7 +595,9 @@ try {
 					strQ.c_str());
 			}
 			data.Allocate(nTime * nLev * nLat * nLon);
-			varIn->get(&(data[0]), nTime, nLev, nLat, nLon);
+			if (!varIn->get(&(data[0]), nTime, nLev, nLat, nLon)) {
+				_EXCEPTIONT("Error reading input file");
+			}
 
 			for (int i = 0; i < data.GetRows(); i++) {
 				data[i] /= dRho[i];
@@ -616,15 +632,21 @@ try {
 
 			if (f2D) {
 				data.Allocate(nTime * nLat * nLon);
-				varIn->get(&(data[0]), nTime, nLat, nLon);
+				if (!varIn->get(&(data[0]), nTime, nLat, nLon)) {
+					_EXCEPTIONT("Error reading input file");
+				}
 			}
 			if (fOnLevels) {
 				data.Allocate(nTime * nLev * nLat * nLon);
-				varIn->get(&(data[0]), nTime, nLev, nLat, nLon);
+				if (!varIn->get(&(data[0]), nTime, nLev, nLat, nLon)) {
+					_EXCEPTIONT("Error reading input file");
+				}
 			}
 			if (fOnInterfaces) {
 				data.Allocate(nTime * nILev * nLat * nLon);
-				varIn->get(&(data[0]), nTime, nILev, nLat, nLon);
+				if (!varIn->get(&(data[0]), nTime, nILev, nLat, nLon)) {
+					_EXCEPTIONT("Error reading input file");
+				}
 			}
 		}
 
@@ -669,7 +691,9 @@ try {
 		NcDim * dimOutTime = ncdf_out.add_dim("time");
 		NcVar * varOutTime = ncdf_out.add_var("time", ncDouble, dimOutTime);
 		varOutTime->set_cur((long)0);
-		varOutTime->put(&(dTime[0]), nTime);
+		if (!varOutTime->put(&(dTime[0]), nTime)) {
+			_EXCEPTIONT("Error writing output file");
+		}
 
 		CopyNcVarAttributes(varTime, varOutTime);
 
@@ -681,7 +705,9 @@ try {
 			dimOutZ = ncdf_out.add_dim("z", nLev);
 			varOutZ = ncdf_out.add_var("z", ncDouble, dimOutZ);
 			varOutZ->set_cur((long)0);
-			varOutZ->put(&(dLev[0]), nLev);
+			if (!varOutZ->put(&(dLev[0]), nLev)) {
+				_EXCEPTIONT("Error writing output file");
+			}
 			varOutZ->add_att("long_name", "altitude");
 			varOutZ->add_att("units", "m");
 		}
@@ -690,7 +716,9 @@ try {
 			dimOutZ = ncdf_out.add_dim("z", nILev);
 			varOutZ = ncdf_out.add_var("z", ncDouble, dimOutZ);
 			varOutZ->set_cur((long)0);
-			varOutZ->put(&(dILev[0]), nILev);
+			if (!varOutZ->put(&(dILev[0]), nILev)) {
+				_EXCEPTIONT("Error writing output file");
+			}
 			varOutZ->add_att("long_name", "altitude");
 			varOutZ->add_att("units", "m");
 		}
@@ -700,7 +728,9 @@ try {
 		NcDim * dimOutLat = ncdf_out.add_dim("lat", nLat);
 		NcVar * varOutLat = ncdf_out.add_var("lat", ncDouble, dimOutLat);
 		varOutLat->set_cur((long)0);
-		varOutLat->put(&(dLat[0]), nLat);
+		if (!varOutLat->put(&(dLat[0]), nLat)) {
+			_EXCEPTIONT("Error writing output file");
+		}
 
 		CopyNcVarAttributes(varLat, varOutLat);
 
@@ -708,7 +738,9 @@ try {
 		NcDim * dimOutLon = ncdf_out.add_dim("lon", nLon);
 		NcVar * varOutLon = ncdf_out.add_var("lon", ncDouble, dimOutLon);
 		varOutLon->set_cur((long)0);
-		varOutLon->put(&(dLon[0]), nLon);
+		if (!varOutLon->put(&(dLon[0]), nLon)) {
+			_EXCEPTIONT("Error writing output file");
+		}
 
 		CopyNcVarAttributes(varLon, varOutLon);
 
@@ -724,7 +756,9 @@ try {
 					dimOutLat,
 					dimOutLon);
 
-			varOut->put(&(data[0]), nTime, nLat, nLon);
+			if (!varOut->put(&(data[0]), nTime, nLat, nLon)) {
+				_EXCEPTIONT("Error writing output file");
+			}
 		}
 		if (fOnLevels) {
 	   		varOut =
@@ -736,7 +770,9 @@ try {
 					dimOutLat,
 					dimOutLon);
 
-			varOut->put(&(data[0]), nTime, nLev, nLat, nLon);
+			if (!varOut->put(&(data[0]), nTime, nLev, nLat, nLon)) {
+				_EXCEPTIONT("Error writing output file");
+			}
 		}
 		if (fOnInterfaces) {
 	   		varOut =
@@ -748,7 +784,9 @@ try {
 					dimOutLat,
 					dimOutLon);
 
-			varOut->put(&(data[0]), nTime, nILev, nLat, nLon);
+			if (!varOut->put(&(data[0]), nTime, nILev, nLat, nLon)) {
+				_EXCEPTIONT("Error writing output file");
+			}
 		}
 		if (varOut == NULL) {
 			_EXCEPTIONT("Logic error");
@@ -828,6 +866,11 @@ try {
 				vecVariableStrings[v].c_str());
 		}
 
+		// Verify that all data has reached the file
+		if (!ncdf_out.close()) {
+			_EXCEPTIONT("Error writing output file");
+		}
+
 		// Done with variable
 		AnnounceEndBlock("Done");
 	}
diff --git a/util/ExtractSurface/ExtractSurface.cpp b/util/ExtractSurface/ExtractSurface.cpp
index e857a49..c85174f 100644
--- a/util/ExtractSurface/ExtractSurface.cpp
+++ b/util/ExtractSurface/ExtractSurface.cpp
@@ -429,7 +429,9 @@ try {
 
 	DataArray1D<double> dTime(nTime);
 	varTime->set_cur((long)0);
-	varTime->get(&(dTime[0]), nTime);
+	if (!varTime->get(&(dTime[0]), nTime)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	// Load latitude array
 	Announce("Latitude");
@@ -442,7 +444,9 @@ try {
 
 	DataArray1D<double> dLat(nLat);
 	varLat->set_cur((long)0);
-	varLat->get(&(dLat[0]), nLat);
+	if (!varLat->get(&(dLat[0]), nLat)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	// Load longitude array
 	Announce("Longitude");
@@ -455,7 +459,9 @@ try {
 
 	DataArray1D<double> dLon(nLon);
 	varLon->set_cur((long)0);
-	varLon->get(&(dLon[0]), nLon);
+	if (!varLon->get(&(dLon[0]), nLon)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	// Load level array
 	Announce("Level");
@@ -468,7 +474,9 @@ try {
 
 	DataArray1D<double> dLev(nLev);
 	varLev->set_cur((long)0);
-	varLev->get(&(dLev[0]), nLev);
+	if (!varLev->get(&(dLev[0]), nLev)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	// Load level interface array
 	Announce("Interface");
@@ -484,7 +492,9 @@ try {
 		}
 		dILev.Allocate(nILev);
 		varILev->set_cur((long)0);
-		varILev->get(&(dILev[0]), nILev);
+		if (!varILev->get(&(dILev[0]), nILev)) {
+			_EXCEPTIONT("Error reading input file");
+		}
 	}
 
 	// Load topography
@@ -497,7 +507,9 @@ try {
 
 	DataArray2D<double> dZs(nLat, nLon);
 	varZs->set_cur((long)0, (long)0);
-	varZs->get(&(dZs[0][0]), nLat, nLon);
+	if (!varZs->get(&(dZs[0][0]), nLat, nLon)) {
+		_EXCEPTIONT("Error reading input file");
+	}
 
 	AnnounceEndBlock("Done");
 
@@ -517,7 +529,9 @@ try {
 	NcDim * dimOutTime = ncdf_out.add_dim("time");
 	NcVar * varOutTime = ncdf_out.add_var("time", ncDouble, dimOutTime);
 	varOutTime->set_cur((long)0);
-	varOutTime->put(&(dTime[0]), nTime);
+	if (!varOutTime->put(&(dTime[0]), nTime)) {
+		_EXCEPTIONT("Error writing output file");
+	}
 
 	CopyNcVarAttributes(varTime, varOutTime);
 
@@ -529,7 +543,9 @@ try {
 		dimOutP = ncdf_out.add_dim("p", nPressureLevels);
 		varOutP = ncdf_out.add_var("p", ncDouble, dimOutP);
 		varOutP->set_cur((long)0);
-		varOutP->put(&(vecPressureLevels[0]), nPressureLevels);
+		if (!varOutP->put(&(vecPressureLevels[0]), nPressureLevels)) {
+			_EXCEPTIONT("Error writing output file");
+		}
 	}
 
 	// Output height array
@@ -540,7 +556,9 @@ try {
 		dimOutZ = ncdf_out.add_dim("z", nHeightLevels);
 		varOutZ = ncdf_out.add_var("z", ncDouble, dimOutZ);
 		varOutZ->set_cur((long)0);
-		varOutZ->put(&(vecHeightLevels[0]), nHeightLevels);
+		if (!varOutZ->put(&(vecHeightLevels[0]), nHeightLevels)) {
+			_EXCEPTIONT("Error writing output file");
+		}
 	}
 
 	// Output latitude and longitude array
@@ -548,7 +566,9 @@ try {
 	NcDim * dimOutLat = ncdf_out.add_dim("lat", nLat);
 	NcVar * varOutLat = ncdf_out.add_var("lat", ncDouble, dimOutLat);
 	varOutLat->set_cur((long)0);
-	varOutLat->put(&(dLat[0]), nLat);
+	if (!varOutLat->put(&(dLat[0]), nLat)) {
+		_EXCEPTIONT("Error writing output file");
+	}
 
 	CopyNcVarAttributes(varLat, varOutLat);
 
@@ -556,7 +576,9 @@ try {
 	NcDim * dimOutLon = ncdf_out.add_dim("lon", nLon);
 	NcVar * varOutLon = ncdf_out.add_var("lon", ncDouble, dimOutLon);
 	varOutLon->set_cur((long)0);
-	varOutLon->put(&(dLon[0]), nLon);
+	if (!varOutLon->put(&(dLon[0]), nLon)) {
+		_EXCEPTIONT("Error writing output file");
+	}
 
 	CopyNcVarAttributes(varLon, varOutLon);
 
@@ -566,7 +588,9 @@ try {
 		"Zs", ncDouble, dimOutLat, dimOutLon);
 
 	varOutZs->set_cur((long)0, (long)0);
-	varOutZs->put(&(dZs[0][0]), nLat, nLon);
+	if (!varOutZs->put(&(dZs[0][0]), nLat, nLon)) {
+		_EXCEPTIONT("Error writing output file");
+	}
 
 	AnnounceEndBlock("Done");
 
@@ -698,7 +722,9 @@ try {
 			_EXCEPTIONT("Unable to load variable \"Rho\" from file");
 		}
 		varRho->set_cur(t, 0, 0, 0);
-		varRho->get(&(dataRho[0][0][0]), 1, nLev, nLat, nLon);
+		if (!varRho->get(&(dataRho[0][0][0]), 1, nLev, nLat, nLon)) {
+			_EXCEPTIONT("Error reading input file");
+		}
 
 		// Pressure
 		DataArray3D<double> dataP(nLev, nLat, nLon);
@@ -709,7 +735,9 @@ try {
 				_EXCEPTIONT("Unable to load variable \"P\" from file");
 			}
 			varP->set_cur(t, 0, 0, 0);
-			varP->get(&(dataP[0][0][0]), 1, nLev, nLat, nLon);
+			if (!varP->get(&(dataP[0][0][0]), 1, nLev, nLat, nLon)) {
+				_EXCEPTIONT("Error reading input file");
+			}
 		}
 /*
 		// Populate pressure array
@@ -761,12 +789,16 @@ try {
 			vecNcVar[v]->set_cur(t, 0, 0, 0);
 
 			if (vecNcVar[v]->get_dim(1)->size() == nLev) {
-				vecNcVar[v]->get(&(dataIn[0][0][0]), 1, nLev, nLat, nLon);
+				if (!vecNcVar[v]->get(&(dataIn[0][0][0]), 1, nLev, nLat, nLon)) {
+					_EXCEPTIONT("Error reading input file");
+				}
 
 				Announce("%s (n)", vecVariableStrings[v].c_str());
 
 			} else if (vecNcVar[v]->get_dim(1)->size() == nILev) {
-				vecNcVar[v]->get(&(dataInt[0][0][0]), 1, nILev, nLat, nLon);
+				if (!vecNcVar[v]->get(&(dataInt[0][0][0]), 1, nILev, nLat, nLon)) {
+					_EXCEPTIONT("Error reading input file");
+				}
 				fOnInterfaces = true;
 
 				Announce("%s (i)", vecVariableStrings[v].c_str());
@@ -808,7 +840,9 @@ try {
 
 				// Write variable
 				vecOutNcVarS[v]->set_cur(t, 0, 0);
-				vecOutNcVarS[v]->put(&(dataOut[0][0]), 1, nLat, nLon);
+				if (!vecOutNcVarS[v]->put(&(dataOut[0][0]), 1, nLat, nLon)) {
+					_EXCEPTIONT("Error writing output file");
+				}
 
 			}
 
@@ -847,7 +881,9 @@ try {
 
 				// Write variable
 				vecOutNcVarP[v]->set_cur(t, p, 0, 0);
-				vecOutNcVarP[v]->put(&(dataOut[0][0]), 1, 1, nLat, nLon);
+				if (!vecOutNcVarP[v]->put(&(dataOut[0][0]), 1, 1, nLat, nLon)) {
+					_EXCEPTIONT("Error writing output file");
+				}
 			}
 
 			// Loop through all height levels
@@ -902,7 +938,9 @@ try {
 
 				// Write variable
 				vecOutNcVarZ[v]->set_cur(t, z, 0, 0);
-				vecOutNcVarZ[v]->put(&(dataOut[0][0]), 1, 1, nLat, nLon);
+				if (!vecOutNcVarZ[v]->put(&(dataOut[0][0]), 1, 1, nLat, nLon)) {
+					_EXCEPTIONT("Error writing output file");
+				}
 			}
 		}
 
@@ -955,7 +993,9 @@ try {
 
 				// Write variable
 				varOutZ->set_cur(t, p, 0, 0);
-				varOutZ->put(&(dataOut[0][0]), 1, 1, nLat, nLon);
+				if (!varOutZ->put(&(dataOut[0][0]), 1, 1, nLat, nLon)) {
+					_EXCEPTIONT("Error writing output file");
+				}
 
 			}
 
@@ -982,7 +1022,9 @@ try {
 
 				// Write variable
 				varOutZs->set_cur(t, 0, 0);
-				varOutZs->put(&(dataOut[0][0]), 1, nLat, nLon);
+				if (!varOutZs->put(&(dataOut[0][0]), 1, nLat, nLon)) {
+					_EXCEPTIONT("Error writing output file");
+				}
 
 			}
 		}
@@ -996,21 +1038,27 @@ try {
 
 			NcVar * varU = ncdf_in.get_var("U");
 			varU->set_cur(t, 0, 0, 0);
-			varU->get(&(dataU[0][0][0]), 1, nLev, nLat, nLon);
+			if (!varU->get(&(dataU[0][0][0]), 1, nLev, nLat, nLon)) {
+				_EXCEPTIONT("Error reading input file");
+			}
 
 			// Meridional velocity
 			DataArray3D<double> dataV(nLev, nLat, nLon);
 
 			NcVar * varV = ncdf_in.get_var("V");
 			varV->set_cur(t, 0, 0, 0);
-			varV->get(&(dataV[0][0][0]), 1, nLev, nLat, nLon);
+			if (!varV->get(&(dataV[0][0][0]), 1, nLev, nLat, nLon)) {
+				_EXCEPTIONT("Error reading input file");
+			}
 
 			// Vertical velocity
 			DataArray3D<double> dataW(nLev, nLat, nLon);
 
 			NcVar * varW = ncdf_in.get_var("W");
 			varW->set_cur(t, 0, 0, 0);
-			varW->get(&(dataW[0][0][0]), 1, nLev, nLat, nLon);
+			if (!varW->get(&(dataW[0][0][0]), 1, nLev, nLat, nLon)) {
+				_EXCEPTIONT("Error reading input file");
+			}
 
 			// Calculate total energy
 			double dTotalEnergy = 0.0;
@@ -1042,12 +1090,19 @@ try {
 
 			// Put total energy into file
 			varEnergy->set_cur(t);
-			varEnergy->put(&dTotalEnergy, 1);
+			if (!varEnergy->put(&dTotalEnergy, 1)) {
+				_EXCEPTIONT("Error writing output file");
+			}
 		}
 
 		AnnounceEndBlock("Done");
 	}
 
+	// Verify that all data has reached the file
+	if (!ncdf_out.close()) {
+		_EXCEPTIONT("Error writing output file");
+	}
+
 	AnnounceEndBlock("Done");
 
 } catch(Exception & e) {
-- 
2.43.0


From 3cc9f32616bc1f85abcd761b499e1ceb1a78bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 11/38] Hook at the end of each time step (TEMPEST_SIM_HOOK,
 off by default)

---
 src/atm/Model.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index 31699bd..a058373 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -35,6 +35,17 @@
 
 ///////////////////////////////////////////////////////////////////////////////
 
+#if defined(TEMPEST_SIM_HOOK)
+// Called at the end of each time step (defined outside of this library)
+extern "C" void TempestSimHook(
+	const Grid & grid,
+	const Time & time,
+	int iStep
+);
+#endif
+
+///////////////////////////////////////////////////////////////////////////////
+
 ///	<summary>
 ///		Terminate all processors after an Exception on this processor.  The
 ///		other processors may not have encountered an error, and would then
@@ -510,6 +521,10 @@ void Model::Go() try {
 			m_time = timeNext;
 		}
 
+#if defined(TEMPEST_SIM_HOOK)
+		TempestSimHook(*m_pGrid, m_time, iStep);
+#endif
+
 		// Check for WorkflowProcesses
 		for (int wfp = 0; wfp < m_vecWorkflowProcess.size(); wfp++) {
 			if (m_vecWorkflowProcess[wfp]->IsReady(m_time)) {
-- 
2.43.0


From 6d659c202b7871ab31b80b078661fc6972cb49a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 12/38] fix: refuse split explicit time integration without
 finite element vertical dynamics

---
 src/atm/TimestepSchemeSplitExp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atm/TimestepSchemeSplitExp.cpp b/src/atm/TimestepSchemeSplitExp.cpp
index 99042af..2b805c3 100644
--- a/src/atm/TimestepSchemeSplitExp.cpp
+++ b/src/atm/TimestepSchemeSplitExp.cpp
@@ -72,7 +72,12 @@ void TimestepSchemeSplitExp::Step(
 	HorizontalDynamics * pHorizontalDynamics = m_model.GetHorizontalDynamics();
 
 	// Get a copy of the VerticalDynamics
-	VerticalDynamicsFEM * pVerticalDynamics = (VerticalDynamicsFEM *) m_model.GetVerticalDynamics();
+	VerticalDynamicsFEM * pVerticalDynamics =
+		dynamic_cast<VerticalDynamicsFEM *>(m_model.GetVerticalDynamics());
+	if (pVerticalDynamics == NULL) {
+		_EXCEPTIONT("Split Explicit time integration requires"
+			" VerticalDynamicsFEM");
+	}
 
 	// Check that vertical dynamics is set to full explicit evaluation
 	if (pVerticalDynamics->IsFullyExplicit() == false) {
-- 
2.43.0


From ab793c77c775fe1cd7caab1d772ccd8565f8c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 13/38] fix: index order when copying shared nodes in the V2
 and Schur vertical dynamics

The values of shared nodes along edges of constant beta were copied with the
indices in an order the arrays no longer have, which overwrote other values
(or memory outside of the arrays) and left the shared nodes different.
---
 src/atm/VerticalDynamicsFEMV2.cpp | 22 +++++++++++-----------
 src/atm/VerticalDynamicsSchur.cpp | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index fb360a6..0bc268f 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -1730,34 +1730,34 @@ void VerticalDynamicsFEMV2::StepImplicit(
 			int iB = box.GetBInteriorBegin() + b * m_nHorizontalOrder - 1;
 
 			for (int k = 0; k < nRElements; k++) {
-				//dataUpdateNode[UIx][k][i][iB]
+				//dataUpdateNode[UIx][i][iB][k]
 				//	= dataUpdateNode[UIx][i][iB+1][k];
-				//dataUpdateNode[VIx][k][i][iB]
+				//dataUpdateNode[VIx][i][iB][k]
 				//	= dataUpdateNode[VIx][i][iB+1][k];
-				dataUpdateNode[PIx][k][i][iB]
+				dataUpdateNode[PIx][i][iB][k]
 					= dataUpdateNode[PIx][i][iB+1][k];
-				dataUpdateNode[WIx][k][i][iB]
+				dataUpdateNode[WIx][i][iB][k]
 					= dataUpdateNode[WIx][i][iB+1][k];
-				dataUpdateNode[RIx][k][i][iB]
+				dataUpdateNode[RIx][i][iB][k]
 					= dataUpdateNode[RIx][i][iB+1][k];
 
 				for (int c = 0; c < nTracerCount; c++) {
-					dataUpdateTracer[c][k][i][iB]
+					dataUpdateTracer[c][i][iB][k]
 						= dataUpdateTracer[c][i][iB+1][k];
 				}
 
 			}
 
 			for (int k = 0; k <= nRElements; k++) {
-				//dataUpdateREdge[UIx][k][i][iB]
+				//dataUpdateREdge[UIx][i][iB][k]
 				//	= dataUpdateREdge[UIx][i][iB+1][k];
-				//dataUpdateREdge[VIx][k][i][iB]
+				//dataUpdateREdge[VIx][i][iB][k]
 				//	= dataUpdateREdge[VIx][i][iB+1][k];
-				dataUpdateREdge[PIx][k][i][iB]
+				dataUpdateREdge[PIx][i][iB][k]
 					= dataUpdateREdge[PIx][i][iB+1][k];
-				dataUpdateREdge[WIx][k][i][iB]
+				dataUpdateREdge[WIx][i][iB][k]
 					= dataUpdateREdge[WIx][i][iB+1][k];
-				dataUpdateREdge[RIx][k][i][iB]
+				dataUpdateREdge[RIx][i][iB][k]
 					= dataUpdateREdge[RIx][i][iB+1][k];
 			}
 		}
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 0d6688f..03b47c6 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -1925,34 +1925,34 @@ void VerticalDynamicsSchur::StepImplicit(
 			int iB = box.GetBInteriorBegin() + b * m_nHorizontalOrder - 1;
 
 			for (int k = 0; k < nRElements; k++) {
-				//dataUpdateNode[UIx][k][i][iB]
+				//dataUpdateNode[UIx][i][iB][k]
 				//	= dataUpdateNode[UIx][k][i][iB+1];
-				//dataUpdateNode[VIx][k][i][iB]
+				//dataUpdateNode[VIx][i][iB][k]
 				//	= dataUpdateNode[VIx][k][i][iB+1];
-				dataUpdateNode[PIx][k][i][iB]
+				dataUpdateNode[PIx][i][iB][k]
 					= dataUpdateNode[PIx][k][i][iB+1];
-				dataUpdateNode[WIx][k][i][iB]
+				dataUpdateNode[WIx][i][iB][k]
 					= dataUpdateNode[WIx][k][i][iB+1];
-				dataUpdateNode[RIx][k][i][iB]
+				dataUpdateNode[RIx][i][iB][k]
 					= dataUpdateNode[RIx][k][i][iB+1];
 
 				for (int c = 0; c < nTracerCount; c++) {
-					dataUpdateTracer[c][k][i][iB]
+					dataUpdateTracer[c][i][iB][k]
 						= dataUpdateTracer[c][k][i][iB+1];
 				}
 
 			}
 
 			for (int k = 0; k <= nRElements; k++) {
-				//dataUpdateREdge[UIx][k][i][iB]
+				//dataUpdateREdge[UIx][i][iB][k]
 				//	= dataUpdateREdge[UIx][k][i][iB+1];
-				//dataUpdateREdge[VIx][k][i][iB]
+				//dataUpdateREdge[VIx][i][iB][k]
 				//	= dataUpdateREdge[VIx][k][i][iB+1];
-				dataUpdateREdge[PIx][k][i][iB]
+				dataUpdateREdge[PIx][i][iB][k]
 					= dataUpdateREdge[PIx][k][i][iB+1];
-				dataUpdateREdge[WIx][k][i][iB]
+				dataUpdateREdge[WIx][i][iB][k]
 					= dataUpdateREdge[WIx][k][i][iB+1];
-				dataUpdateREdge[RIx][k][i][iB]
+				dataUpdateREdge[RIx][i][iB][k]
 					= dataUpdateREdge[RIx][k][i][iB+1];
 			}
 		}
-- 
2.43.0


From eddd8f1c956c582d432aa504287cf4901283755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 14/38] fix: integer division by zero with INT staggering and
 vertical order 1

---
 src/atm/GridGLL.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index 720bdf1..f2c6973 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -384,7 +384,11 @@ void GridGLL::InitializeVerticalCoordinate() {
 	// Initialize the vertical coordinate (INT staggering)
 	if (m_eVerticalStaggering == VerticalStaggering_Interfaces) {
 
-		// Check number of levels
+		// Check order and number of levels
+		if (nNodesPerFiniteElement < 2) {
+			_EXCEPTIONT("Vertical order of at least 2 required for "
+				"INT staggering");
+		}
 		if ((m_nRElements - 1) % (nNodesPerFiniteElement - 1) != 0) {
 			_EXCEPTIONT("(vertorder - 1) must divide (levels - 1) equally");
 		}
-- 
2.43.0


From 9d090d552f9dd9ae5ae2a22976e2cf54c3ec772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 15/38] fix: refuse INT staggering in the finite element
 vertical dynamics

The Jacobian and operators are set up for vertical velocity on interfaces
between levels; with INT staggering this read and wrote outside of the
operators and matrix, and explicit runs were not finite from the first step.
---
 src/atm/VerticalDynamicsFEM.cpp   | 7 +++++++
 src/atm/VerticalDynamicsFEMV2.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 361319f..8eef65e 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -112,6 +112,13 @@ void VerticalDynamicsFEM::Initialize() {
 		_EXCEPTIONT("Invalid grid -- expected GridGLL");
 	}
 
+	// Vertical velocity is assumed on interfaces
+	if (pGrid->GetVerticalStaggering() ==
+		Grid::VerticalStaggering_Interfaces
+	) {
+		_EXCEPTIONT("INT staggering not implemented");
+	}
+
 	// Physical constants
 	const PhysicalConstants & phys = m_model.GetPhysicalConstants();
 
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 0bc268f..482f180 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -115,6 +115,13 @@ void VerticalDynamicsFEMV2::Initialize() {
 		_EXCEPTIONT("Invalid grid -- expected GridGLL");
 	}
 
+	// Vertical velocity is assumed on interfaces
+	if (pGrid->GetVerticalStaggering() ==
+		Grid::VerticalStaggering_Interfaces
+	) {
+		_EXCEPTIONT("INT staggering not implemented");
+	}
+
 	// Physical constants
 	const PhysicalConstants & phys = m_model.GetPhysicalConstants();
 
-- 
2.43.0


From ce898f88676ef01c06d4b4e5c56b63eaac98bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:20 +0000
Subject: [PATCH 16/38] fix: refuse Cartesian layouts with patches of no
 elements

With more processors than elements in the alpha direction (but a number that
divides the total number of elements) some patches were empty and all
processors waited forever in the first exchange.
---
 src/atm/GridCartesianGLL.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 6d7cdbf..a25c943 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -174,6 +174,13 @@ void GridCartesianGLL::ApplyDefaultPatchLayout(
 	//nProcsADirection = nProcsPerDirection;
 	//nProcsBDirection = 1;
 
+	if ((nProcsADirection > GetABaseResolution()) ||
+	    (nProcsBDirection > GetBBaseResolution())
+	) {
+		_EXCEPTIONT("\nInsufficient elements in the alpha or beta direction "
+			"for this number of processors.");
+	}
+
 	int nElementsPerDirectionA = GetABaseResolution() / nProcsADirection;
 	DataArray1D<int> iBoxBeginA(nProcsADirection + 1);
 
-- 
2.43.0


From 096ca96ccf0722b3f11db3510dd68b6fa41d05ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 17/38] fix: stale halo in vorticity and divergence at
 non-periodic boundaries

Vorticity and divergence were averaged with whatever the halo held across a
non-periodic boundary, so the values on such boundaries depended on how often
they had been computed before, and differed after a restart.
---
 src/atm/GridCartesianGLL.cpp | 63 ++++++++++++++++++++++++++++++++++++
 src/atm/GridCartesianGLL.h   |  8 +++++
 2 files changed, 71 insertions(+)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index a25c943..daf589e 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -512,6 +512,61 @@ void GridCartesianGLL::GetOpposingDirection(
 
 ///////////////////////////////////////////////////////////////////////////////
 
+void GridCartesianGLL::ExtendAcrossBoundaries(
+	const PatchBox & box,
+	DataArray3D<double> & data
+) {
+	const int iABegin = box.GetAInteriorBegin();
+	const int iAEnd = box.GetAInteriorEnd();
+	const int iBBegin = box.GetBInteriorBegin();
+	const int iBEnd = box.GetBInteriorEnd();
+
+	const int nGlobalAEnd = m_nHorizontalOrder * GetABaseResolution();
+	const int nGlobalBEnd = m_nHorizontalOrder * GetBBaseResolution();
+
+	const bool fRight =
+		(GetBoundaryCondition(Direction_Right) != BoundaryCondition_Periodic)
+		&& (box.GetAGlobalInteriorEnd() == nGlobalAEnd);
+
+	const bool fTop =
+		(GetBoundaryCondition(Direction_Top) != BoundaryCondition_Periodic)
+		&& (box.GetBGlobalInteriorEnd() == nGlobalBEnd);
+
+	const bool fLeft =
+		(GetBoundaryCondition(Direction_Left) != BoundaryCondition_Periodic)
+		&& (box.GetAGlobalInteriorBegin() == 0);
+
+	const bool fBottom =
+		(GetBoundaryCondition(Direction_Bottom) != BoundaryCondition_Periodic)
+		&& (box.GetBGlobalInteriorBegin() == 0);
+
+	const int nRElements = data.GetSize(2);
+
+	for (int j = iBBegin-1; j < iBEnd+1; j++) {
+	for (int k = 0; k < nRElements; k++) {
+		if (fRight) {
+			data[iAEnd][j][k] = data[iAEnd-1][j][k];
+		}
+		if (fLeft) {
+			data[iABegin-1][j][k] = data[iABegin][j][k];
+		}
+	}
+	}
+
+	for (int i = iABegin-1; i < iAEnd+1; i++) {
+	for (int k = 0; k < nRElements; k++) {
+		if (fTop) {
+			data[i][iBEnd][k] = data[i][iBEnd-1][k];
+		}
+		if (fBottom) {
+			data[i][iBBegin-1][k] = data[i][iBBegin][k];
+		}
+	}
+	}
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 void GridCartesianGLL::ApplyDSS(
 	int iDataUpdate,
 	DataType eDataType
@@ -618,6 +673,14 @@ void GridCartesianGLL::ApplyDSS(
 				pDataUpdate.AttachToData(&(dTopographyDeriv[0][0][0]));
 			}
 
+			// Diagnostic fields have no boundary condition:  extend them across
+			// non-periodic boundaries, so averaging leaves them unchanged there
+			if ((eDataType == DataType_Vorticity) ||
+				(eDataType == DataType_Divergence)
+			) {
+				ExtendAcrossBoundaries(box, pDataUpdate);
+			}
+
 			// Averaging DSS across patch boundaries
 			for (int k = 0; k < nRElements; k++) {
 
diff --git a/src/atm/GridCartesianGLL.h b/src/atm/GridCartesianGLL.h
index 3b675d5..3eea533 100644
--- a/src/atm/GridCartesianGLL.h
+++ b/src/atm/GridCartesianGLL.h
@@ -130,6 +130,14 @@ public:
 		DataType eDataType
 	);
 
+	///	<summary>
+	///		Extend a field by one node across non-periodic boundaries.
+	///	</summary>
+	void ExtendAcrossBoundaries(
+		const PatchBox & box,
+		DataArray3D<double> & data
+	);
+
 	///	<summary>
 	///		Apply the direct stiffness summation (DSS) operation on the grid.
 	///	</summary>
-- 
2.43.0


From ad7205403e9f6d3d9532c8b8b351cafb3c46fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 18/38] fix: write errors while closing a netCDF file went
 unnoticed

nc_close() ignores errors of writing out the last buffer, so a full disk at
the end of a run left an incomplete output file and a successful exit.
---
 src/base/netcdf.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base/netcdf.cpp b/src/base/netcdf.cpp
index 360e3ff..cad8c47 100644
--- a/src/base/netcdf.cpp
+++ b/src/base/netcdf.cpp
@@ -306,6 +306,11 @@ NcBool NcFile::close( void ) {
 	if (the_id == ncBad)
 		return FALSE;
 
+	// Write out buffered data, as nc_close() ignores errors in doing so
+	int sync_status = NC_NOERR;
+	if (data_mode())
+		sync_status = NcError::set_err( nc_sync(the_id) );
+
 	for (i = 0; i < num_dims(); i++) {
 		delete dimensions[i];
 	}
@@ -320,7 +325,7 @@ NcBool NcFile::close( void ) {
 	the_id = ncBad;
 
 	int status = NcError::set_err( nc_close(old_id) );
-	return (status == NC_NOERR);
+	return (status == NC_NOERR) && (sync_status == NC_NOERR);
 }
 
 NcBool NcFile::abort( void ) {
-- 
2.43.0


From 17e521ff4e012caa8446c2683440921ed20621f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 19/38] fix: boundary conditions of the Cartesian domain were
 never applied

The test for a patch on the boundary compared indices that include the halo
with the extent of the domain, so no patch ever was.  Across a non-periodic
boundary data were averaged with whatever the halo held: mass was lost through
walls without flux, and results differed after a restart.  The metric is only
known in the interior, and fields without a condition are now extended across
the boundary.
---
 src/atm/GridCartesianGLL.cpp      |  23 +++--
 src/atm/GridPatchCartesianGLL.cpp | 136 +++++++++++++++++++-----------
 2 files changed, 106 insertions(+), 53 deletions(-)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index daf589e..b2f45c1 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -612,6 +612,20 @@ void GridCartesianGLL::ApplyDSS(
 
 		// Apply BC only to state DSS
 		if (eDataType == DataType_State) {
+			for (int c = 0; c < nComponents; c++) {
+				DataArray4D<double> & dState =
+					pPatch->GetDataState(iDataUpdate, GetVarLocation(c));
+
+				DataArray3D<double> dComponent;
+				dComponent.SetSize(
+					dState.GetSize(1),
+					dState.GetSize(2),
+					dState.GetSize(3));
+				dComponent.AttachToData(&(dState[c][0][0][0]));
+
+				ExtendAcrossBoundaries(box, dComponent);
+			}
+
 			pPatch->ApplyBoundaryConditions(iDataUpdate, DataType_State, n);
 		}
 
@@ -673,11 +687,10 @@ void GridCartesianGLL::ApplyDSS(
 				pDataUpdate.AttachToData(&(dTopographyDeriv[0][0][0]));
 			}
 
-			// Diagnostic fields have no boundary condition:  extend them across
-			// non-periodic boundaries, so averaging leaves them unchanged there
-			if ((eDataType == DataType_Vorticity) ||
-				(eDataType == DataType_Divergence)
-			) {
+			// Fields other than the state have no boundary condition:  extend
+			// them across non-periodic boundaries, so averaging leaves them
+			// unchanged there
+			if (eDataType != DataType_State) {
 				ExtendAcrossBoundaries(box, pDataUpdate);
 			}
 
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 3ad09cb..c67892f 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -822,12 +822,17 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryRight =
 			m_grid.GetBoundaryCondition(Direction_Right);
 		if ((eBoundaryRight != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalEnd() == nGlobalAEndIndex)) {
+			(m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex)) {
 			int i = m_box.GetATotalWidth() - 1;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
-				if (eBoundaryRight != Grid::BoundaryCondition_NoSlip) {
+				// Metric is only available in the interior
+				const int jm = std::min(
+					std::max(j, m_box.GetBInteriorBegin()),
+					m_box.GetBInteriorEnd()-1);
+
+				if (eBoundaryRight == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i-1][j][k];
 
@@ -836,7 +841,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 
 					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i-1][j][k];
-				} else if (eBoundaryRight != Grid::BoundaryCondition_NoFlux) {
+				} else if (eBoundaryRight == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_beta and u_xi
 					dUb_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][VIx][i][j][k] +
@@ -846,9 +851,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[k][i-1][j][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i-1][j][k][0];
-					dGab = m_dataContraMetricA[i-1][j][k][1];
-					dGax = m_dataContraMetricA[i-1][j][k][2];
+					dGaa = m_dataContraMetricA[i-1][jm][k][0];
+					dGab = m_dataContraMetricA[i-1][jm][k][1];
+					dGax = m_dataContraMetricA[i-1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -866,12 +871,17 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryTop =
 			m_grid.GetBoundaryCondition(Direction_Top);
 		if ((eBoundaryTop != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalEnd() == nGlobalBEndIndex)) {
+			(m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex)) {
 			int j = m_box.GetBTotalWidth() - 1;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
-				if (eBoundaryTop != Grid::BoundaryCondition_NoSlip) {
+				// Metric is only available in the interior
+				const int im = std::min(
+					std::max(i, m_box.GetAInteriorBegin()),
+					m_box.GetAInteriorEnd()-1);
+
+				if (eBoundaryTop == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i][j-1][k];
 
@@ -880,7 +890,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 
 					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i][j-1][k];
-				} else if (eBoundaryTop != Grid::BoundaryCondition_NoFlux) {
+				} else if (eBoundaryTop == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_alpha and u_xi
 					dUa_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][UIx][i][j][k] +
@@ -890,9 +900,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j-1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j-1][k][0];
-					dGbb = m_dataContraMetricB[i][j-1][k][1];
-					dGbx = m_dataContraMetricB[i][j-1][k][2];
+					dGba = m_dataContraMetricB[im][j-1][k][0];
+					dGbb = m_dataContraMetricB[im][j-1][k][1];
+					dGbx = m_dataContraMetricB[im][j-1][k][2];
 					//std::cout << dGbb << "\n";
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
@@ -911,11 +921,16 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryLeft =
 			m_grid.GetBoundaryCondition(Direction_Left);
 		if ((eBoundaryLeft != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalBegin() == nGlobalABeginIndex)) {
+			(m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex)) {
 			int i = 0;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				// Metric is only available in the interior
+				const int jm = std::min(
+					std::max(j, m_box.GetBInteriorBegin()),
+					m_box.GetBInteriorEnd()-1);
+
 				if (eBoundaryLeft == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i+1][j][k];
@@ -935,9 +950,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i+1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i+1][j][k][0];
-					dGab = m_dataContraMetricA[i+1][j][k][1];
-					dGax = m_dataContraMetricA[i+1][j][k][2];
+					dGaa = m_dataContraMetricA[i+1][jm][k][0];
+					dGab = m_dataContraMetricA[i+1][jm][k][1];
+					dGax = m_dataContraMetricA[i+1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -955,11 +970,16 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryBottom =
 			m_grid.GetBoundaryCondition(Direction_Bottom);
 		if ((eBoundaryBottom != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalBegin() == nGlobalBBeginIndex)) {
+			(m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex)) {
 			int j = 0;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				// Metric is only available in the interior
+				const int im = std::min(
+					std::max(i, m_box.GetAInteriorBegin()),
+					m_box.GetAInteriorEnd()-1);
+
 				if (eBoundaryBottom == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i][j+1][k];
@@ -979,9 +999,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j+1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j+1][k][0];
-					dGbb = m_dataContraMetricB[i][j+1][k][1];
-					dGbx = m_dataContraMetricB[i][j+1][k][2];
+					dGba = m_dataContraMetricB[im][j+1][k][0];
+					dGbb = m_dataContraMetricB[im][j+1][k][1];
+					dGbx = m_dataContraMetricB[im][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1001,10 +1021,15 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryRight =
 			m_grid.GetBoundaryCondition(Direction_Right);
 		if ((eBoundaryRight != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalEnd() == nGlobalAEndIndex)) {
+			(m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex)) {
 			int i = m_box.GetATotalWidth() - 1;
 			
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				// Metric is only available in the interior
+				const int jm = std::min(
+					std::max(j, m_box.GetBInteriorBegin()),
+					m_box.GetBInteriorEnd()-1);
+
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryRight == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1025,9 +1050,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i-1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i-1][j][k][0];
-					dGab = m_dataContraMetricA[i-1][j][k][1];
-					dGax = m_dataContraMetricA[i-1][j][k][2];
+					dGaa = m_dataContraMetricA[i-1][jm][k][0];
+					dGab = m_dataContraMetricA[i-1][jm][k][1];
+					dGax = m_dataContraMetricA[i-1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1059,9 +1084,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRREdge[i-1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricAREdge[i-1][j][k][0];
-					dGab = m_dataContraMetricAREdge[i-1][j][k][1];
-					dGax = m_dataContraMetricAREdge[i-1][j][k][2];
+					dGaa = m_dataContraMetricAREdge[i-1][jm][k][0];
+					dGab = m_dataContraMetricAREdge[i-1][jm][k][1];
+					dGax = m_dataContraMetricAREdge[i-1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1079,10 +1104,15 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryTop =
 			m_grid.GetBoundaryCondition(Direction_Top);
 		if ((eBoundaryTop != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalEnd() == nGlobalBEndIndex)) {
+			(m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex)) {
 			int j = m_box.GetBTotalWidth() - 1;
 
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				// Metric is only available in the interior
+				const int im = std::min(
+					std::max(i, m_box.GetAInteriorBegin()),
+					m_box.GetAInteriorEnd()-1);
+
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryTop == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1103,9 +1133,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j-1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j-1][k][0];
-					dGbb = m_dataContraMetricB[i][j-1][k][1];
-					dGbx = m_dataContraMetricB[i][j-1][k][2];
+					dGba = m_dataContraMetricB[im][j-1][k][0];
+					dGbb = m_dataContraMetricB[im][j-1][k][1];
+					dGbx = m_dataContraMetricB[im][j-1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1137,9 +1167,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRREdge[i][j-1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricBREdge[i][j-1][k][0];
-					dGbb = m_dataContraMetricBREdge[i][j-1][k][1];
-					dGbx = m_dataContraMetricBREdge[i][j-1][k][2];
+					dGba = m_dataContraMetricBREdge[im][j-1][k][0];
+					dGbb = m_dataContraMetricBREdge[im][j-1][k][1];
+					dGbx = m_dataContraMetricBREdge[im][j-1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1157,10 +1187,15 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryLeft =
 			m_grid.GetBoundaryCondition(Direction_Left);
 		if ((eBoundaryLeft != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalBegin() == nGlobalABeginIndex)) {
+			(m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex)) {
 			int i = 0;
 			
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				// Metric is only available in the interior
+				const int jm = std::min(
+					std::max(j, m_box.GetBInteriorBegin()),
+					m_box.GetBInteriorEnd()-1);
+
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryLeft == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1181,9 +1216,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i+1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i+1][j][k][0];
-					dGab = m_dataContraMetricA[i+1][j][k][1];
-					dGax = m_dataContraMetricA[i+1][j][k][2];
+					dGaa = m_dataContraMetricA[i+1][jm][k][0];
+					dGab = m_dataContraMetricA[i+1][jm][k][1];
+					dGax = m_dataContraMetricA[i+1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1215,9 +1250,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRREdge[i+1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricAREdge[i+1][j][k][0];
-					dGab = m_dataContraMetricAREdge[i+1][j][k][1];
-					dGax = m_dataContraMetricAREdge[i+1][j][k][2];
+					dGaa = m_dataContraMetricAREdge[i+1][jm][k][0];
+					dGab = m_dataContraMetricAREdge[i+1][jm][k][1];
+					dGax = m_dataContraMetricAREdge[i+1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1235,10 +1270,15 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryBottom =
 			m_grid.GetBoundaryCondition(Direction_Bottom);
 		if ((eBoundaryBottom != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalBegin() == nGlobalBBeginIndex)) {
+			(m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex)) {
 			int j = 0;
 			
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				// Metric is only available in the interior
+				const int im = std::min(
+					std::max(i, m_box.GetAInteriorBegin()),
+					m_box.GetAInteriorEnd()-1);
+
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryBottom == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1259,9 +1299,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j+1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j+1][k][0];
-					dGbb = m_dataContraMetricB[i][j+1][k][1];
-					dGbx = m_dataContraMetricB[i][j+1][k][2];
+					dGba = m_dataContraMetricB[im][j+1][k][0];
+					dGbb = m_dataContraMetricB[im][j+1][k][1];
+					dGbx = m_dataContraMetricB[im][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1293,9 +1333,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRREdge[i][j+1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricBREdge[i][j+1][k][0];
-					dGbb = m_dataContraMetricBREdge[i][j+1][k][1];
-					dGbx = m_dataContraMetricBREdge[i][j+1][k][2];
+					dGba = m_dataContraMetricBREdge[im][j+1][k][0];
+					dGbb = m_dataContraMetricBREdge[im][j+1][k][1];
+					dGbx = m_dataContraMetricBREdge[im][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
-- 
2.43.0


From f056545b08c7ec818536c12c2fb794d8f923b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 20/38] fix: vertical diffusion of horizontal velocity used
 another column

With an implicit vertical discretisation the state of the column on model
levels is only filled by the implicit solve, so that the explicit tendency
of uniform diffusion was computed from whichever column was solved last.
---
 src/atm/VerticalDynamicsFEM.cpp   | 6 ++++++
 src/atm/VerticalDynamicsFEMV2.cpp | 6 ++++++
 src/atm/VerticalDynamicsSchur.cpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 8eef65e..8b92251 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -1067,6 +1067,12 @@ void VerticalDynamicsFEM::StepExplicit(
 			    (m_fUniformDiffusionVar[UIx])
 			) {
 
+				// Horizontal velocity in this column
+				for (int k = 0; k < nRElements; k++) {
+					m_dStateNode[UIx][k] = dataInitialNode[UIx][i][j][k];
+					m_dStateNode[VIx][k] = dataInitialNode[VIx][i][j][k];
+				}
+
 				// Second derivatives of horizontal velocity on model levels
 				pGrid->DiffDiffNodeToNode(
 					m_dStateNode[UIx],
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 482f180..cc6455b 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -1179,6 +1179,12 @@ void VerticalDynamicsFEMV2::StepExplicit(
 			    (m_fUniformDiffusionVar[UIx])
 			) {
 
+				// Horizontal velocity in this column
+				for (int k = 0; k < nRElements; k++) {
+					m_dStateNode[UIx][k] = dataInitialNode[UIx][i][j][k];
+					m_dStateNode[VIx][k] = dataInitialNode[VIx][i][j][k];
+				}
+
 				// Second derivatives of horizontal velocity on model levels
 				pGrid->DiffDiffNodeToNode(
 					m_dStateNode[UIx],
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 03b47c6..d4a9e4f 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -1171,6 +1171,12 @@ void VerticalDynamicsSchur::StepExplicit(
 			    (m_fUniformDiffusionVar[UIx])
 			) {
 
+				// Horizontal velocity in this column
+				for (int k = 0; k < nRElements; k++) {
+					m_dStateNode[UIx][k] = dataInitialNode[UIx][i][j][k];
+					m_dStateNode[VIx][k] = dataInitialNode[VIx][i][j][k];
+				}
+
 				// Second derivatives of horizontal velocity on model levels
 				pGrid->DiffDiffNodeToNode(
 					m_dStateNode[UIx],
-- 
2.43.0


From 051a8b0f437831f2e8b88eed4285dba42ac10cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 21/38] fix: IMEX schemes copied the state twice and the
 tracers not at all

ARS(2,2,2), ARS(4,4,3), ARK(2,3,2), GARK2 and SSP3(3,3,2) used the tracers
left from the previous time step in their implicit stages.
---
 src/atm/TimestepSchemeARK232.cpp  | 6 +++---
 src/atm/TimestepSchemeARS222.cpp  | 2 +-
 src/atm/TimestepSchemeARS443.cpp  | 6 +++---
 src/atm/TimestepSchemeGARK2.cpp   | 2 +-
 src/atm/TimestepSchemeSSP3332.cpp | 6 +++---
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index 758f505..cade447 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeARK232::Step(
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicitTermsExplicitly(
 		1, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -116,7 +116,7 @@ void TimestepSchemeARK232::Step(
 */
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
-	pGrid->CopyData(2, 3, DataType_State);
+	pGrid->CopyData(2, 3, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		3, 3, time, m_dImpCf[0][1] * dDeltaT);
 	pGrid->PostProcessSubstage(3, DataType_State);
@@ -137,7 +137,7 @@ void TimestepSchemeARK232::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(4, 5, DataType_State);
-	pGrid->CopyData(4, 5, DataType_State);
+	pGrid->CopyData(4, 5, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		5, 5, time, m_dImpCf[1][2] * dDeltaT);
 	pGrid->PostProcessSubstage(5, DataType_State);
diff --git a/src/atm/TimestepSchemeARS222.cpp b/src/atm/TimestepSchemeARS222.cpp
index 3b2ae8b..39e4310 100644
--- a/src/atm/TimestepSchemeARS222.cpp
+++ b/src/atm/TimestepSchemeARS222.cpp
@@ -85,7 +85,7 @@ void TimestepSchemeARS222::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeARS443.cpp b/src/atm/TimestepSchemeARS443.cpp
index d6ba3f0..38cf802 100644
--- a/src/atm/TimestepSchemeARS443.cpp
+++ b/src/atm/TimestepSchemeARS443.cpp
@@ -117,7 +117,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -138,7 +138,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -159,7 +159,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
diff --git a/src/atm/TimestepSchemeGARK2.cpp b/src/atm/TimestepSchemeGARK2.cpp
index fc9bad2..9422135 100644
--- a/src/atm/TimestepSchemeGARK2.cpp
+++ b/src/atm/TimestepSchemeGARK2.cpp
@@ -103,7 +103,7 @@ void TimestepSchemeGARK2::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeSSP3332.cpp b/src/atm/TimestepSchemeSSP3332.cpp
index 3dd7faa..cd28930 100644
--- a/src/atm/TimestepSchemeSSP3332.cpp
+++ b/src/atm/TimestepSchemeSSP3332.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeSSP3332::Step(
 	// STAGE 1
 	// Compute u1 into index 2
 	pGrid->CopyData(0, 2, DataType_State);
-	pGrid->CopyData(0, 2, DataType_State);
+	pGrid->CopyData(0, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -130,7 +130,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -151,7 +151,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
-- 
2.43.0


From 6e2a1725c813cdf053377454a48bf6f20fe9b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 22/38] fix: adjacent separators in a list of variables or
 levels hung the tools

---
 util/CFConverter/CFConverter.cpp                   | 4 ++++
 util/ExtractSurface/ExtractSurface.cpp             | 4 ++++
 util/ZonalTemporalAverage/ZonalTemporalAverage.cpp | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/util/CFConverter/CFConverter.cpp b/util/CFConverter/CFConverter.cpp
index 1037a51..52e3451 100644
--- a/util/CFConverter/CFConverter.cpp
+++ b/util/CFConverter/CFConverter.cpp
@@ -162,6 +162,8 @@ void ParseLevelArray(
 					break;
 				}
 
+				iLevelCurrent++;
+				iLevelBegin = iLevelCurrent;
 				continue;
 			}
 
@@ -234,6 +236,8 @@ void ParseVariableList(
 					break;
 				}
 
+				iVarCurrent++;
+				iVarBegin = iVarCurrent;
 				continue;
 			}
 
diff --git a/util/ExtractSurface/ExtractSurface.cpp b/util/ExtractSurface/ExtractSurface.cpp
index c85174f..fea7ac6 100644
--- a/util/ExtractSurface/ExtractSurface.cpp
+++ b/util/ExtractSurface/ExtractSurface.cpp
@@ -162,6 +162,8 @@ void ParseLevelArray(
 					break;
 				}
 
+				iLevelCurrent++;
+				iLevelBegin = iLevelCurrent;
 				continue;
 			}
 
@@ -233,6 +235,8 @@ void ParseVariableList(
 					break;
 				}
 
+				iVarCurrent++;
+				iVarBegin = iVarCurrent;
 				continue;
 			}
 
diff --git a/util/ZonalTemporalAverage/ZonalTemporalAverage.cpp b/util/ZonalTemporalAverage/ZonalTemporalAverage.cpp
index 060f885..6733753 100644
--- a/util/ZonalTemporalAverage/ZonalTemporalAverage.cpp
+++ b/util/ZonalTemporalAverage/ZonalTemporalAverage.cpp
@@ -134,6 +134,8 @@ void ParseVariableList(
 					break;
 				}
 
+				iVarCurrent++;
+				iVarBegin = iVarCurrent;
 				continue;
 			}
 
-- 
2.43.0


From ba023ce3bbd7302662c92323a2e4a8ceb778f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 23/38] fix: ExtractSurface --output_z crashed on files with
 more than one time

---
 util/ExtractSurface/ExtractSurface.cpp | 35 +++++++++++++-------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/util/ExtractSurface/ExtractSurface.cpp b/util/ExtractSurface/ExtractSurface.cpp
index fea7ac6..3d8aea4 100644
--- a/util/ExtractSurface/ExtractSurface.cpp
+++ b/util/ExtractSurface/ExtractSurface.cpp
@@ -711,6 +711,20 @@ try {
 		}
 	}
 
+	// Create output geopotential height variables
+	NcVar * varOutPhiZ = NULL;
+	NcVar * varOutPhiZs = NULL;
+	if (fGeopotentialHeight) {
+		if (nPressureLevels > 0) {
+			varOutPhiZ = ncdf_out.add_var(
+				"PHIZ", ncDouble, dimOutTime, dimOutP, dimOutLat, dimOutLon);
+		}
+		if (fExtractSurface) {
+			varOutPhiZs = ncdf_out.add_var(
+				"PHIZS", ncDouble, dimOutTime, dimOutLat, dimOutLon);
+		}
+	}
+
 	// Loop over all times
 	for (int t = 0; t < nTime; t++) {
 
@@ -953,19 +967,6 @@ try {
 
 			Announce("Geopotential height");
 
-			// Output variables
-			NcVar * varOutZ;
-			NcVar * varOutZs;
-
-			if (nPressureLevels > 0) {
-				varOutZ = ncdf_out.add_var(
-					"PHIZ", ncDouble, dimOutTime, dimOutP, dimOutLat, dimOutLon);
-			}
-			if (fExtractSurface) {
-				varOutZs = ncdf_out.add_var(
-					"PHIZS", ncDouble, dimOutTime, dimOutLat, dimOutLon);
-			}
-
 			// Interpolate onto pressure levels
 			for (int p = 0; p < nPressureLevels; p++) {
 
@@ -996,8 +997,8 @@ try {
 				}
 
 				// Write variable
-				varOutZ->set_cur(t, p, 0, 0);
-				if (!varOutZ->put(&(dataOut[0][0]), 1, 1, nLat, nLon)) {
+				varOutPhiZ->set_cur(t, p, 0, 0);
+				if (!varOutPhiZ->put(&(dataOut[0][0]), 1, 1, nLat, nLon)) {
 					_EXCEPTIONT("Error writing output file");
 				}
 
@@ -1025,8 +1026,8 @@ try {
 				}
 
 				// Write variable
-				varOutZs->set_cur(t, 0, 0);
-				if (!varOutZs->put(&(dataOut[0][0]), 1, nLat, nLon)) {
+				varOutPhiZs->set_cur(t, 0, 0);
+				if (!varOutPhiZs->put(&(dataOut[0][0]), 1, nLat, nLon)) {
 					_EXCEPTIONT("Error writing output file");
 				}
 
-- 
2.43.0


From 70cbae67689caa071858094bedf0688c8ac07033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 24/38] fix: vertical dynamics V2 read the element areas of
 other columns

---
 src/atm/VerticalDynamicsFEMV2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index cc6455b..5f2c015 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -908,14 +908,14 @@ void VerticalDynamicsFEMV2::StepExplicit(
 
 					dDeltaU -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUa;
 
 					dDeltaV -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUb;
-- 
2.43.0


From 69c60986904754226534e9111c2a32c05d59831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 25/38] fix: vertical staggering on interfaces with order 1
 divided by zero

---
 src/atm/LinearColumnOperatorFEM.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 8454826..c18331d 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -711,6 +711,10 @@ void LinearColumnDiffFEM::InitializeGLLNodes(
 	const int nRElementsIn  = dREtaNode.GetRows();
 	const int nRElementsOut = dREtaOut.GetRows();
 
+	if (nVerticalOrder < 2) {
+		_EXCEPTIONT("Vertical order of at least 2 required on interfaces");
+	}
+
 	const int nFiniteElements = (nRElementsIn - 1) / (nVerticalOrder - 1);
 
 	// Verify input parameters
@@ -1392,6 +1396,10 @@ void LinearColumnDiffDiffFEM::InitializeGLLNodes(
 	const int nRElementsIn  = dREtaNode.GetRows();
 	const int nRElementsOut = dREtaNode.GetRows();
 
+	if (nVerticalOrder < 2) {
+		_EXCEPTIONT("Vertical order of at least 2 required on interfaces");
+	}
+
 	const int nFiniteElements = (nRElementsIn - 1) / (nVerticalOrder - 1);
 
 	// Verify input parameters
-- 
2.43.0


From 1d1828b8b35b0110b45ca30fae4c90c9ebf47ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 26/38] fix: failed allocations and attributes could go
 unnoticed

Failing allocations of data arrays were not checked or raised an Exception
that leaves the other processors waiting during setup.  Failures to define
scalar attributes of netCDF files were not recorded as errors.
---
 src/base/DataArray1D.h     |  4 ++++
 src/base/DataArray2D.h     |  4 ++++
 src/base/DataArray3D.h     |  4 ++++
 src/base/DataArray4D.h     |  4 ++++
 src/base/DataContainer.cpp |  3 ++-
 src/base/DataStruct.h      |  4 ++++
 src/base/netcdf.cpp        | 24 ++++++++++++++++--------
 7 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/base/DataArray1D.h b/src/base/DataArray1D.h
index 5cbd4bb..7da1c3a 100644
--- a/src/base/DataArray1D.h
+++ b/src/base/DataArray1D.h
@@ -24,6 +24,7 @@
 #include "DataType.h"
 #include "DataLocation.h"
 
+#include <new>
 #include <cstdlib>
 #include <cstring>
 
@@ -123,6 +124,9 @@ public:
 			m_sSize = sSize;
 
 			m_data = reinterpret_cast<T *>(malloc(GetByteSize()));
+			if (m_data == NULL) {
+				throw std::bad_alloc();
+			}
 		}
 
 		Zero();
diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index 9bff11b..eb891e8 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -25,6 +25,7 @@
 #include "DataLocation.h"
 #include "Subscript.h"
 
+#include <new>
 #include <cstdlib>
 #include <cstring>
 
@@ -150,6 +151,9 @@ public:
 			m_sSize[1] = sSize1;
 
 			m_data1D = reinterpret_cast<T *>(malloc(GetByteSize()));
+			if (m_data1D == NULL) {
+				throw std::bad_alloc();
+			}
 
 		}
 
diff --git a/src/base/DataArray3D.h b/src/base/DataArray3D.h
index b0e4d60..ffb2eff 100644
--- a/src/base/DataArray3D.h
+++ b/src/base/DataArray3D.h
@@ -25,6 +25,7 @@
 #include "DataLocation.h"
 #include "Subscript.h"
 
+#include <new>
 #include <cstdlib>
 #include <cstring>
 
@@ -161,6 +162,9 @@ public:
 			m_sSize[2] = sSize2;
 
 			m_data1D = reinterpret_cast<T *>(malloc(GetByteSize()));
+			if (m_data1D == NULL) {
+				throw std::bad_alloc();
+			}
 		}
 
 		Zero();
diff --git a/src/base/DataArray4D.h b/src/base/DataArray4D.h
index 22d96e6..48a5d91 100644
--- a/src/base/DataArray4D.h
+++ b/src/base/DataArray4D.h
@@ -25,6 +25,7 @@
 #include "DataLocation.h"
 #include "Subscript.h"
 
+#include <new>
 #include <cstdlib>
 #include <cstring>
 
@@ -177,6 +178,9 @@ public:
 			m_sSize[3] = sSize3;
 
 			m_data1D = reinterpret_cast<T *>(malloc(GetByteSize()));
+			if (m_data1D == NULL) {
+				throw std::bad_alloc();
+			}
 		}
 
 		Zero();
diff --git a/src/base/DataContainer.cpp b/src/base/DataContainer.cpp
index fd77344..0c84a2f 100644
--- a/src/base/DataContainer.cpp
+++ b/src/base/DataContainer.cpp
@@ -18,6 +18,7 @@
 
 #include "Exception.h"
 
+#include <new>
 #include <cstdlib>
 #include <cstring>
 
@@ -93,7 +94,7 @@ void DataContainer::Allocate() {
 #endif
 
 	if (m_pAllocatedMemory == NULL) {
-		_EXCEPTIONT("Out of memory");
+		throw std::bad_alloc();
 	}
 
 	// Initialize allocated memory to zero
diff --git a/src/base/DataStruct.h b/src/base/DataStruct.h
index 471f41a..2ebac26 100644
--- a/src/base/DataStruct.h
+++ b/src/base/DataStruct.h
@@ -22,6 +22,7 @@
 #include "Exception.h"
 #include "DataChunk.h"
 
+#include <new>
 #include <cstdlib>
 #include <cstring>
 
@@ -79,6 +80,9 @@ public:
 			Detach();
 
 			m_data = reinterpret_cast<T *>(malloc(GetByteSize()));
+			if (m_data == NULL) {
+				throw std::bad_alloc();
+			}
 		}
 
 		Zero();
diff --git a/src/base/netcdf.cpp b/src/base/netcdf.cpp
index cad8c47..6bc4398 100644
--- a/src/base/netcdf.cpp
+++ b/src/base/netcdf.cpp
@@ -1364,8 +1364,10 @@ NcBool NcVar::add_att(NcToken aname, ncbyte val)
 {
 	if (! the_file->define_mode())
 	  return FALSE;
-	if (nc_put_att_schar (the_file->id(), the_id, aname, (nc_type) NcTypeEnum(ncbyte),
-		 1, &val) != NC_NOERR)
+	if (NcError::set_err(
+			 nc_put_att_schar (the_file->id(), the_id, aname, (nc_type) NcTypeEnum(ncbyte),
+		 1, &val)
+			 ) != NC_NOERR)
 	  return FALSE;
 	return TRUE;
 }
@@ -1374,8 +1376,10 @@ NcBool NcVar::add_att(NcToken aname, char val)
 {
 	if (! the_file->define_mode())
 	  return FALSE;
-	if (nc_put_att_text (the_file->id(), the_id, aname,
-		 1, &val) != NC_NOERR)
+	if (NcError::set_err(
+			 nc_put_att_text (the_file->id(), the_id, aname,
+		 1, &val)
+			 ) != NC_NOERR)
 	  return FALSE;
 	return TRUE;
 }
@@ -1392,8 +1396,10 @@ NcBool NcVar::add_att(NcToken aname, float val)
 	if (! the_file->define_mode())
 	  return FALSE;
 	float fval = (float) val;	// workaround for bug, val passed as double??
-	if (nc_put_att_float(the_file->id(), the_id, aname, (nc_type) ncFloat,
-		 1, &fval) != NC_NOERR)
+	if (NcError::set_err(
+			 nc_put_att_float(the_file->id(), the_id, aname, (nc_type) ncFloat,
+		 1, &fval)
+			 ) != NC_NOERR)
 	  return FALSE;
 	return TRUE;
 }
@@ -1402,8 +1408,10 @@ NcBool NcVar::add_att(NcToken aname, const char* val)
 {
 	if (! the_file->define_mode())
 	  return FALSE;
-	if (nc_put_att_text(the_file->id(), the_id, aname,
-		 strlen(val), val) != NC_NOERR)
+	if (NcError::set_err(
+			 nc_put_att_text(the_file->id(), the_id, aname,
+		 strlen(val), val)
+			 ) != NC_NOERR)
 	  return FALSE;
 	return TRUE;
 }
-- 
2.43.0


From 7ca19c1baf10cd6ef1641db9b408cc0473dc4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 27/38] fix: local metric of an element was indexed with patch
 indices (vertical velocity on levels)

---
 src/atm/HorizontalDynamicsFEM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEM.cpp b/src/atm/HorizontalDynamicsFEM.cpp
index 58a264f..722f8c6 100644
--- a/src/atm/HorizontalDynamicsFEM.cpp
+++ b/src/atm/HorizontalDynamicsFEM.cpp
@@ -1430,11 +1430,11 @@ void HorizontalDynamicsFEM::StepNonhydrostaticPrimitive(
 
 					if (k == 0) {
 						dLocalUpdateUr =
-							- ( m_dLocalContraMetric(iA,iB,0,2)
+							- ( m_dLocalContraMetric(i,j,0,2)
 									* dLocalUpdateUa
-							  + m_dLocalContraMetric(iA,iB,0,4)
+							  + m_dLocalContraMetric(i,j,0,4)
 							  		* dLocalUpdateUb)
-							/ m_dLocalContraMetric(iA,iB,0,5);
+							/ m_dLocalContraMetric(i,j,0,5);
 
 					} else if (k == nRElements-1) {
 						dLocalUpdateUr = 0.0;
-- 
2.43.0


From 45481d5408c3def2e51dd32c88a3e71d5f6b7ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 28/38] fix: wrong column Jacobian in the implicit tracer
 update of the V2 and Schur vertical dynamics

---
 src/atm/VerticalDynamicsFEMV2.cpp | 2 +-
 src/atm/VerticalDynamicsSchur.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 5f2c015..9ce03d7 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -4188,7 +4188,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 
 					dTracersLUDF[TracerMatFIx(n, k)] +=
 						dDiffREdgeToNode[k][m]
-						* dJacobianREdge[m][m_iA][m_iB]
+						* dJacobianREdge[m_iA][m_iB][m]
 						/ dJacobianNode[m_iA][m_iB][k]
 						* dInterpNodeToREdge[m][n]
 						* m_dXiDotREdge[m];
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index d4a9e4f..5e0c09e 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -3764,7 +3764,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 
 					dTracersLUDF[TracerMatFIx(n, k)] +=
 						dDiffREdgeToNode[k][m]
-						* dJacobianREdge[m][m_iA][m_iB]
+						* dJacobianREdge[m_iA][m_iB][m]
 						/ dJacobianNode[m_iA][m_iB][k]
 						* dInterpNodeToREdge[m][n]
 						* m_dXiDotREdge[m];
-- 
2.43.0


From 5065edabbcb9fabc2e900e81ce096a63c24d503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 29/38] fix: refuse too few levels for the tracer update
 instead of writing outside its matrix

---
 src/atm/VerticalDynamicsFEM.cpp   | 8 ++++++++
 src/atm/VerticalDynamicsFEMV2.cpp | 8 ++++++++
 src/atm/VerticalDynamicsSchur.cpp | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 8b92251..a497c16 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -394,6 +394,14 @@ void VerticalDynamicsFEM::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#ifdef USE_JACOBIAN_DIAGONAL
+	// The banded matrix of the tracer update must hold all diagonals
+	if ((m_model.GetEquationSet().GetTracers() > 0) &&
+	    (nRElements < 3 * (2 * m_nVerticalOrder - 1) + 1)
+	) {
+		_EXCEPTIONT("Insufficient number of levels for tracer update");
+	}
+#endif
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
 	m_vecTracersIPiv.Allocate(nRElements);
 
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 9ce03d7..736754b 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -402,6 +402,14 @@ void VerticalDynamicsFEMV2::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#ifdef USE_JACOBIAN_DIAGONAL
+	// The banded matrix of the tracer update must hold all diagonals
+	if ((m_model.GetEquationSet().GetTracers() > 0) &&
+	    (nRElements < 3 * (2 * m_nVerticalOrder - 1) + 1)
+	) {
+		_EXCEPTIONT("Insufficient number of levels for tracer update");
+	}
+#endif
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
 	m_vecTracersIPiv.Allocate(nRElements);
 
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 5e0c09e..06e0b2c 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -418,6 +418,14 @@ void VerticalDynamicsSchur::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#ifdef USE_JACOBIAN_DIAGONAL
+	// The banded matrix of the tracer update must hold all diagonals
+	if ((m_model.GetEquationSet().GetTracers() > 0) &&
+	    (nRElements < 3 * (2 * m_nVerticalOrder - 1) + 1)
+	) {
+		_EXCEPTIONT("Insufficient number of levels for tracer update");
+	}
+#endif
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
 	m_vecTracersIPiv.Allocate(nRElements);
 
-- 
2.43.0


From ca07f364ae71af4386f76326d05d1433f26ea6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 30/38] fix: output on levels other than the model's read past
 the column with finite volumes on Cartesian grids

---
 src/atm/GridPatchCartesianGLL.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index c67892f..33e0e16 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1688,8 +1688,25 @@ void GridPatchCartesianGLL::InterpolateData(
 				eVerticalDiscType ==
 				Grid::VerticalDiscretization_FiniteVolume
 			) {
-#pragma message "Finite volume interpolation not implemented correctly"
-				opInterp.InitializeIdentity(nRElements);
+				if (eDataLocation == DataLocation_Node) {
+					opInterp.Initialize(
+						LinearColumnInterpFEM::InterpSource_Levels,
+						1,
+						m_grid.GetREtaLevels(),
+						m_grid.GetREtaInterfaces(),
+						dREta);
+
+				} else if (eDataLocation == DataLocation_REdge) {
+					opInterp.Initialize(
+						LinearColumnInterpFEM::InterpSource_Interfaces,
+						1,
+						m_grid.GetREtaLevels(),
+						m_grid.GetREtaInterfaces(),
+						dREta);
+
+				} else {
+					_EXCEPTIONT("Invalid DataLocation");
+				}
 
 			// Invalid vertical discretization type
 			} else {
-- 
2.43.0


From 3dabef60e0bb2e93b08a57a762584d1c08b97f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 31/38] fix: accumulated user data (precipitation) was lost in
 a restart

---
 src/atm/GridPatch.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index faa64b6..2f4b706 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -391,6 +391,18 @@ void GridPatch::InitializeDataLocal(
 		}
 	}
 
+	// 2D User data (part of the active state, since accumulated over time)
+	if (metaUserData.GetUserData2DItemCount() != 0) {
+		m_dataUserData2D.SetDataType(DataType_Auxiliary2D);
+		m_dataUserData2D.SetDataLocation(DataLocation_None);
+		m_dataUserData2D.SetSize(
+			metaUserData.GetUserData2DItemCount(),
+			m_box.GetATotalWidth(),
+			m_box.GetBTotalWidth());
+
+		m_dcActiveState.PushDataChunk(&m_dataUserData2D);
+	}
+
 	// Allocate active and buffer state data
 	if (fAllocateActiveState) {
 		m_dcActiveState.Allocate();
@@ -462,18 +474,6 @@ void GridPatch::InitializeDataLocal(
 	m_dcAuxiliary.PushDataChunk(&m_dataRichardson);
 	m_dcAuxiliary.PushDataChunk(&m_dataSurfacePressure);
 
-	// 2D User data
-	if (metaUserData.GetUserData2DItemCount() != 0) {
-		m_dataUserData2D.SetDataType(DataType_Auxiliary2D);
-		m_dataUserData2D.SetDataLocation(DataLocation_None);
-		m_dataUserData2D.SetSize(
-			metaUserData.GetUserData2DItemCount(),
-			m_box.GetATotalWidth(),
-			m_box.GetBTotalWidth());
-
-		m_dcAuxiliary.PushDataChunk(&m_dataUserData2D);
-	}
-
 	// Allocate auxiliary data
 	if (fAllocateAuxiliary) {
 		m_dcAuxiliary.Allocate();
-- 
2.43.0


From 255add1501128bf86f3a055fe033d4c9013a9f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 32/38] fix: intervals longer than a month were turned into
 months of varying length

---
 src/base/TimeObj.cpp | 11 +++++++++--
 src/base/TimeObj.h   |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 064720d..7fb0b82 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -216,6 +216,11 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// Days of a time interval are kept, as the length of months varies
+		if (m_eTimeType == TypeDelta) {
+			return;
+		}
+
 		// Subtract months
 		while (m_iDay < 0) {
 			m_iMonth--;
@@ -765,8 +770,10 @@ void Time::FromFormattedString(
 		} 
 	}
 
-	// Type
-	if ((state == FormatState_Date) || (state == FormatState_Time)) {
+	// Type (without a date a record in Time format is an interval)
+	if ((state == FormatState_Date) ||
+	    ((state == FormatState_Time) && (szYear != NULL))
+	) {
 		m_eTimeType = TypeFixed;
 	} else {
 		m_eTimeType = TypeDelta;
diff --git a/src/base/TimeObj.h b/src/base/TimeObj.h
index d040041..4882e16 100644
--- a/src/base/TimeObj.h
+++ b/src/base/TimeObj.h
@@ -357,6 +357,7 @@ public:
 	///	</summary>
 	inline void SetTimeType(TimeType eTimeType) {
 		m_eTimeType = eTimeType;
+		NormalizeTime();
 	}
 
 public:
-- 
2.43.0


From 7832889597b12532acf0f3126007206bbd3f8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 33/38] fix: a perturbed restart on Cartesian grids replaced
 the state instead of adding to it

---
 src/atm/GridPatchCartesianGLL.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 33e0e16..20f7f30 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -740,16 +740,21 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
-		eqns.ConvertComponents(
-			phys, dPointwiseState, dPointwiseTracers);
-
+		// Add the perturbation (potential temperature is weighted with density)
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
-			m_datavecStateNode[iDataIndex][c][i][j][k] = dPointwiseState[c];
+			double dPerturbation = dPointwiseState[c];
+#if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
+			if (c == 2) {
+				dPerturbation *=
+					m_datavecStateNode[iDataIndex][4][i][j][k];
+			}
+#endif
+			m_datavecStateNode[iDataIndex][c][i][j][k] += dPerturbation;
 		}
 
 		// Evaluate tracers
 		for (int c = 0; c < dPointwiseTracers.GetRows(); c++) {
-			m_datavecTracers[iDataIndex][c][i][j][k] = dPointwiseTracers[c];
+			m_datavecTracers[iDataIndex][c][i][j][k] += dPointwiseTracers[c];
 		}
 	}
 	}
@@ -769,10 +774,16 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
-		eqns.ConvertComponents(phys, dPointwiseState, dPointwiseTracers);
-
+		// Add the perturbation (potential temperature is weighted with density)
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
-			m_datavecStateREdge[iDataIndex][c][i][j][k] = dPointwiseState[c];
+			double dPerturbation = dPointwiseState[c];
+#if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
+			if (c == 2) {
+				dPerturbation *=
+					m_datavecStateREdge[iDataIndex][4][i][j][k];
+			}
+#endif
+			m_datavecStateREdge[iDataIndex][c][i][j][k] += dPerturbation;
 		}
 	}
 	}
-- 
2.43.0


From f1ee524b5d6159f34ed2cdf2490de1693fe157ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 34/38] fix: interpolation operators of single-level grids read
 and wrote beyond their arrays

For nVerticalOrder = 1 the first and last interface use two levels; shallow
water grids have one (the operator wrote coefficients of index -1 and 1 and
read a second level beyond the end of a one-element array).
---
 src/atm/LinearColumnOperatorFEM.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index c18331d..f613187 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -119,7 +119,8 @@ void LinearColumnInterpFEM::Initialize(
 		} else {
 
 			// For nVerticalOrder = 1, override default O(dx) interpolant
-			if ((nVerticalOrder == 1) && (l == 0)) {
+			// (which needs at least two levels)
+			if ((nVerticalOrder == 1) && (nRElementsIn > 1) && (l == 0)) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[a * nVerticalOrder]),
@@ -129,7 +130,11 @@ void LinearColumnInterpFEM::Initialize(
 				m_iBegin[l] =  a    * nVerticalOrder;
 				m_iEnd[l]   = (a+2) * nVerticalOrder;
 
-			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1)) {
+			} else if (
+				(nVerticalOrder == 1) &&
+				(nRElementsIn > 1) &&
+				(l == nRElementsOut-1)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[(a-1) * nVerticalOrder]),
-- 
2.43.0


From 7f5fc7340c980fab70053ab66b3ae74150ae71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 35/38] fix: a perturbed restart of shallow water runs read a
 fourth state component

Only the state of three-dimensional equation sets has density as component 4.
---
 src/atm/GridPatchCSGLL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index cdf2075..2aa35a0 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -992,7 +992,7 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
         
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
 #if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
-            if (c == 2) {
+            if ((c == 2) && (!fIs2DEquationSet)) {
                 dataStateNode(c,i,j,k) +=
                     dataStateNode(4,i,j,k) * dPointwiseState[c];
                 //std::cout << dataStateNode(c,i,j,k) << ' ' << dPointwiseState[c] << std::endl;
@@ -1070,7 +1070,7 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
 #if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
-            if (c == 2) {
+            if ((c == 2) && (!fIs2DEquationSet)) {
                 dataStateREdge(c,i,j,k) +=
                     dataStateREdge(4,i,j,k) * dPointwiseState[c];
                 //std::cout << dataStateNode(c,i,j,k) << ' ' << dPointwiseState[c] << std::endl;
-- 
2.43.0


From 6ff563ac1136feee106d36d2b54962e83b3bc42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 36/38] fix: DEBUG_ARRAYOUTOFBOUNDS accepted indices one past
 the end

---
 src/base/DataArray1D.h | 4 ++--
 src/base/DataArray2D.h | 8 ++++----
 src/base/DataArray3D.h | 8 ++++----
 src/base/DataArray4D.h | 8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/base/DataArray1D.h b/src/base/DataArray1D.h
index 7da1c3a..17da297 100644
--- a/src/base/DataArray1D.h
+++ b/src/base/DataArray1D.h
@@ -366,7 +366,7 @@ public:
 	///	</summary>
 	inline T & operator()(size_t i) {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize) {
+		if (i >= m_sSize) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -378,7 +378,7 @@ public:
 	///	</summary>
 	inline const T & operator()(size_t i) const {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize) {
+		if (i >= m_sSize) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index eb891e8..79349c4 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -466,7 +466,7 @@ public:
 	inline const T & operator()(size_t i, size_t j) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -481,7 +481,7 @@ public:
 	inline T & operator()(size_t i, size_t j) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -524,7 +524,7 @@ public:
 	inline T const* operator()(size_t i) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize[0]) {
+		if (i >= m_sSize[0]) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -539,7 +539,7 @@ public:
 	inline T* operator()(size_t i) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize[0]) {
+		if (i >= m_sSize[0]) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
diff --git a/src/base/DataArray3D.h b/src/base/DataArray3D.h
index ffb2eff..d47f8fa 100644
--- a/src/base/DataArray3D.h
+++ b/src/base/DataArray3D.h
@@ -497,7 +497,7 @@ public:
 	///	</summary>
 	inline const T & operator()(size_t i, size_t j, size_t k) const {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -508,7 +508,7 @@ public:
 	///	</summary>
 	inline T & operator()(size_t i, size_t j, size_t k) {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -551,7 +551,7 @@ public:
 	inline T const* operator()(size_t i, size_t j) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -567,7 +567,7 @@ public:
 	inline T* operator()(size_t i, size_t j) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
diff --git a/src/base/DataArray4D.h b/src/base/DataArray4D.h
index 48a5d91..7afd53e 100644
--- a/src/base/DataArray4D.h
+++ b/src/base/DataArray4D.h
@@ -510,7 +510,7 @@ public:
 	///	</summary>
 	inline const T & operator()(size_t i, size_t j, size_t k, size_t l) const {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2]) || (l > m_sSize[3])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2]) || (l >= m_sSize[3])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -522,7 +522,7 @@ public:
 	///	</summary>
 	inline T & operator()(size_t i, size_t j, size_t k, size_t l) {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2]) || (l > m_sSize[3])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2]) || (l >= m_sSize[3])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -566,7 +566,7 @@ public:
 	inline T const* operator()(size_t i, size_t j, size_t k) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -583,7 +583,7 @@ public:
 	inline T* operator()(size_t i, size_t j, size_t k) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
-- 
2.43.0


From d694649a3419c9209a4e37681e62e7c56dbf73b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 37/38] fix: with an empty --output_dir files went to the root
 directory

An empty name means the current directory (no directory is created for it).
---
 src/atm/OutputManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/atm/OutputManager.cpp b/src/atm/OutputManager.cpp
index f75374f..631052c 100644
--- a/src/atm/OutputManager.cpp
+++ b/src/atm/OutputManager.cpp
@@ -72,7 +72,9 @@ void OutputManager::GetFileName(
 	std::string & strFileName
 ) const {
 	strFileName = m_strOutputDir;
-	strFileName += "/";
+	if (m_strOutputDir != "") {
+		strFileName += "/";
+	}
 	strFileName += m_strOutputPrefix;
 	strFileName += ".";
 	strFileName += time.ToShortString();
-- 
2.43.0


From 92d507ba94f50f5d720cd49687677784d48b4401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 38/38] Bounds checks of one-dimensional subscripts
 (TEMPEST_SIM_HOOK, off by default)

---
 src/base/DataArray1D.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/base/DataArray1D.h b/src/base/DataArray1D.h
index 17da297..4e6a14a 100644
--- a/src/base/DataArray1D.h
+++ b/src/base/DataArray1D.h
@@ -361,6 +361,31 @@ public:
 		return m_data;
 	}
 
+#if defined(TEMPEST_SIM_HOOK) && defined(DEBUG_ARRAYOUTOFBOUNDS)
+	///	<summary>
+	///		Subscript with bounds check, instead of by conversion to a pointer
+	///		(one past the end may be used to form an address).
+	///	</summary>
+	template <typename I>
+	inline T & operator[](I i) {
+		if (static_cast<size_t>(i) > m_sSize) {
+			_EXCEPTIONT("Array access out of bounds");
+		}
+		return m_data[i];
+	}
+
+	///	<summary>
+	///		Subscript with bounds check, instead of by conversion to a pointer.
+	///	</summary>
+	template <typename I>
+	inline const T & operator[](I i) const {
+		if (static_cast<size_t>(i) > m_sSize) {
+			_EXCEPTIONT("Array access out of bounds");
+		}
+		return m_data[i];
+	}
+#endif
+
 	///	<summary>
 	///		Parenthetical array accessor.
 	///	</summary>
-- 
2.43.0

