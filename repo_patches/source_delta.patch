From 4ae9a54b912981c195992e112fb5bca6d35e3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:19 +0000
Subject: [PATCH 01/78] fix: read the second column of nonlinear line property
 curves

read_curve() stored the abscissa (strain, rate or curvature) as the ordinate
too, so tabulated EA, BA and EI had no relation with the supplied table.
---
 source/MoorDyn2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 1f6c4ae..db2b951 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -740,7 +740,7 @@ class MoorDyn final : public io::IO
 				return MOORDYN_INVALID_INPUT;
 			}
 			x.push_back(atof(entries[0].c_str()));
-			y.push_back(atof(entries[0].c_str()));
+			y.push_back(atof(entries[1].c_str()));
 			LOGDBG << "(" << x.back() << ", " << y.back() << ")" << std::endl;
 		}
 
-- 
2.43.0


From e6cece2ce990333ab39662110c369ebea83d14cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:19 +0000
Subject: [PATCH 02/78] fix: accept nonlinear curve files ending with a newline

The empty string after the last newline was parsed as a bad curve point, so
any text file ended in the usual way was refused.
---
 source/MoorDyn2.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index db2b951..464c987 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -714,9 +714,8 @@ class MoorDyn final : public io::IO
 
 		vector<string> flines;
 		int i = 0;
-		while (f.good()) {
-			string fline;
-			getline(f, fline);
+		string fline;
+		while (getline(f, fline)) {
 			if (i>2) { // skip first three lines as headers 
 				moordyn::str::rtrim(fline);
 				flines.push_back(fline);
-- 
2.43.0


From cc517b7534afc6f09943d737c6849d1c29a4501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:36 +0000
Subject: [PATCH 03/78] fix: look for water files beside a deck given by a bare
 file name

The base path already ends in a separator (or is empty when the deck is in the
working directory); the extra slash made the library read the files of '/'.
---
 source/Waves.cpp          |  2 +-
 source/Waves/WaveGrid.cpp | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index 1d7781f..ee63edb 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -361,7 +361,7 @@ Waves::setup(EnvCondRef env_in,
 	// NOTE: nodal settings should use storeWaterKin in objects
 	// now go through each applicable WaveKin option
 	if (wave_mode == waves::WAVES_SUM_COMPONENTS_NODE) {
-		const string WaveFilename = (string)folder + "/wave_frequencies.txt";
+		const string WaveFilename = (string)folder + "wave_frequencies.txt";
 		LOGMSG << "Reading waves spectrum frequencies from '" << WaveFilename
 		       << "'..." << endl;
 		auto waveSpectrum = spectrumFromFile(WaveFilename, _log);
diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 933a11b..0c48228 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -356,7 +356,7 @@ constructWaveGridSpectrumData(const std::string& folder,
                               moordyn::Log* _log)
 {
 
-	const string WaveFilename = folder + "/wave_frequencies.txt";
+	const string WaveFilename = folder + "wave_frequencies.txt";
 	LOGMSG << "Reading waves FFT from '" << WaveFilename << "'..." << endl;
 
 	// NOTE: need to decide what inputs/format to expect in file
@@ -391,7 +391,7 @@ constructWaveGridSpectrumData(const std::string& folder,
 	auto nt = static_cast<unsigned int>(2 * (evenFreqComps.size() - 1));
 
 	auto [px, py, pz] =
-	    rectilinearGridFromFile(folder + "/water_grid.txt", _log);
+	    rectilinearGridFromFile(folder + "water_grid.txt", _log);
 
 	auto waveGrid = make_unique<WaveGrid>(
 	    _log, px, py, pz, nt, env->waterKinOptions.dtWave);
@@ -414,7 +414,7 @@ constructWaveGridElevationData(const std::string& folder,
 
 	// load wave elevation time series from file (similar to what's done in
 	// GenerateWaveExtnFile.py, and was previously in misc2.cpp)
-	const string WaveFilename = folder + "/wave_elevation.txt";
+	const string WaveFilename = folder + "wave_elevation.txt";
 	LOGMSG << "Reading waves elevation from '" << WaveFilename << "'..."
 	       << endl;
 
@@ -529,7 +529,7 @@ constructWaveGridElevationData(const std::string& folder,
 	// make a grid for wave kinematics based on settings in
 	// water_grid.txt
 	auto [px, py, pz] =
-	    rectilinearGridFromFile(folder + "/water_grid.txt", _log);
+	    rectilinearGridFromFile(folder + "water_grid.txt", _log);
 
 	waveGrid = make_unique<WaveGrid>(_log, px, py, pz, nt, dtWave);
 	waveGrid->allocateKinematicArrays();
@@ -545,7 +545,7 @@ constructSteadyCurrentGrid(const std::string& folder,
                            moordyn::Log* _log)
 {
 
-	const string CurrentsFilename = folder + "/current_profile.txt";
+	const string CurrentsFilename = folder + "current_profile.txt";
 	LOGMSG << "Reading currents profile from '" << CurrentsFilename << "'..."
 	       << endl;
 
@@ -622,7 +622,7 @@ constructDynamicCurrentGrid(const std::string& folder,
                             moordyn::Log* _log)
 {
 
-	const string CurrentsFilename = folder + "/current_profile_dynamic.txt";
+	const string CurrentsFilename = folder + "current_profile_dynamic.txt";
 	LOGMSG << "Reading currents dynamic profile from '" << CurrentsFilename
 	       << "'..." << endl;
 
-- 
2.43.0


From fa8bf3379ba40c6d1fc9be4b521fc680224976ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:40 +0000
Subject: [PATCH 04/78] fix: report the seabed force of a line node without its
 bending force

The getter documented as the sea bed reaction added the bending stiffness
force, which has a getter of its own.
---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index 608a693..f446527 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -614,7 +614,7 @@ class Line final : public io::IO, public NatFreqCFL
 			       << ", which only has " << N + 1 << " nodes" << std::endl;
 			throw moordyn::invalid_value_error("Invalid node index");
 		}
-		return B[i] + Bs[i];
+		return B[i];
 	};
 
 	/** @brief Get the line curvature at a node position
-- 
2.43.0


From d93bba9518575a6d13ae729730777b1e65083a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:40 +0000
Subject: [PATCH 05/78] fix: isConstantEA() answered the opposite of its
 documentation

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index f446527..9b9dfd1 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -414,7 +414,7 @@ class Line final : public io::IO, public NatFreqCFL
 	 * @return true if the stiffness of the line is constant, false if a
 	 * non-linear stiffness has been set
 	 */
-	inline bool isConstantEA() const { return nEApoints > 0; }
+	inline bool isConstantEA() const { return nEApoints == 0; }
 
 	/** @brief Get the constant stiffness of the line
 	 *
-- 
2.43.0


From 88a06fd9d6874ac2fb767c4957316b904a9b35a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:40 +0000
Subject: [PATCH 06/78] fix: take the last node into account in the maximum
 line tension

---
 source/Line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 75b9f3a..9ba771a 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1836,7 +1836,7 @@ MoorDyn_GetLineMaxTen(MoorDynLine l, double* t)
 {
 	CHECK_LINE(l);
 	double t_max = 0.0;
-	for (unsigned int i = 0; i < ((moordyn::Line*)l)->getN(); i++) {
+	for (unsigned int i = 0; i <= ((moordyn::Line*)l)->getN(); i++) {
 		const double t_candidate = ((moordyn::Line*)l)->getNodeTen(i).norm();
 		if (t_candidate > t_max)
 			t_max = t_candidate;
-- 
2.43.0


From dcc28a25e12e2d7b22bc8cb43e2aa5e86379decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:40 +0000
Subject: [PATCH 07/78] fix: damping from a table had the wrong sign in
 compression, NaN at rest

The mirrored rate lost its sign before the division, so a line being shortened
was given a negative damping coefficient, and a null rate gave 0/0.
---
 source/Line.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 9ba771a..b3b9c56 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -98,6 +98,8 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 		return c;
 
 	real Xi = ld_stretched / l_unstretched; // stretching/compressing rate
+	if (Xi == 0.0)
+		return 0.0; // no rate, no damping force (and avoid 0/0)
 	real Yi = 0.0;
 
 	// find stress based on strain rate
@@ -107,13 +109,8 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 	} else {
 		// if no compressing data given, we'll flip-mirror so stretching and
 		// compressing are same
-		real Xsign = 1.0;
-		if (Xi < 0) {
-			Xsign = -1.0;
-			Xi = -Xi;
-		}
-		Yi = interp(dampXs, dampYs, Xi);
-		Yi *= Xsign;
+		const real Xsign = Xi < 0 ? -1.0 : 1.0;
+		Yi = Xsign * interp(dampXs, dampYs, Xsign * Xi);
 	}
 
 	// calculate equivalent damping coefficient (since that's what MoorDyn works
-- 
2.43.0


From 434aa76e5151164352f114686c4eca839b03ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:40 +0000
Subject: [PATCH 08/78] fix: avoid 0/0 from stiffness tables of an unstretched
 or straight line

---
 source/Line.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index b3b9c56..850e51b 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -66,8 +66,8 @@ Line::getNonlinearE(real l_stretched, real l_unstretched) const
 		return E;
 
 	real Xi = l_stretched / l_unstretched - 1.0; // strain rate based on inputs
-	if (Xi < 0.0) {
-		// if negative strain (compression), zero stress
+	if (Xi <= 0.0) {
+		// if not stretched, zero stress
 		return 0.0;
 	}
 
@@ -84,6 +84,8 @@ Line::getNonlinearEI(real curv) const
 		return EI;
 
 	real Xi = curv;
+	if (Xi == 0.0)
+		return 0.0; // straight, no bending moment (and avoid 0/0)
 	real Yi = interp(bstiffXs, bstiffYs, Xi);
 
 	// calculate equivalent bending stiffness (since that's what MoorDyn works
-- 
2.43.0


From f1f47e1ce5d245e2542f780eca61430a34b847aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:40 +0000
Subject: [PATCH 09/78] fix: submergence of a segment whose first node lies
 exactly on the surface

The first node was taken as the upper one, and the emerged segment as half wet
or worse.
---
 source/Line.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 850e51b..8a395c0 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -624,8 +624,9 @@ Line::calcSubSeg(unsigned int firstNodeIdx,
 		return 0.5; // Segment halfway submerged
 	} else {
 		// Segment partially submerged - figure out which node is above water
-		vec lowerEnd = firstNodeZ < 0.0 ? r[firstNodeIdx] : r[secondNodeIdx];
-		vec upperEnd = firstNodeZ < 0.0 ? r[secondNodeIdx] : r[firstNodeIdx];
+		const bool firstLower = firstNodeZ < secondNodeZ;
+		vec lowerEnd = firstLower ? r[firstNodeIdx] : r[secondNodeIdx];
+		vec upperEnd = firstLower ? r[secondNodeIdx] : r[firstNodeIdx];
 		lowerEnd.z() -= surface_height;
 		upperEnd.z() -= surface_height;
 
-- 
2.43.0


From cda6f8701efb40c80a70baf6cbd3d57df9303d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:31 +0000
Subject: [PATCH 10/78] fix: start free and pinned rods with the orientation of
 the deck

The initial rotation was built from the rod direction to the *coordinates* of
end B, so before the first step a rod (and the ends of its lines) pointed from
end A along the position vector of end B.
---
 source/Rod.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index d111f62..49f0690 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -150,13 +150,13 @@ Rod::setup(int number_in,
 	if (type == FREE) {
 		// For an independent rod, set the position right off the bat
 		r7.pos = endCoords.head<3>();
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>());
+		r7.quat = quaternion::Identity(); // q0 is the reference orientation
 		v6 = vec6::Zero();
 	} else if ((type == PINNED) || (type == CPLDPIN)) {
 		// for a pinned rod, just set the orientation (position will be set
 		// later by parent object) 
 		r7.pos = vec3::Zero(); 
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>()); // TODO: Check this is right
+		r7.quat = quaternion::Identity(); // q0 is the reference orientation
 		v6(Eigen::seqN(3, 3)) = vec::Zero();
 	}
 	// otherwise (for a fixed rod) the positions will be set by the parent body
-- 
2.43.0


From b743296aa8563834b4729125911d9717a7946779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:31 +0000
Subject: [PATCH 11/78] fix: keep rod interior nodes in step with the rod ends

They were only moved when the loads were computed, so after a step the
reported positions and velocities of the interior nodes, and the places where
external water kinematics are sampled, were those of an earlier state.
---
 source/Rod.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 49f0690..5f7eb33 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -559,6 +559,12 @@ Rod::setDependentStates()
 		r[N] = r[0] + rRel;
 		const vec w = v6.tail<3>();
 		rd[N] = rd[0] + w.cross(rRel);
+		// and the interior nodes, so they never lag behind the ends
+		for (unsigned int i = 1; i < N; i++) {
+			const real f = i / (real)N;
+			r[i] = r[0] + f * (r[N] - r[0]);
+			rd[i] = rd[0] + f * (rd[N] - rd[0]);
+		}
 	}
 
 	// pass end node kinematics to any attached lines (this is just like what a
-- 
2.43.0


From 9463dccfab856c3a3e7fcfb38ab4835c29ceea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:41 +0000
Subject: [PATCH 12/78] fix: no exception leaves MoorDyn_Init(),
 MoorDyn_Init_NoIC() or MoorDyn_Step()

Errors detected by the entities (e.g. an anchor below the seabed) and standard
library exceptions crossed the C interface and terminated the caller.
---
 source/Misc.hpp     |  5 +++++
 source/MoorDyn2.cpp | 36 +++++++++++++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index c106fb5..9801cb7 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -637,6 +637,11 @@ MAKE_EXCEPTION(unhandled_error)
 		msg = e.what();                                                        \
 	}                                                                          \
 	catch (moordyn::unhandled_error const& e)                                  \
+	{                                                                          \
+		err = MOORDYN_UNHANDLED_ERROR;                                         \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (std::exception const& e)                                            \
 	{                                                                          \
 		err = MOORDYN_UNHANDLED_ERROR;                                         \
 		msg = e.what();                                                        \
diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7e6a452..eef5b1e 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2401,14 +2401,34 @@ int DECLDIR
 MoorDyn_Init(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (!err_msg.empty()) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
 MoorDyn_Init_NoIC(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (!err_msg.empty()) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2420,7 +2440,17 @@ MoorDyn_Step(MoorDyn system,
              double* dt)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Step(x, xd, f, *t, *dt);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Step(x, xd, f, *t, *dt);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (!err_msg.empty()) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
-- 
2.43.0


From 205b057f00cf82c08eb026f8f727ac3c562eda64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:41 +0000
Subject: [PATCH 13/78] fix: do not abort the process when a NaN is
 interpolated

A diverged simulation is reported by an error code, not by an assertion.
---
 source/Util/Interp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/Util/Interp.hpp b/source/Util/Interp.hpp
index 2df9f92..d9c1310 100644
--- a/source/Util/Interp.hpp
+++ b/source/Util/Interp.hpp
@@ -44,8 +44,7 @@ interp_factor(const std::vector<T>& xp, unsigned int i0, const T& x, T& f)
 		}
 	}
 
-	// Just to avoid the compiler warnings. This point is actually never reached
-	assert(false);
+	// This point is just reached when x is not a number
 	f = 1.0;
 	return static_cast<unsigned int>(xp.size() - 1);
 }
-- 
2.43.0


From cab5422bd24afe90f0bc58ce1f1f33646cd25454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 14/78] fix: initialise the centre of gravity of fixed bodies

It was read uninitialised to build their mass matrix.
---
 source/Body.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 0a68ced..1b07962 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -83,6 +83,7 @@ Body::setup(int number_in,
 	} else if (type == FIXED){ // fixed bodies have no need for these variables other than position...
 		bodyM = 0.0;
 		bodyV = 0.0;
+		body_rCG = vec::Zero();
 		bodyI = vec::Zero();
 		bodyCdA = vec6::Zero();
 		bodyCa = vec6::Zero();
-- 
2.43.0


From f441584b0863a6b8bec529007ad207c73c5d8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 15/78] fix: compute the loads on fixed points, rods and bodies

Nothing evaluated them, so the force on an anchor or on a fixed body was
reported as zero, or as whatever the memory held.
---
 source/Time.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index bf0ef08..752a1eb 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -140,10 +140,12 @@ TimeSchemeBase<NSTATE, NDERIV>::CalcStateDeriv(unsigned int substep)
 		obj->doRHS();
 	}
 	for (auto obj : bodies) {
-		if (obj->type != Body::COUPLED)
+		if ((obj->type != Body::COUPLED) && (obj->type != Body::FIXED))
 			continue;
 		obj->doRHS();
 	}
+	// the loads on the fixed points and rods, which belong to the ground
+	ground->doRHS();
 
 	// call ground body to update all the fixed things
 	ground->setDependentStates(); // NOTE: (not likely needed)
-- 
2.43.0


From ef0f0662402db35e0023c9a1f6b4e435437a841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:21 +0000
Subject: [PATCH 16/78] fix: copy the six rows of 6x6 matrices

MoorDyn_GetRodM() and MoorDyn_GetBodyM() left the last three rows of the caller's
array untouched.
---
 source/Misc.hpp | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index 9801cb7..635bac6 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -422,24 +422,9 @@ template<typename T>
 inline void
 mat62array(const mat6& v, T a[6][6])
 {
-	a[0][0] = (T)v(0, 0);
-	a[0][1] = (T)v(0, 1);
-	a[0][2] = (T)v(0, 2);
-	a[0][3] = (T)v(0, 3);
-	a[0][4] = (T)v(0, 4);
-	a[0][5] = (T)v(0, 5);
-	a[1][0] = (T)v(1, 0);
-	a[1][1] = (T)v(1, 1);
-	a[1][2] = (T)v(1, 2);
-	a[1][3] = (T)v(1, 3);
-	a[1][4] = (T)v(1, 4);
-	a[1][5] = (T)v(1, 5);
-	a[2][0] = (T)v(2, 0);
-	a[2][1] = (T)v(2, 1);
-	a[2][2] = (T)v(2, 2);
-	a[2][3] = (T)v(2, 3);
-	a[2][4] = (T)v(2, 4);
-	a[2][5] = (T)v(2, 5);
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			a[i][j] = (T)v(i, j);
 }
 
 /** @brief Convert a C-ish array to a matrix
@@ -450,24 +435,9 @@ template<typename T>
 inline void
 array2mat6(const T a[6][6], mat6& v)
 {
-	v(0, 0) = (moordyn::real)a[0][0];
-	v(0, 1) = (moordyn::real)a[0][1];
-	v(0, 2) = (moordyn::real)a[0][2];
-	v(0, 3) = (moordyn::real)a[0][3];
-	v(0, 4) = (moordyn::real)a[0][4];
-	v(0, 5) = (moordyn::real)a[0][5];
-	v(1, 0) = (moordyn::real)a[1][0];
-	v(1, 1) = (moordyn::real)a[1][1];
-	v(1, 2) = (moordyn::real)a[1][2];
-	v(1, 3) = (moordyn::real)a[1][3];
-	v(1, 4) = (moordyn::real)a[1][4];
-	v(1, 5) = (moordyn::real)a[1][5];
-	v(2, 0) = (moordyn::real)a[2][0];
-	v(2, 1) = (moordyn::real)a[2][1];
-	v(2, 2) = (moordyn::real)a[2][2];
-	v(2, 3) = (moordyn::real)a[2][3];
-	v(2, 4) = (moordyn::real)a[2][4];
-	v(2, 5) = (moordyn::real)a[2][5];
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			v(i, j) = (moordyn::real)a[i][j];
 }
 
 /** Slice a C++ vector
-- 
2.43.0


From 0f2761a1ef4428c4adae2c7101594fadafe629f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:45 +0000
Subject: [PATCH 17/78] fix: submergence of rods whose end A is the upper one

The submerged share of the nodes of a partially submerged rod standing on
its end B was computed as fully submerged (the distance h0 is negative
there), and a rod with an end exactly on the surface lost all its buoyancy.
The waterplane moment is also independent of which end is up.
---
 source/Rod.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 5f7eb33..6bbca6c 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -926,7 +926,7 @@ Rod::doRHS()
 	real zeta_i = zeta[N];
 
 	// get approximate location of waterline crossing along Rod axis (note: negative h0 indicates end A is above end B, and measures -distance from end A to waterline crossing)
-	if ((r[0][2] < zeta_i) && (r[N][2] < zeta_i))        // fully submerged case  
+	if ((r[0][2] <= zeta_i) && (r[N][2] <= zeta_i))      // fully submerged case  
 		h0 = UnstrLen;                                       
 	else if ((r[0][2] < zeta_i) && (r[N][2] > zeta_i))    // check if it's crossing the water plane (should also add some limits to avoid near-horizontals at some point)
 		h0 = (zeta_i - r[0][2])/q[2];                       // distance along rod centerline from end A to the waterplane
@@ -965,10 +965,10 @@ Rod::doRHS()
 		// get scalar for submerged portion
 
 		if (h0 < 0.0) { // Upside down case
-			if (Lsum + dL >= h0) // if fully submerged
+			if (Lsum >= -h0) // if fully submerged
 				VOF0 = 1.0;
-			else if (Lsum > h0) // if partially below waterline
-				VOF0 = (h0 - Lsum) / dL;
+			else if (Lsum + dL > -h0) // if partially below waterline
+				VOF0 = (Lsum + dL + h0) / dL;
 			else // must be out of water
 				VOF0 = 0.0;
 		}
@@ -1192,7 +1192,8 @@ Rod::doRHS()
 	} // i - done looping through nodes
 
 	// ----- add waterplane moment of inertia moment if applicable -----
-	if ((r[0][2] < zeta_i) && (r[N][2] > zeta_i)) {
+	if (((r[0][2] < zeta_i) && (r[N][2] > zeta_i)) ||
+	    ((r[N][2] < zeta_i) && (r[0][2] > zeta_i))) {
 		// the water plane is crossing the rod
 		real Mtemp = 1.0 / 16.0 * pi * d * d * d * d * env->rho_w * env->g *
 		             sinPhi * cosPhi; // Matches fortran
-- 
2.43.0


From 46a8641ea913d07243bd9264f8154c74090e239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:26 +0000
Subject: [PATCH 18/78] fix: read the surge drag area of bodies given 3 or 6
 drag areas

---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index eef5b1e..ba730aa 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1864,12 +1864,12 @@ moordyn::MoorDyn::readBody(string inputText)
 			CdA[i + 3] = CdA[3];
 		}
 	} else if (entries_CdA.size() == 3) {
-		for (unsigned int i = 1; i < 3; i++) {
+		for (unsigned int i = 0; i < 3; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 			CdA[i + 3] = CdA[i];
 		}
 	} else if (entries_CdA.size() == 6) {
-		for (unsigned int i = 1; i < 6; i++) {
+		for (unsigned int i = 0; i < 6; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 		}
 	} else {
-- 
2.43.0


From c69bfe7d0b610fa60ae40b2faffac23767c171c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:31 +0000
Subject: [PATCH 19/78] fix: pinned coupled bodies take the 6 entries
 NCoupledDOF() advertises

The motion and force arrays were read and written 3 entries per pinned
body while NCoupledDOF() (and the documentation) say 6, so every coupled
object declared after one got the wrong motion and returned its forces
in the wrong place.
---
 source/MoorDyn2.cpp | 42 ++++++++++++------------------------------
 source/MoorDyn2.hpp | 10 +++-------
 2 files changed, 15 insertions(+), 37 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index ba730aa..6dedb58 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -434,19 +434,11 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 
 		// BUG: These conversions will not be needed in the future
 		vec6 r, rd;
-		if (BodyList[l]->type == Body::COUPLED){
-			moordyn::array2vec6(x + ix, r);
-			moordyn::array2vec6(xd + ix, rd);
-			ix += 6;
-		} else {
-			// for pinned body 3 entries will be taken
-			vec3 r3, rd3, rdd3;
-			moordyn::array2vec(x + ix, r3);
-			r(Eigen::seqN(0, 3)) = r3;
-			moordyn::array2vec(xd + ix, rd3);
-			rd(Eigen::seqN(0, 3)) = rd3;
-			ix += 3;
-		}
+		// 6 entries are taken, also for pinned bodies (which ignore the
+		// rotations), see NCoupledDOF()
+		moordyn::array2vec6(x + ix, r);
+		moordyn::array2vec6(xd + ix, rd);
+		ix += 6;
 		BodyList[l]->initializeUnfreeBody(r, rd, vec6::Zero());
 	}
 
@@ -640,23 +632,13 @@ moordyn::MoorDyn::Step(const double* x,
 		// BUG: These conversions will not be needed in the future
 		vec6 r, rd, rdd;
 		const vec6 rd_b = BodyList[l]->getUnfreeVel();
-		if (BodyList[l]->type == Body::COUPLED){
-			moordyn::array2vec6(x + ix, r);
-			moordyn::array2vec6(xd + ix, rd);
-			// determine acceleration 
-			rdd = (rd - rd_b) / dt;
-			ix += 6;
-		} else {
-			// for pinned body 3 entries will be taken
-			vec3 r3, rd3, rdd3;
-			moordyn::array2vec(x + ix, r3);
-			r(Eigen::seqN(0, 3)) = r3;
-			moordyn::array2vec(xd + ix, rd3);
-			rd(Eigen::seqN(0, 3)) = rd3;
-			// determine acceleration 
-		    rdd(Eigen::seqN(0, 3)) = (rd3 - rd_b.head<3>()) / dt;
-			ix += 3;
-		}
+		// 6 entries are taken, also for pinned bodies (which ignore the
+		// rotations), see NCoupledDOF()
+		moordyn::array2vec6(x + ix, r);
+		moordyn::array2vec6(xd + ix, rd);
+		// determine acceleration
+		rdd = (rd - rd_b) / dt;
+		ix += 6;
 		// acceleration required for inertial terms
 		BodyList[l]->initiateStep(r, rd, rdd);
 	}
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 464c987..e44752c 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -504,13 +504,9 @@ class MoorDyn final : public io::IO
 		for (auto l : CpldBodyIs) {
 			// BUG: These conversions will not be needed in the future
 			const vec6 f_i = BodyList[l]->getFnet();
-			if (BodyList[l]->type == Body::COUPLED) {
-				moordyn::vec62array(f_i, f + ix);
-				ix += 6; // for coupled bodies 6 entries will be taken
-			} else {
-				moordyn::vec2array(f_i(Eigen::seqN(0, 3)), f + ix);
-				ix += 3; // for pinned bodies 3 entries will be taken
-			}
+			// 6 entries are written, also for pinned bodies (null moments)
+			moordyn::vec62array(f_i, f + ix);
+			ix += 6;
 		}
 		for (auto l : CpldRodIs) {
 			const vec6 f_i = RodList[l]->getFnet();
-- 
2.43.0


From d0c5a5bb94db1f827a4089a6df36ddbb149d503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:39 +0000
Subject: [PATCH 20/78] fix: initialise every member the objects may report or
 save

Members of bodies, rods, points and lines that depend on the type of the
object were left uninitialised, and then serialised or read.
---
 source/Body.cpp  |  7 +++++++
 source/Line.cpp  |  4 ++++
 source/Point.cpp |  2 ++
 source/Rod.cpp   | 14 +++++++++++++-
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index 1b07962..7b1328d 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -126,6 +126,13 @@ Body::setup(int number_in,
 	r7.quat = Euler2Quat(body_r6.tail<3>());
 
 	v6 = vec6::Zero();
+	a6 = vec6::Zero();
+	dPos = XYZQuat::Zero();
+	r_ves = body_r6;
+	rd_ves = vec6::Zero();
+	rdd_ves = vec6::Zero();
+	F6net = vec6::Zero();
+	M = M0;
 
 	// calculate orientation matrix based on latest angles
 	OrMat = r7.quat.normalized().toRotationMatrix();
diff --git a/source/Line.cpp b/source/Line.cpp
index 8a395c0..82c77d7 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -135,6 +135,10 @@ Line::setup(int number_in,
 	// during initializeLine
 	UnstrLen = UnstrLen_in;
 	UnstrLend = 0.0;
+	UnstrLen0 = UnstrLen;
+	c = 0.0;
+	t = 0.0;
+	endTypeA = endTypeB = PINNED;
 	// assign number of nodes to line
 	N = NumSegs;
 
diff --git a/source/Point.cpp b/source/Point.cpp
index 1016252..c68a92d 100644
--- a/source/Point.cpp
+++ b/source/Point.cpp
@@ -92,6 +92,8 @@ Point::setup(int number_in,
 	// Start also the variables that will be serialized, just to avoid floating
 	// point exceptions
 	Fnet = vec::Zero();
+	acc = vec::Zero();
+	t = 0.0;
 	M = pointM * mat::Identity();
 
 	LOGDBG << "   Set up Point " << number << ", type '" << TypeName(type)
diff --git a/source/Rod.cpp b/source/Rod.cpp
index 6bbca6c..de15e10 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -146,6 +146,18 @@ Rod::setup(int number_in,
 	// Initialize the accelerations to avoid border cases, like Pinned rods
 	// reading the linear acceleration without setting it
 	acc6 = vec6::Zero();
+	vel7 = XYZQuat::Zero();
+	r7 = XYZQuat::Zero();
+	v6 = vec6::Zero();
+	r_ves = vec6::Zero();
+	rd_ves = vec6::Zero();
+	rdd_ves = vec6::Zero();
+	FextA = FextB = Mext = vec::Zero();
+	F6net = vec6::Zero();
+	M6net = mat6::Zero();
+	h0 = 0.0;
+	t = 0.0;
+	openedoutfile = 0;
 	// set Rod positions if applicable
 	if (type == FREE) {
 		// For an independent rod, set the position right off the bat
@@ -168,7 +180,7 @@ Rod::setup(int number_in,
 	const vec org = endCoords(Eigen::seqN(0, 3));
 	const vec dst = endCoords(Eigen::seqN(3, 3));
 	for (unsigned int i = 0; i <= N; i++) {
-		const real f = i / (real)N;
+		const real f = N ? i / (real)N : 0.0;
 		r[i] = org + f * (dst - org);
 		rd[i] = vec::Zero();
 	}
-- 
2.43.0


From c7b4c1fb6fa82506827918aca1069366a87c5d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:12 +0000
Subject: [PATCH 21/78] fix: leave the coupled objects where the caller put
 them after the ICs

---
 source/MoorDyn2.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 6dedb58..f9d4e1e 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -527,6 +527,19 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 			err = icStationary();
 		if (err != MOORDYN_SUCCESS)
 			return err;
+		// The ICs generation moves the coupled objects with the passed
+		// velocities, so put them back at the passed positions
+		for (auto l : CpldBodyIs) {
+			BodyList[l]->updateFairlead(0.0);
+			BodyList[l]->setDependentStates();
+		}
+		for (auto l : CpldRodIs)
+			RodList[l]->updateFairlead(0.0);
+		for (auto l : CpldPointIs)
+			PointList[l]->updateFairlead(0.0);
+		// including the rods pinned to those bodies
+		for (auto obj : RodList)
+			obj->setDependentStates();
 	} else {
 		_t_integrator->Init();
 	}
-- 
2.43.0


From bfe226099d45785080a03a960f62b93a1d011d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:12 +0000
Subject: [PATCH 22/78] fix: analyse the convergence of the dynamic ICs over
 dtIC

dtIC was divided twice by the number of samples, so the convergence was
assessed over a tenth of the documented period.
---
 source/MoorDyn2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index f9d4e1e..5d30275 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -222,7 +222,6 @@ moordyn::MoorDyn::icLegacy()
 	real best_score_t = 0.0;
 	unsigned int best_score_line = 0;
 
-	ICdt = ICdt / (convergence_iters+1);
 	while ((ICTmax - t) > (std::numeric_limits<real>::min)()) {
 		// Integrate one ICD timestep (ICdt)
 		real t_target = ICdt;
-- 
2.43.0


From 8278fd7405786d2c13863a348c10fc5cf41e9b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:28 +0000
Subject: [PATCH 23/78] fix: subtract the states of rods and bodies instead of
 adding them

---
 source/State.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index ea42afb..8d4f209 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -115,8 +115,8 @@ StateVar<XYZQuat, vec6>
 StateVar<XYZQuat, vec6>::operator-(const StateVar<XYZQuat, vec6>& rhs)
 {
 	StateVar<XYZQuat, vec6> out;
-	out.pos = pos + rhs.pos;
-	out.vel = vel + rhs.vel;
+	out.pos = pos - rhs.pos;
+	out.vel = vel - rhs.vel;
 	return out;
 }
 
-- 
2.43.0


From 6e71d456b9d70c830b98afdff91bd743d98b03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:28 +0000
Subject: [PATCH 24/78] fix: advance the time just dt on each Wilson step

---
 source/Time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index 752a1eb..b7fc61e 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -796,7 +796,7 @@ ImplicitWilsonScheme::Step(real& dt)
 	}
 
 	// Apply
-	t -= (1.f - _theta) * dt;
+	t += (1.f - _theta) * dt;
 	r[1] = r[0] + rd[0].Wilson(rd[1], dt, tdt) * dt;
 	r[0] = r[1];
 	rd[0] = rd[1];
-- 
2.43.0


From 69fba46f833c77c7cc3092edcedc94454146dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:31 +0000
Subject: [PATCH 25/78] fix: keep the orientation of rods and bodies on the
 Newmark and Wilson schemes

---
 source/State.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 8d4f209..69bade2 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -476,7 +476,10 @@ StateVarDeriv<XYZQuat, vec6>::Newmark(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const vec6 acc_gamma = (1 - gamma) * acc + gamma * visitor.acc;
 	const vec6 acc_beta = (0.5 - beta) * acc + beta * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(dt * acc_beta);
+	ret.vel.pos = vel.pos + dt * acc_beta.head<3>();
+	// The rate of change of the quaternion is not an angular velocity, so it
+	// cannot be extrapolated from the angular acceleration
+	ret.vel.quat = 0.5 * (vel.quat.coeffs() + visitor.vel.quat.coeffs());
 	ret.acc = acc_gamma;
 	return ret;
 }
@@ -535,8 +538,13 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(0.5 * dt * (
-		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc));
+	ret.vel.pos = vel.pos + 0.5 * dt * (
+		(1 - 1.0 / 3.0 * f) * acc.head<3>() +
+		1.0 / 3.0 * f * visitor.acc.head<3>());
+	// The rate of change of the quaternion is not an angular velocity, so it
+	// cannot be extrapolated from the angular acceleration
+	ret.vel.quat = (1 - 0.5 * f) * vel.quat.coeffs() +
+		0.5 * f * visitor.vel.quat.coeffs();
 	return ret;
 }
 
-- 
2.43.0


From 0eef1b07ea9e9729b6032bbaecfe1afa652fc6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:31 +0000
Subject: [PATCH 26/78] fix: null rate of change of the orientation of free
 zero-length rods

---
 source/Rod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index de15e10..566e795 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -667,7 +667,7 @@ Rod::getStateDeriv()
 
 			// dxdt = V   (velocities)
 			vel7.pos = v6.head<3>();
-			vel7.quat = quaternion::Identity();
+			vel7.quat = quaternion(0.0, 0.0, 0.0, 0.0);
 
 			// dVdt = a   (accelerations)
 			acc6(Eigen::seqN(0, 3)) = acc;
-- 
2.43.0


From cbd5eae82bedeb8c83daff10c173d646afa42dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:03 +0000
Subject: [PATCH 27/78] fix: currents out of their time range take the closest
 value

---
 source/Waves.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index ee63edb..066a8c5 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -215,12 +215,12 @@ CurrentGrid::getCurrentKin(const vec3& pos,
 	unsigned int it = 0;
 	real ft = 0.0;
 	if (nt > 1) {
-		real quot = time / dtWave;
-		it = floor(quot);
+		// Out of the time range the closest value is used
+		const real quot =
+		    (std::min)((std::max)(time / dtWave, (real)0.0), (real)(nt - 1));
+		it = (std::min)(static_cast<unsigned int>(floor(quot)), nt - 2);
 		ft = quot - it;
 		it++; // We use the upper bound
-		while (it > nt - 1)
-			it -= nt;
 	}
 
 	// real stretched_z = 0.0;
-- 
2.43.0


From f2c25e07dd4819121e5553dada053b231389dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:03 +0000
Subject: [PATCH 28/78] fix: read the first data row of the 4D currents file

---
 source/Waves/WaveGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 0c48228..47f4bd7 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -827,7 +827,7 @@ construct4DCurrentGrid(const std::string& folder,
 	}
 
 	// Read values into 4D array
-	for (int i = 6; i < (int)lines.size(); i++) {
+	for (int i = 5; i < (int)lines.size(); i++) {
 		vector<string> entry = moordyn::str::split(lines[i]);
 
 		// Need to get indices (don't match coord values)
-- 
2.43.0


From 4c599b274d1dbbd6bcbee57799a9454db476463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:29 +0000
Subject: [PATCH 29/78] fix: match the coordinates of the 4D currents by value

---
 source/Waves/WaveGrid.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 47f4bd7..aba9143 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -779,33 +779,33 @@ construct4DCurrentGrid(const std::string& folder,
 	// Need to keep track of
 
 	// And a map to keep track of coord->idx mapping...
-	map<string, unsigned int> XMap;
-	map<string, unsigned int> YMap;
-	map<string, unsigned int> ZMap;
-	map<string, unsigned int> TMap;
+	map<real, unsigned int> XMap;
+	map<real, unsigned int> YMap;
+	map<real, unsigned int> ZMap;
+	map<real, unsigned int> TMap;
 
 	auto entry = moordyn::str::split(lines[1]);
 	for (unsigned int i = 0; i < nxCurGrid; i++) {
 		UProfileX.push_back(stod(entry[i]));
-		XMap[entry[i]] = i;
+		XMap[UProfileX[i]] = i;
 	}
 
 	entry = moordyn::str::split(lines[2]);
 	for (unsigned int i = 0; i < nyCurGrid; i++) {
 		UProfileY.push_back(stod(entry[i]));
-		YMap[entry[i]] = i;
+		YMap[UProfileY[i]] = i;
 	}
 
 	entry = moordyn::str::split(lines[3]);
 	for (unsigned int i = 0; i < nzCurGrid; i++) {
 		UProfileZ.push_back(stod(entry[i]));
-		ZMap[entry[i]] = i;
+		ZMap[UProfileZ[i]] = i;
 	}
 
 	entry = moordyn::str::split(lines[4]);
 	for (unsigned int i = 0; i < ntCurGrid; i++) {
 		UProfileT.push_back(stod(entry[i]));
-		TMap[entry[i]] = i;
+		TMap[UProfileT[i]] = i;
 	}
 
 	// Need 3 4D grids - one for each component of current velocity:
@@ -831,10 +831,21 @@ construct4DCurrentGrid(const std::string& folder,
 		vector<string> entry = moordyn::str::split(lines[i]);
 
 		// Need to get indices (don't match coord values)
-		auto ix = XMap[entry[0]];
-		auto iy = YMap[entry[1]];
-		auto iz = ZMap[entry[2]];
-		auto it = TMap[entry[3]];
+		auto index = [&](const map<real, unsigned int>& coords,
+		                 const string& coord) {
+			const auto found = coords.find(stod(coord));
+			if (found == coords.end()) {
+				LOGERR << "The file '" << CurrentsFilename
+				       << "' has data at '" << coord
+				       << "', which is not a coordinate of the grid" << endl;
+				throw moordyn::input_file_error("Invalid file format");
+			}
+			return found->second;
+		};
+		auto ix = index(XMap, entry[0]);
+		auto iy = index(YMap, entry[1]);
+		auto iz = index(ZMap, entry[2]);
+		auto it = index(TMap, entry[3]);
 
 		// Need to set velocity components in three separate vectors
 		// at the coordinate above
-- 
2.43.0


From 655877c325567dab1f3694511e768869e78e7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:29 +0000
Subject: [PATCH 30/78] fix: accept dynamic and 4D currents with a single time
 instant

---
 source/Waves/WaveGrid.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index aba9143..68a007a 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -717,10 +717,12 @@ constructDynamicCurrentGrid(const std::string& folder,
 		unsigned iti = 1;
 		for (unsigned int it = 0; it < currentGrid->nt; it++) {
 			iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+			// There is no lower bound when there is just one time instant
+			const unsigned int itl = iti ? iti - 1 : 0;
 
-			auto x = lerp(UProfileUx[iz][iti - 1], UProfileUx[iz][iti], ft);
-			auto y = lerp(UProfileUy[iz][iti - 1], UProfileUy[iz][iti], ft);
-			auto z = lerp(UProfileUz[iz][iti - 1], UProfileUz[iz][iti], ft);
+			auto x = lerp(UProfileUx[iz][itl], UProfileUx[iz][iti], ft);
+			auto y = lerp(UProfileUy[iz][itl], UProfileUy[iz][iti], ft);
+			auto z = lerp(UProfileUz[iz][itl], UProfileUz[iz][iti], ft);
 			currentGrid->CurrentVel()[0][0][iz][it] = vec3(x, y, z);
 			// TODO: approximate fluid accelerations using finite
 			//       differences
@@ -876,14 +878,16 @@ construct4DCurrentGrid(const std::string& folder,
 				unsigned iti = 1;
 				for (unsigned int it = 0; it < currentGrid->nt; it++) {
 					iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+					// There is no lower bound when there is just one time
+					const unsigned int itl = iti ? iti - 1 : 0;
 
-					auto x = lerp(currentGridUx[ix][iy][iz][iti - 1],
+					auto x = lerp(currentGridUx[ix][iy][iz][itl],
 					              currentGridUx[ix][iy][iz][iti],
 					              ft);
-					auto y = lerp(currentGridUy[ix][iy][iz][iti - 1],
+					auto y = lerp(currentGridUy[ix][iy][iz][itl],
 					              currentGridUy[ix][iy][iz][iti],
 					              ft);
-					auto z = lerp(currentGridUz[ix][iy][iz][iti - 1],
+					auto z = lerp(currentGridUz[ix][iy][iz][itl],
 					              currentGridUz[ix][iy][iz][iti],
 					              ft);
 					currentGrid->CurrentVel()[ix][iy][iz][it] = vec3(x, y, z);
-- 
2.43.0


From b65f89311244d1a94d83c70257bd48fae40e4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:37 +0000
Subject: [PATCH 31/78] fix: keep the last time instant of dynamic and 4D
 currents

---
 source/Waves/WaveGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 68a007a..ee6d007 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -705,7 +705,7 @@ constructDynamicCurrentGrid(const std::string& folder,
 	for (unsigned int i = 1; i < ntin; i++)
 		if (UProfileT[i] - UProfileT[i - 1] < dtWave)
 			dtWave = UProfileT[i] - UProfileT[i - 1];
-	unsigned int nt = floor(UProfileT[ntin - 1] / dtWave) + 1;
+	unsigned int nt = ceil(UProfileT[ntin - 1] / dtWave - 1e-6) + 1;
 
 	auto currentGrid =
 	    make_unique<CurrentGrid>(_log, px, py, UProfileZ, nt, dtWave);
@@ -864,7 +864,7 @@ construct4DCurrentGrid(const std::string& folder,
 			dtWave = UProfileT[i] - UProfileT[i - 1];
 
 	// set number of timesteps
-	unsigned int nt = floor(UProfileT[ntCurGrid - 1] / dtWave) + 1;
+	unsigned int nt = ceil(UProfileT[ntCurGrid - 1] / dtWave - 1e-6) + 1;
 
 	auto currentGrid = make_unique<CurrentGrid>(
 	    _log, UProfileX, UProfileY, UProfileZ, nt, dtWave);
-- 
2.43.0


From f4ab9843f48e9f793e14be7e833928d9519c6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 32/78] fix: no exception leaves the external wave kinematics
 functions

---
 source/MoorDyn2.cpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 5d30275..4e81ea7 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2502,15 +2502,23 @@ MoorDyn_ExternalWaveKinGetCoordinates(MoorDyn system, double* r)
 {
 	CHECK_SYSTEM(system);
 
-	auto r_list = ((moordyn::MoorDyn*)system)->ExternalWaveKinGetPoints();
-	for (unsigned int i = 0; i < r_list.size(); i++) {
-		const auto r_i = r_list[i];
-		for (unsigned int j = 0; j < 3; j++) {
-			r[3 * i + j] = r_i[j];
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		auto r_list = ((moordyn::MoorDyn*)system)->ExternalWaveKinGetPoints();
+		for (unsigned int i = 0; i < r_list.size(); i++) {
+			const auto r_i = r_list[i];
+			for (unsigned int j = 0; j < 3; j++) {
+				r[3 * i + j] = r_i[j];
+			}
 		}
 	}
-
-	return MOORDYN_SUCCESS;
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2536,8 +2544,17 @@ MoorDyn_ExternalWaveKinSet(MoorDyn system,
 		ud.push_back(moordyn::vec(Ud[3 * i], Ud[3 * i + 1], Ud[3 * i + 2]));
 	}
 
-	((moordyn::MoorDyn*)system)->ExternalWaveKinSet(u, ud, t);
-	return MOORDYN_SUCCESS;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		((moordyn::MoorDyn*)system)->ExternalWaveKinSet(u, ud, t);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
-- 
2.43.0


From fa5b07abf011f0c01e29c76f9ecc5923bacd436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:32 +0000
Subject: [PATCH 33/78] fix: save the accelerations and the values the caller
 can change at run time

---
 source/Body.cpp |  6 ++++++
 source/Line.cpp | 16 ++++++++++++++++
 source/Rod.cpp  |  6 ++++++
 3 files changed, 28 insertions(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 7b1328d..a9e4116 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -675,6 +675,10 @@ Body::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd_ves);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(rdd_ves);
+	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(a6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(F6net);
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(M);
@@ -693,6 +697,8 @@ Body::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, v6);
 	ptr = io::IO::Deserialize(ptr, r_ves);
 	ptr = io::IO::Deserialize(ptr, rd_ves);
+	ptr = io::IO::Deserialize(ptr, rdd_ves);
+	ptr = io::IO::Deserialize(ptr, a6);
 	ptr = io::IO::Deserialize(ptr, F6net);
 	ptr = io::IO::Deserialize(ptr, M);
 	ptr = io::IO::Deserialize(ptr, OrMat);
diff --git a/source/Line.cpp b/source/Line.cpp
index 82c77d7..a3def44 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1420,6 +1420,14 @@ Line::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(F);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	// Values that can be modified along the simulation
+	data.push_back(io::IO::Serialize(UnstrLen));
+	data.push_back(io::IO::Serialize(UnstrLen0));
+	data.push_back(io::IO::Serialize(UnstrLend));
+	data.push_back(io::IO::Serialize(E));
+	data.push_back(io::IO::Serialize((uint64_t)isPb));
+	subdata = io::IO::Serialize(pin);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1450,6 +1458,14 @@ Line::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, B);
 	ptr = io::IO::Deserialize(ptr, Fnet);
 	ptr = io::IO::Deserialize(ptr, F);
+	ptr = io::IO::Deserialize(ptr, UnstrLen);
+	ptr = io::IO::Deserialize(ptr, UnstrLen0);
+	ptr = io::IO::Deserialize(ptr, UnstrLend);
+	ptr = io::IO::Deserialize(ptr, E);
+	uint64_t pb;
+	ptr = io::IO::Deserialize(ptr, pb);
+	isPb = pb != 0;
+	ptr = io::IO::Deserialize(ptr, pin);
 
 	return ptr;
 }
diff --git a/source/Rod.cpp b/source/Rod.cpp
index 566e795..e379b5e 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -1486,6 +1486,10 @@ Rod::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd_ves);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(rdd_ves);
+	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(acc6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1521,6 +1525,8 @@ Rod::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, h0);
 	ptr = io::IO::Deserialize(ptr, r_ves);
 	ptr = io::IO::Deserialize(ptr, rd_ves);
+	ptr = io::IO::Deserialize(ptr, rdd_ves);
+	ptr = io::IO::Deserialize(ptr, acc6);
 
 	return ptr;
 }
-- 
2.43.0


From 3fbe4949b79d16bfeaf8ef8349b5a87bb6fbf2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:54 +0000
Subject: [PATCH 34/78] fix: save the counters of the schemes with local time
 steps

---
 source/Time.cpp |  2 ++
 source/Time.hpp | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index b7fc61e..ceb2202 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -289,6 +289,8 @@ real
 LocalTimeSchemeBase<NSTATE, NDERIV>::ComputeDt()
 {
 	this->LOGMSG << this->name << ":" << endl;
+	_dt0 = deltat();
+	_dt = deltat();
 	real dt = (std::numeric_limits<real>::max)();
 	for (auto obj : this->lines)
 		dt = (std::min)(dt, obj->cfl2dt(this->cfl));
diff --git a/source/Time.hpp b/source/Time.hpp
index 58c5f0c..e0e8e62 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -890,6 +890,34 @@ class LocalTimeSchemeBase : public TimeSchemeBase<NSTATE, NDERIV>
 		ComputeDt();
 	}
 
+	/** @brief Produce the packed data to be saved
+	 *
+	 * The counters of integrated time of each instance are appended
+	 * @return The packed data
+	 */
+	virtual std::vector<uint64_t> Serialize(void)
+	{
+		std::vector<uint64_t> data =
+		    TimeSchemeBase<NSTATE, NDERIV>::Serialize();
+		for (auto list : { &_dt.lines, &_dt.points, &_dt.rods, &_dt.bodies })
+			for (auto v : *list)
+				data.push_back(io::IO::Serialize(v));
+		return data;
+	}
+
+	/** @brief Unpack the data to restore the Serialized information
+	 * @param data The packed data
+	 * @return A pointer to the end of the file, for debugging purposes
+	 */
+	virtual uint64_t* Deserialize(const uint64_t* data)
+	{
+		uint64_t* ptr = TimeSchemeBase<NSTATE, NDERIV>::Deserialize(data);
+		for (auto list : { &_dt.lines, &_dt.points, &_dt.rods, &_dt.bodies })
+			for (auto& v : *list)
+				ptr = io::IO::Deserialize(ptr, v);
+		return ptr;
+	}
+
   protected:
 	/** @brief Costructor
 	 * @param log Logging handler
@@ -1081,7 +1109,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual std::vector<uint64_t> Serialize(void)
 	{
-		std::vector<uint64_t> data = TimeSchemeBase::Serialize();
+		std::vector<uint64_t> data = LocalTimeSchemeBase::Serialize();
 		// We append the number of available steps
 		data.push_back(io::IO::Serialize((uint64_t)n_steps));
 
@@ -1097,7 +1125,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual uint64_t* Deserialize(const uint64_t* data)
 	{
-		uint64_t* ptr = TimeSchemeBase::Deserialize(data);
+		uint64_t* ptr = LocalTimeSchemeBase::Deserialize(data);
 		uint64_t n;
 		ptr = io::IO::Deserialize(ptr, n);
 		n_steps = n;
-- 
2.43.0


From 67a4489e1cd71c5db097500dd455678cd188cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:03 +0000
Subject: [PATCH 35/78] fix: save infinities, NaNs and subnormal numbers

---
 source/IO.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index 895b5c1..2860f15 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -30,8 +30,10 @@
 
 #include "IO.hpp"
 #include <climits>
+#include <cstring>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <stdlib.h>
 
 namespace moordyn {
@@ -323,7 +325,15 @@ IO::Serialize(const int64_t& i)
 uint64_t
 IO::Serialize(const real& f)
 {
-	return Serialize((int64_t)pack754_64((double)f));
+	const double d = (double)f;
+	if (std::numeric_limits<double>::is_iec559) {
+		// The bits are already the packed ones, including infinities, NaNs and
+		// subnormal numbers
+		uint64_t ui;
+		memcpy(&ui, &d, sizeof(uint64_t));
+		return Serialize(ui);
+	}
+	return Serialize((int64_t)pack754_64(d));
 }
 
 std::vector<uint64_t>
@@ -480,7 +490,12 @@ IO::Deserialize(const uint64_t* in, real& out)
 {
 	uint64_t uout;
 	uint64_t* remaining = Deserialize(in, uout);
-	out = (real)unpack754_64(uout);
+	if (std::numeric_limits<double>::is_iec559) {
+		double d;
+		memcpy(&d, &uout, sizeof(uint64_t));
+		out = (real)d;
+	} else
+		out = (real)unpack754_64(uout);
 	return remaining;
 }
 
-- 
2.43.0


From 65e7ffe723ea2fed45b734226f9dadfd581dc324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 36/78] fix: refuse the snapshots of other systems, leaving the
 system as it was

---
 source/IO.cpp       | 38 ++++++++++++++++++++++----------------
 source/IO.hpp       | 25 +++++++++++++++++++++++++
 source/Line.cpp     | 44 ++++++++++++++++++++++----------------------
 source/MoorDyn2.cpp | 19 +++++++++++++++++++
 source/MoorDyn2.hpp | 18 ++++++++++++++++++
 source/Rod.cpp      | 30 +++++++++++++++---------------
 source/Time.hpp     |  8 ++++----
 7 files changed, 125 insertions(+), 57 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index 2860f15..65a3867 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -235,6 +235,10 @@ IO::Save(const std::string filepath)
 		f.write((char*)&v, sizeof(uint64_t));
 	}
 	f.close();
+	if (!f) {
+		LOGERR << "Failure writing the file '" << filepath << "'" << endl;
+		throw moordyn::output_file_error("Invalid file");
+	}
 }
 
 void
@@ -276,34 +280,36 @@ IO::Load(const std::string filepath)
 	// Check that the amount of information is correct
 	uint64_t length;
 	f.read((char*)&length, sizeof(uint64_t));
-	const uint64_t size = length * sizeof(uint64_t);
-	if (size != fsize - header_size) {
-		LOGERR << fsize - header_size
-		       << " bytes of data are available in file '" << filepath
-		       << "' but " << size << " bytes are declared" << endl;
+	const uint64_t size = fsize - header_size;
+	if ((size % sizeof(uint64_t)) || (length != size / sizeof(uint64_t))) {
+		LOGERR << size << " bytes of data are available in file '" << filepath
+		       << "' but " << length << " words of " << sizeof(uint64_t)
+		       << " bytes are declared" << endl;
+		throw moordyn::input_error("Invalid size");
+	}
+	if (!AcceptLength(length)) {
+		LOGERR << "The data in file '" << filepath
+		       << "' has not been saved from this very same system" << endl;
 		throw moordyn::input_error("Invalid size");
 	}
 
 	// Read the data and close the file, which we do not need anymore
-	uint64_t* data = (uint64_t*)malloc(size);
-	if (!data) {
-		LOGERR << "Failure allocating the " << size << " bytes to read '"
-		       << filepath << "'" << endl;
-		throw moordyn::mem_error("Allocation error");
+	std::vector<uint64_t> data(length);
+	f.read((char*)data.data(), size);
+	if (!f) {
+		LOGERR << "Failure reading the file '" << filepath << "'" << endl;
+		throw moordyn::input_file_error("Invalid file");
 	}
-	f.read((char*)data, size);
 	f.close();
 
 	// So do the unpacking job
-	const uint64_t* end = Deserialize(data);
-	if (data + length != end) {
-		const uint64_t l = end - data;
+	const uint64_t* end = Deserialize(data.data());
+	if (data.data() + length != end) {
+		const uint64_t l = end - data.data();
 		LOGERR << l * sizeof(uint64_t) << " bytes (vs. " << size
 		       << " bytes expected) unpacked from '" << filepath << "'" << endl;
 		throw moordyn::mem_error("Allocation error");
 	}
-
-	free(data);
 }
 
 uint64_t
diff --git a/source/IO.hpp b/source/IO.hpp
index 0a0c75b..b96c6d6 100644
--- a/source/IO.hpp
+++ b/source/IO.hpp
@@ -108,6 +108,31 @@ class IO : public LogUser
 	virtual uint64_t* Deserialize(const uint64_t* data) = 0;
 
   protected:
+	/** @brief Check whether the data to be loaded has an acceptable length
+	 *
+	 * Called by Load() before unpacking anything
+	 * @param length The number of 64bits words available
+	 * @return true if the data can be unpacked, false otherwise
+	 */
+	virtual bool AcceptLength(uint64_t length) { return length > 0; }
+
+	/** @brief Unpack a list which shall have the length it already has
+	 * @param in The pointer to the next unread value
+	 * @param out The unpacked value
+	 * @return The new pointer to the remaining data to be read
+	 * @throws moordyn::input_error If the length of the list is another one. In
+	 * such a case @p out is not modified
+	 */
+	template<typename T>
+	uint64_t* DeserializeList(const uint64_t* in, std::vector<T>& out)
+	{
+		uint64_t n;
+		Deserialize(in, n);
+		if (n != out.size())
+			throw moordyn::input_error("Data of a different system");
+		return Deserialize(in, out);
+	}
+
 	/** @brief Pack an unsigned integer to make it writable
 	 * @param i The unsigned integer number
 	 * @return The packed number
diff --git a/source/Line.cpp b/source/Line.cpp
index a3def44..1c65401 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1437,27 +1437,27 @@ Line::Deserialize(const uint64_t* data)
 {
 	uint64_t* ptr = (uint64_t*)data;
 	ptr = io::IO::Deserialize(ptr, t);
-	ptr = io::IO::Deserialize(ptr, r);
-	ptr = io::IO::Deserialize(ptr, rd);
-	ptr = io::IO::Deserialize(ptr, q);
-	ptr = io::IO::Deserialize(ptr, qs);
-	ptr = io::IO::Deserialize(ptr, l);
-	ptr = io::IO::Deserialize(ptr, lstr);
-	ptr = io::IO::Deserialize(ptr, ldstr);
-	ptr = io::IO::Deserialize(ptr, Kurv);
-	ptr = io::IO::Deserialize(ptr, M);
-	ptr = io::IO::Deserialize(ptr, V);
-	ptr = io::IO::Deserialize(ptr, T);
-	ptr = io::IO::Deserialize(ptr, Td);
-	ptr = io::IO::Deserialize(ptr, Bs);
-	ptr = io::IO::Deserialize(ptr, W);
-	ptr = io::IO::Deserialize(ptr, Dp);
-	ptr = io::IO::Deserialize(ptr, Dq);
-	ptr = io::IO::Deserialize(ptr, Ap);
-	ptr = io::IO::Deserialize(ptr, Aq);
-	ptr = io::IO::Deserialize(ptr, B);
-	ptr = io::IO::Deserialize(ptr, Fnet);
-	ptr = io::IO::Deserialize(ptr, F);
+	ptr = io::IO::DeserializeList(ptr, r);
+	ptr = io::IO::DeserializeList(ptr, rd);
+	ptr = io::IO::DeserializeList(ptr, q);
+	ptr = io::IO::DeserializeList(ptr, qs);
+	ptr = io::IO::DeserializeList(ptr, l);
+	ptr = io::IO::DeserializeList(ptr, lstr);
+	ptr = io::IO::DeserializeList(ptr, ldstr);
+	ptr = io::IO::DeserializeList(ptr, Kurv);
+	ptr = io::IO::DeserializeList(ptr, M);
+	ptr = io::IO::DeserializeList(ptr, V);
+	ptr = io::IO::DeserializeList(ptr, T);
+	ptr = io::IO::DeserializeList(ptr, Td);
+	ptr = io::IO::DeserializeList(ptr, Bs);
+	ptr = io::IO::DeserializeList(ptr, W);
+	ptr = io::IO::DeserializeList(ptr, Dp);
+	ptr = io::IO::DeserializeList(ptr, Dq);
+	ptr = io::IO::DeserializeList(ptr, Ap);
+	ptr = io::IO::DeserializeList(ptr, Aq);
+	ptr = io::IO::DeserializeList(ptr, B);
+	ptr = io::IO::DeserializeList(ptr, Fnet);
+	ptr = io::IO::DeserializeList(ptr, F);
 	ptr = io::IO::Deserialize(ptr, UnstrLen);
 	ptr = io::IO::Deserialize(ptr, UnstrLen0);
 	ptr = io::IO::Deserialize(ptr, UnstrLend);
@@ -1465,7 +1465,7 @@ Line::Deserialize(const uint64_t* data)
 	uint64_t pb;
 	ptr = io::IO::Deserialize(ptr, pb);
 	isPb = pb != 0;
-	ptr = io::IO::Deserialize(ptr, pin);
+	ptr = io::IO::DeserializeList(ptr, pin);
 
 	return ptr;
 }
diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 4e81ea7..4264019 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -771,8 +771,27 @@ MoorDyn::Serialize(void)
 	return data;
 }
 
+bool
+MoorDyn::AcceptLength(uint64_t length)
+{
+	return length == Serialize().size();
+}
+
 uint64_t*
 MoorDyn::Deserialize(const uint64_t* data)
+{
+	const std::vector<uint64_t> backup = Serialize();
+	try {
+		return Unpack(data);
+	} catch (...) {
+		// Leave the system as it was
+		Unpack(backup.data());
+		throw;
+	}
+}
+
+uint64_t*
+MoorDyn::Unpack(const uint64_t* data)
 {
 	uint64_t* ptr = (uint64_t*)data;
 	uint64_t n;
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index e44752c..211dfdb 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -285,6 +285,24 @@ class MoorDyn final : public io::IO
 	 */
 	uint64_t* Deserialize(const uint64_t* data);
 
+  protected:
+	/** @brief Check whether the data to be loaded has the length of the data
+	 * this system would produce
+	 * @param length The number of 64bits words available
+	 * @return true if the data can be unpacked, false otherwise
+	 */
+	bool AcceptLength(uint64_t length);
+
+  private:
+	/** @brief Unpack the data, which might throw half way
+	 * @param data The packed data
+	 * @return A pointer to the end of the file, for debugging purposes
+	 * @see MoorDyn::Deserialize()
+	 */
+	uint64_t* Unpack(const uint64_t* data);
+
+  public:
+
 #ifdef USE_VTK
 	/** @brief Produce a VTK object of the whole system
 	 * @return The new VTK object
diff --git a/source/Rod.cpp b/source/Rod.cpp
index e379b5e..1633a0a 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -1501,27 +1501,27 @@ Rod::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, t);
 	ptr = io::IO::Deserialize(ptr, r7);
 	ptr = io::IO::Deserialize(ptr, v6);
-	ptr = io::IO::Deserialize(ptr, r);
-	ptr = io::IO::Deserialize(ptr, rd);
+	ptr = io::IO::DeserializeList(ptr, r);
+	ptr = io::IO::DeserializeList(ptr, rd);
 	ptr = io::IO::Deserialize(ptr, q);
-	ptr = io::IO::Deserialize(ptr, l);
-	ptr = io::IO::Deserialize(ptr, M);
-	ptr = io::IO::Deserialize(ptr, V);
+	ptr = io::IO::DeserializeList(ptr, l);
+	ptr = io::IO::DeserializeList(ptr, M);
+	ptr = io::IO::DeserializeList(ptr, V);
 	ptr = io::IO::Deserialize(ptr, FextA);
 	ptr = io::IO::Deserialize(ptr, FextB);
 	ptr = io::IO::Deserialize(ptr, Mext);
 	ptr = io::IO::Deserialize(ptr, F6net);
 	ptr = io::IO::Deserialize(ptr, M6net);
-	ptr = io::IO::Deserialize(ptr, W);
-	ptr = io::IO::Deserialize(ptr, Bo);
-	ptr = io::IO::Deserialize(ptr, Pd);
-	ptr = io::IO::Deserialize(ptr, Dp);
-	ptr = io::IO::Deserialize(ptr, Dq);
-	ptr = io::IO::Deserialize(ptr, Ap);
-	ptr = io::IO::Deserialize(ptr, Aq);
-	ptr = io::IO::Deserialize(ptr, B);
-	ptr = io::IO::Deserialize(ptr, Fnet);
-	ptr = io::IO::Deserialize(ptr, VOF);
+	ptr = io::IO::DeserializeList(ptr, W);
+	ptr = io::IO::DeserializeList(ptr, Bo);
+	ptr = io::IO::DeserializeList(ptr, Pd);
+	ptr = io::IO::DeserializeList(ptr, Dp);
+	ptr = io::IO::DeserializeList(ptr, Dq);
+	ptr = io::IO::DeserializeList(ptr, Ap);
+	ptr = io::IO::DeserializeList(ptr, Aq);
+	ptr = io::IO::DeserializeList(ptr, B);
+	ptr = io::IO::DeserializeList(ptr, Fnet);
+	ptr = io::IO::DeserializeList(ptr, VOF);
 	ptr = io::IO::Deserialize(ptr, h0);
 	ptr = io::IO::Deserialize(ptr, r_ves);
 	ptr = io::IO::Deserialize(ptr, rd_ves);
diff --git a/source/Time.hpp b/source/Time.hpp
index e0e8e62..b9383fd 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -692,8 +692,8 @@ class TimeSchemeBase : public TimeScheme
 				ptr = io::IO::Deserialize(ptr, r[substep].points[i].vel);
 			}
 			for (unsigned int i = 0; i < lines.size(); i++) {
-				ptr = io::IO::Deserialize(ptr, r[substep].lines[i].pos);
-				ptr = io::IO::Deserialize(ptr, r[substep].lines[i].vel);
+				ptr = io::IO::DeserializeList(ptr, r[substep].lines[i].pos);
+				ptr = io::IO::DeserializeList(ptr, r[substep].lines[i].vel);
 			}
 		}
 		for (unsigned int substep = 0; substep < NDERIV; substep++) {
@@ -710,8 +710,8 @@ class TimeSchemeBase : public TimeScheme
 				ptr = io::IO::Deserialize(ptr, rd[substep].points[i].acc);
 			}
 			for (unsigned int i = 0; i < lines.size(); i++) {
-				ptr = io::IO::Deserialize(ptr, rd[substep].lines[i].vel);
-				ptr = io::IO::Deserialize(ptr, rd[substep].lines[i].acc);
+				ptr = io::IO::DeserializeList(ptr, rd[substep].lines[i].vel);
+				ptr = io::IO::DeserializeList(ptr, rd[substep].lines[i].acc);
 			}
 		}
 
-- 
2.43.0


From 1a66f3b6431f54f9b4c21453c052cf51f3a36c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:19 +0000
Subject: [PATCH 37/78] fix: keep the state, the time and the waves when the
 time scheme is changed

The water kinematics kept asking the time to the deleted scheme. The new
scheme restarted the time and initialised again every object, which moved
them and wrote again the headers of their output files.
---
 source/MoorDyn2.hpp | 9 +++++++--
 source/Time.hpp     | 2 ++
 source/Waves.hpp    | 5 +++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 211dfdb..2955b60 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -387,8 +387,13 @@ class MoorDyn final : public io::IO
 	 * @return The time integrator
 	 */
 	inline void SetTimeScheme(TimeScheme* tscheme) {
-		if (_t_integrator) delete _t_integrator;
+		real t = 0.0;
+		if (_t_integrator) {
+			t = _t_integrator->GetTime();
+			delete _t_integrator;
+		}
 		_t_integrator = tscheme;
+		waves->setTimeScheme(tscheme);
 		_t_integrator->SetGround(GroundBody);
 		for (auto obj : BodyList)
 			_t_integrator->AddBody(obj);
@@ -399,7 +404,7 @@ class MoorDyn final : public io::IO
 		for (auto obj : LineList)
 			_t_integrator->AddLine(obj);
 		_t_integrator->SetCFL(cfl);
-		_t_integrator->Init();
+		_t_integrator->SetTime(t);
 	}
 
   protected:
diff --git a/source/Time.hpp b/source/Time.hpp
index b9383fd..1106404 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -277,6 +277,8 @@ class TimeScheme : public io::IO
 	  : io::IO(log)
 	  , name("None")
 	  , t(0.0)
+	  , t_local(0.0)
+	  , cfl(0.0)
 	{
 	}
 
diff --git a/source/Waves.hpp b/source/Waves.hpp
index 118a9ab..67d1cf7 100644
--- a/source/Waves.hpp
+++ b/source/Waves.hpp
@@ -674,6 +674,11 @@ class Waves : public LogUser
 	           SeafloorRef seafloor,
 	           TimeScheme* t,
 	           const char* folder = "Mooring/");
+
+	/** @brief Set the time integration scheme
+	 * @param t The time integration scheme
+	 */
+	inline void setTimeScheme(TimeScheme* t) { _t_integrator = t; }
 };
 
 // other relevant functions being thrown into this file for now (should move to
-- 
2.43.0


From 706993f8ba10cc810e0ac9a69fb3122db7b7ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:29 +0000
Subject: [PATCH 38/78] fix: detach the failing lines at their failure time, in
 a point the system knows about

Failures were triggered before their time instead of after it, and the new
point was not registered in the time integrator nor in the waves, which
were then accessed out of bounds.
---
 source/MoorDyn2.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 4264019..8a0170b 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -711,7 +711,8 @@ moordyn::MoorDyn::Step(const double* x,
 	// step 1: check for time-triggered failures
 	for (unsigned int l = 0; l < FailList.size(); l++) {
 		auto failure = FailList[l];
-		if (failure->status || (failure->time < t))
+		// a null time means that the failure is not time-triggered
+		if (failure->status || (failure->time <= 0.0) || (t < failure->time))
 			continue;
 		LOGMSG << "Failure number " << l + 1 << " triggered at time " << t
 		       << " s" << endl;
@@ -2286,6 +2287,18 @@ moordyn::MoorDyn::detachLines(FailProps* failure)
 	// update point kinematics to match old line attachment point
 	// kinematics and set positions of attached line ends
 	obj->setState(pos, vel);
+
+	// and let know about the new point to the time integrator and the waves
+	auto state = _t_integrator->GetState();
+	_t_integrator->AddPoint(obj);
+	PointState point_state;
+	point_state.pos = pos;
+	point_state.vel = vel;
+	state.points.push_back(point_state);
+	_t_integrator->SetState(state);
+	waves->addPoint(obj);
+	if (npW)
+		npW++;
 }
 
 moordyn::error_id
-- 
2.43.0


From 59cb1c1dca7f335dd1d56495716d14aed8c0070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:41 +0000
Subject: [PATCH 39/78] fix: refuse the malformed decks instead of reading out
 of bounds or leaking

The sections reached the end of the file before checking it, wrong rods were
added as null pointers, the failures read a 5th field not checked, the output
channels of missing objects and nodes were accessed, and the objects already
read leaked when the deck was refused.
---
 source/MoorDyn2.cpp | 100 ++++++++++++++++++++++++++++++++++----------
 source/MoorDyn2.hpp |   4 ++
 2 files changed, 81 insertions(+), 23 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 8a0170b..e3fbb6d 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -139,11 +139,14 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 
 	waves = std::make_shared<moordyn::Waves>(_log);
 
-	const moordyn::error_id err = ReadInFile();
-	if (err != MOORDYN_SUCCESS) {
-		delete GetLogger();
+	try {
+		const moordyn::error_id err = ReadInFile();
+		MOORDYN_THROW(err, "Exception while reading the input file");
+	} catch (...) {
+		// The destructor is not called if the constructor throws
+		Free();
+		throw;
 	}
-	MOORDYN_THROW(err, "Exception while reading the input file");
 
 	LOGDBG << "MoorDyn is expecting " << NCoupledDOF()
 	       << " coupled degrees of freedom" << endl;
@@ -157,6 +160,12 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 }
 
 moordyn::MoorDyn::~MoorDyn()
+{
+	Free();
+}
+
+void
+moordyn::MoorDyn::Free()
 {
 	if (outfileMain.is_open())
 		outfileMain.close();
@@ -873,7 +882,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -896,7 +905,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -940,7 +949,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading line types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			LineProps* obj = readLineProps(in_txt[i]);
 			if (obj)
 				LinePropList.push_back(obj);
@@ -957,7 +966,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			RodProps* obj = readRodProps(in_txt[i]);
 
 			if (obj)
@@ -975,7 +984,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading body list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Body* obj = readBody(in_txt[i]);
 
 			if (obj) {
@@ -997,7 +1006,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading point list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 9) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1118,8 +1127,10 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
+			if (!obj)
+				return MOORDYN_INVALID_INPUT;
 			RodList.push_back(obj);
 
 			i++;
@@ -1136,7 +1147,7 @@ moordyn::MoorDyn::ReadInFile()
 		}
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 7) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1263,13 +1274,13 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "FAILURE" })) != -1) {
 		LOGDBG << "   Reading failure conditions:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
-			if (entries.size() < 4) {
+			if (entries.size() < 5) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
 				       << endl
 				       << "'" << in_txt[i] << "'" << endl
-				       << "4 fields are required, but just " << entries.size()
+				       << "5 fields are required, but just " << entries.size()
 				       << " are provided" << endl;
 				return MOORDYN_INVALID_INPUT;
 			}
@@ -1363,7 +1374,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OUTPUT" })) != -1) {
 		LOGDBG << "   Reading output options:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 
 			for (unsigned int j = 0; j < entries.size();
@@ -1391,7 +1402,9 @@ moordyn::MoorDyn::ReadInFile()
 					dummy.QType = Ten;
 					dummy.Units = moordyn::UnitList[Ten];
 					dummy.ObjID = atoi(num1.c_str());
-					dummy.NodeID = LineList[dummy.ObjID - 1]->getN();
+					dummy.NodeID = 0;
+					if ((dummy.ObjID > 0) && (dummy.ObjID <= (int)LineList.size()))
+						dummy.NodeID = LineList[dummy.ObjID - 1]->getN();
 				}
 				// achor tension case (changed to just be for single line,
 				// not all connected lines)
@@ -1407,6 +1420,10 @@ moordyn::MoorDyn::ReadInFile()
 
 					// object number
 					dummy.ObjID = atoi(num1.c_str());
+					const bool isLine =
+					    (dummy.ObjID > 0) && (dummy.ObjID <= (int)LineList.size());
+					const bool isRod =
+					    (dummy.ObjID > 0) && (dummy.ObjID <= (int)RodList.size());
 
 					// get object type and node number if applicable
 					// Line case:  L?N?xxxx
@@ -1418,7 +1435,8 @@ moordyn::MoorDyn::ReadInFile()
 								let2.erase(0, 2);
 							} else if (let2.substr(0, 2) == "NB") {
 								dummy.NodeID =
-								    LineList[dummy.ObjID - 1]->getN();
+								    isLine ? LineList[dummy.ObjID - 1]->getN()
+								           : 0;
 								let2.erase(0, 2);
 							} else if (num2.empty())
 								dummy.NodeID = 0;
@@ -1447,7 +1465,8 @@ moordyn::MoorDyn::ReadInFile()
 								dummy.NodeID = 0;
 								let2.erase(0, 2);
 							} else if (let2.substr(0, 2) == "NB") {
-								dummy.NodeID = RodList[dummy.ObjID - 1]->getN();
+								dummy.NodeID =
+								    isRod ? RodList[dummy.ObjID - 1]->getN() : 0;
 								let2.erase(0, 2);
 							} else
 								dummy.NodeID = -1;
@@ -1589,6 +1608,33 @@ moordyn::MoorDyn::ReadInFile()
 					}
 				}
 
+				// Check that the object and the node exist
+				int nobjs = 0, nnodes = 0;
+				if (dummy.OType == 1)
+					nobjs = (int)LineList.size();
+				else if (dummy.OType == 2)
+					nobjs = (int)PointList.size();
+				else if (dummy.OType == 3)
+					nobjs = (int)RodList.size();
+				else if (dummy.OType == 4)
+					nobjs = (int)BodyList.size();
+				if ((dummy.ObjID > 0) && (dummy.ObjID <= nobjs)) {
+					if (dummy.OType == 1)
+						nnodes = (int)LineList[dummy.ObjID - 1]->getN() + 1;
+					else if (dummy.OType == 3)
+						nnodes = (int)RodList[dummy.ObjID - 1]->getN() + 1;
+				} else
+					dummy.OType = -1;
+				if ((dummy.NodeID < -1) || (nnodes && (dummy.NodeID >= nnodes)))
+					dummy.OType = -1;
+				if (dummy.OType < 0)
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "ignoring " << entries[j]
+					       << ", which is not an existing object or node"
+					       << endl;
+
 				if ((dummy.OType > 0) && (dummy.QType > 0))
 					outChans.push_back(dummy);
 			}
@@ -1751,22 +1797,28 @@ moordyn::MoorDyn::readLineProps(string inputText)
 	                 &(obj->nEApoints),
 	                 obj->stiffXs,
 	                 obj->stiffYs);
-	if (err)
+	if (err) {
+		delete obj;
 		return nullptr;
+	}
 	err = read_curve(entries[4].c_str(),
 	                 &(obj->c),
 	                 &(obj->nCpoints),
 	                 obj->dampXs,
 	                 obj->dampYs);
-	if (err)
+	if (err) {
+		delete obj;
 		return nullptr;
+	}
 	err = read_curve(entries[5].c_str(),
 	                 &(obj->EI),
 	                 &(obj->nEIpoints),
 	                 obj->bstiffXs,
 	                 obj->bstiffYs);
-	if (err)
+	if (err) {
+		delete obj;
 		return nullptr;
+	}
 
 	LOGDBG << "\t'" << obj->type << "'"
 	       << " - with id " << LinePropList.size() << endl
@@ -2132,7 +2184,9 @@ moordyn::MoorDyn::readOptionsLine(vector<string>& in_txt, int i)
 		moordyn::error_id err = MOORDYN_SUCCESS;
 		string err_msg;
 		try {
-			_t_integrator = create_time_scheme(entries[0], _log, waves);
+			auto tscheme = create_time_scheme(entries[0], _log, waves);
+			delete _t_integrator;
+			_t_integrator = tscheme;
 		}
 		MOORDYN_CATCHER(err, err_msg);
 		if (err != MOORDYN_SUCCESS) {
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 2955b60..be395e7 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -850,6 +850,10 @@ class MoorDyn final : public io::IO
 	 * code otherwise
 	 */
 	moordyn::error_id AllOutput(double t, double dt);
+
+	/** @brief Release all the allocated resources
+	 */
+	void Free();
 };
 
 } // ::moordyn
-- 
2.43.0


From a9fd676d6c01c154bd9db7513223cf870933179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:17 +0000
Subject: [PATCH 40/78] fix: refuse the malformed water files, grids and time
 steps

---
 source/MoorDyn2.cpp           |  42 +++++++++---
 source/MoorDyn2.hpp           |   6 +-
 source/Seafloor.cpp           |  10 +++
 source/Waves.cpp              |  14 +++-
 source/Waves/WaveGrid.cpp     | 117 ++++++++++++++++++++++++----------
 source/Waves/WaveSpectrum.cpp |   8 ++-
 6 files changed, 151 insertions(+), 46 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index e3fbb6d..57225e1 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -511,6 +511,10 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 		dtM0 = (std::min)(dtM0, obj->cfl2dt(cfl));
 	for (auto obj : BodyList)
 		dtM0 = (std::min)(dtM0, obj->cfl2dt(cfl));
+	if (!(dtM0 > 0.0)) {
+		LOGERR << "Invalid time step, dtM = " << dtM0 << " s" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	// And get the resulting CFL
 	cfl = 0.0;
 	for (auto obj : LineList)
@@ -528,6 +532,11 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 
 	// ------------------ do IC gen --------------------
 	if (!skip_ic) {
+		if ((ICTmax > 0.0) && !(ICdt > 0.0)) {
+			LOGERR << "Invalid ICs generation time step, dtIC = " << ICdt
+			       << " s" << endl;
+			return MOORDYN_INVALID_VALUE;
+		}
 		moordyn::error_id err;
 		if (ICgenDynamic)
 			err = icLegacy();
@@ -1162,6 +1171,13 @@ moordyn::MoorDyn::ReadInFile()
 			string type = entries[1];
 			double UnstrLen = atof(entries[4].c_str());
 			int NumSegs = atoi(entries[5].c_str()); // addition vs. MAP
+			if (NumSegs < 1) {
+				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
+				       << endl
+				       << "'" << in_txt[i] << "'" << endl
+				       << "At least 1 segment is required" << endl;
+				return MOORDYN_INVALID_INPUT;
+			}
 			string outchannels = entries[6];
 
 			int TypeNum = -1;
@@ -2026,6 +2042,10 @@ moordyn::MoorDyn::readRod(string inputText)
 	for (unsigned int I = 0; I < 6; I++)
 		endCoords[I] = atof(entries[3 + I].c_str());
 	int NumSegs = atoi(entries[9].c_str());
+	if (NumSegs < 0) {
+		LOGERR << "The number of segments cannot be negative" << endl;
+		return nullptr;
+	}
 	string outchannels = entries[10];
 
 	std::string let1, num1, let2, num2, let3;
@@ -2212,18 +2232,24 @@ moordyn::MoorDyn::readOptionsLine(vector<string>& in_txt, int i)
 	else if ((name == "threshIC") || (name == "ICthresh"))
 		ICthresh = atof(entries[0].c_str());
 	else if (name == "WaveKin") {
-		WaveKinTemp = (waves::waves_settings)stoi(entries[0]);
-		if ((WaveKinTemp < waves::WAVES_NONE) ||
-		    (WaveKinTemp > waves::WAVES_SUM_COMPONENTS_NODE))
-			LOGWRN << "Unknown WaveKin option value " << WaveKinTemp << endl;
+		const int wave_mode = stoi(entries[0]);
+		if ((wave_mode < waves::WAVES_NONE) ||
+		    (wave_mode > waves::WAVES_SUM_COMPONENTS_NODE)) {
+			LOGERR << "Unknown WaveKin option value " << wave_mode << endl;
+			throw moordyn::invalid_value_error("Invalid WaveKin value");
+		}
+		WaveKinTemp = (waves::waves_settings)wave_mode;
 	} else if (name == "dtWave")
 		env->waterKinOptions.dtWave = stof(entries[0]);
 	else if (name == "Currents") {
-		auto current_mode = (waves::currents_settings)stoi(entries[0]);
-		env->waterKinOptions.currentMode = current_mode;
+		const int current_mode = stoi(entries[0]);
 		if ((current_mode < waves::CURRENTS_NONE) ||
-		    (current_mode > waves::CURRENTS_4D))
-			LOGWRN << "Unknown Currents option value " << current_mode << endl;
+		    (current_mode > waves::CURRENTS_4D)) {
+			LOGERR << "Unknown Currents option value " << current_mode << endl;
+			throw moordyn::invalid_value_error("Invalid Currents value");
+		}
+		env->waterKinOptions.currentMode =
+		    (waves::currents_settings)current_mode;
 	} else if (name == "UnifyCurrentGrid") {
 		if (entries[0] == "1") {
 			env->waterKinOptions.unifyCurrentGrid = true;
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index be395e7..a7ebeca 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -666,9 +666,9 @@ class MoorDyn final : public io::IO
 		// env.writeLog = 1 -> MOORDYN_WRN_LEVEL
 		// env.writeLog = 2 -> MOORDYN_MSG_LEVEL
 		// env.writeLog >= 3 -> MOORDYN_DBG_LEVEL
-		int log_level = MOORDYN_ERR_LEVEL - env->writeLog;
-		if (log_level >= MOORDYN_ERR_LEVEL)
-			log_level = MOORDYN_NO_OUTPUT;
+		int log_level = MOORDYN_NO_OUTPUT;
+		if (env->writeLog > 0)
+			log_level = MOORDYN_ERR_LEVEL - env->writeLog;
 		if (log_level < MOORDYN_DBG_LEVEL)
 			log_level = MOORDYN_DBG_LEVEL;
 		GetLogger()->SetLogLevel(log_level);
diff --git a/source/Seafloor.cpp b/source/Seafloor.cpp
index 3422a3f..20304d5 100644
--- a/source/Seafloor.cpp
+++ b/source/Seafloor.cpp
@@ -68,8 +68,18 @@ Seafloor::setup(EnvCondRef env, const string& filepath)
 
 		// Setup nx, ny
 		vector<string> entries = moordyn::str::split(fLines[0]);
+		if (entries.size() < 2) {
+			LOGERR << "There should be 2 entries in line 1"
+			       << " of the input file.\n";
+			throw moordyn::input_file_error("Invalid no. of dimensions");
+		}
 		nx = stoi(entries[0]);
 		ny = stoi(entries[1]);
+		if (!nx || !ny) {
+			LOGERR << "There should be at least a point along each axis"
+			       << " of the seafloor grid.\n";
+			throw moordyn::input_file_error("Invalid no. of points");
+		}
 
 		// Setup px (x-axis ticks):
 		entries = moordyn::str::split(fLines[1]);
diff --git a/source/Waves.cpp b/source/Waves.cpp
index 066a8c5..efc996b 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -76,7 +76,7 @@ gridAxisCoords(Waves::coordtypes coordtype, vector<string>& entries)
 		n = 1;
 	else if (coordtype == Waves::GRID_LIST)
 		n = static_cast<unsigned int>(entries.size());
-	else if (coordtype == Waves::GRID_LATTICE)
+	else if ((coordtype == Waves::GRID_LATTICE) && (entries.size() >= 3))
 		n = static_cast<unsigned int>(stoul(entries[2]));
 	else
 		return coordarray;
@@ -89,6 +89,9 @@ gridAxisCoords(Waves::coordtypes coordtype, vector<string>& entries)
 			coordarray.push_back(atof(entries[i].c_str()));
 		}
 	} else if (coordtype == Waves::GRID_LATTICE) {
+		// Both ends are always part of the lattice
+		if (n < 2)
+			return coordarray;
 		real first = atof(entries[0].c_str()), last = atof(entries[1].c_str());
 		coordarray.push_back(first);
 		real dx = (last - first) / ((real)(n - 1));
@@ -382,6 +385,11 @@ Waves::setup(EnvCondRef env_in,
 		// load wave elevation time series from file (similar to what's done in
 		// GenerateWaveExtnFile.py, and was previously in misc2.cpp)
 		waveGrid = constructWaveGridElevationData((string)folder, env, _log);
+	} else if ((wave_mode != waves::WAVES_NONE) &&
+	           (wave_mode != waves::WAVES_EXTERNAL)) {
+		LOGERR << "The wave settings option " << wave_mode
+		       << " is not supported yet" << endl;
+		throw moordyn::invalid_value_error("Unsupported waves option");
 	}
 
 	// Now add in current velocities (add to unsteady wave kinematics)
@@ -476,6 +484,10 @@ Waves::setup(EnvCondRef env_in,
 		} else {
 			currentKinematics = std::move(currentGrid);
 		}
+	} else if (current_mode != CURRENTS_NONE) {
+		LOGERR << "The current settings option " << current_mode
+		       << " is not supported yet" << endl;
+		throw moordyn::invalid_value_error("Unsupported currents option");
 	}
 
 	// waveGrid is a temporary value to help with unifying wave and current
diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index ee6d007..c0f33ed 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -273,6 +273,39 @@ fillWaveGrid(std::unique_ptr<WaveGrid> waveGrid,
 	return waveGrid;
 }
 
+/** @brief Parse the line that sets how the coordinates of an axis are given
+ * @param line The line of the file
+ * @return The type of coordinates
+ * @throws moordyn::invalid_value_error If the type is not valid
+ */
+static Waves::coordtypes
+gridCoordType(const std::string& line)
+{
+	const vector<string> entries = moordyn::str::split(line);
+	const int type = entries.empty() ? -1 : stoi(entries[0]);
+	if ((type == Waves::GRID_SINGLE) || (type == Waves::GRID_LIST) ||
+	    (type == Waves::GRID_LATTICE))
+		return (Waves::coordtypes)type;
+	throw moordyn::invalid_value_error("Invalid type of grid coordinates");
+}
+
+/** @brief Get the number of intervals required to cover a time
+ * @param t The time to cover
+ * @param dt The duration of each interval
+ * @return The quotient, which is not rounded yet
+ * @throws moordyn::invalid_value_error If such a number cannot be represented
+ */
+static real
+numTimeIntervals(real t, real dt)
+{
+	// The 2 available intervals are meant for the later rounding operations
+	const real n = t / dt;
+	if (!(dt > 0.0) || !(n > -1e-6) ||
+	    !(n < (real)(std::numeric_limits<int>::max() - 2)))
+		throw moordyn::invalid_value_error("Invalid time samples");
+	return n;
+}
+
 /** @brief Read the grid file and return the three axes
  *
  * The grid is defined in a tabulated file (separator=' '). That file has 3
@@ -312,8 +345,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 	vector<string> entries;
 	Waves::coordtypes coordtype;
 
-	entries = moordyn::str::split(lines[3]);
-	coordtype = (Waves::coordtypes)stoi(entries[0]);
+	coordtype = gridCoordType(lines[3]);
 	entries = moordyn::str::split(lines[4]);
 	auto px = gridAxisCoords(coordtype, entries);
 	if (px.empty()) {
@@ -322,8 +354,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 		throw moordyn::invalid_value_error("Invalid line");
 	}
 
-	entries = moordyn::str::split(lines[5]);
-	coordtype = (Waves::coordtypes)stoi(entries[0]);
+	coordtype = gridCoordType(lines[5]);
 	entries = moordyn::str::split(lines[6]);
 	auto py = gridAxisCoords(coordtype, entries);
 	if (py.empty()) {
@@ -332,8 +363,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 		throw moordyn::invalid_value_error("Invalid line");
 	}
 
-	entries = moordyn::str::split(lines[7]);
-	coordtype = (Waves::coordtypes)stoi(entries[0]);
+	coordtype = gridCoordType(lines[7]);
 	entries = moordyn::str::split(lines[8]);
 	auto pz = gridAxisCoords(coordtype, entries);
 	if (pz.empty()) {
@@ -445,6 +475,10 @@ constructWaveGridElevationData(const std::string& folder,
 		wavetimes.push_back(stod(entries[0]));
 		waveelevs.push_back(stod(entries[1]));
 	}
+	if (wavetimes.empty()) {
+		LOGERR << "The file '" << WaveFilename << "' has no data" << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
 	LOGMSG << "'" << WaveFilename << "' parsed" << endl;
 
 	auto dtWave = env->waterKinOptions.dtWave;
@@ -452,7 +486,13 @@ constructWaveGridElevationData(const std::string& folder,
 	// this makes the implicit assumption that dtWave >= interval between
 	// samples the 1 extra is for the point at zero, [0.0, 1.0, 2.0] is 3
 	// points even though 2.0/1.0 = 2
-	unsigned int nt = floor(wavetimes.back() / dtWave) + 1;
+	unsigned int nt = floor(numTimeIntervals(wavetimes.back(), dtWave)) + 1;
+	if (nt < 2) {
+		LOGERR << "The file '" << WaveFilename
+		       << "' should cover at least one time step, dtWave = " << dtWave
+		       << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
 	LOGDBG << "Number of wave time samples = " << nt << "(" << wavetimes.size()
 	       << " samples provided in the file)" << endl;
 
@@ -654,6 +694,11 @@ constructDynamicCurrentGrid(const std::string& folder,
 	// this is the depths row
 	vector<string> entries = moordyn::str::split(lines[4]);
 	const unsigned int nzin = static_cast<unsigned int>(entries.size());
+	if (!nzin) {
+		LOGERR << "The file '" << CurrentsFilename << "' has no depths"
+		       << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
 	for (unsigned int i = 0; i < nzin; i++)
 		UProfileZ.push_back(stof(entries[i]));
 
@@ -705,7 +750,8 @@ constructDynamicCurrentGrid(const std::string& folder,
 	for (unsigned int i = 1; i < ntin; i++)
 		if (UProfileT[i] - UProfileT[i - 1] < dtWave)
 			dtWave = UProfileT[i] - UProfileT[i - 1];
-	unsigned int nt = ceil(UProfileT[ntin - 1] / dtWave - 1e-6) + 1;
+	unsigned int nt =
+	    ceil(numTimeIntervals(UProfileT[ntin - 1], dtWave) - 1e-6) + 1;
 
 	auto currentGrid =
 	    make_unique<CurrentGrid>(_log, px, py, UProfileZ, nt, dtWave);
@@ -767,6 +813,11 @@ construct4DCurrentGrid(const std::string& folder,
 	// The first line must contain the number of x, y, z, t values in the
 	// input meshgrid (1-indexed, space delimited)
 	vector<string> gridDimensions = moordyn::str::split(lines[0]);
+	if (gridDimensions.size() < 4) {
+		LOGERR << "The file '" << CurrentsFilename
+		       << "' should start with the 4 dimensions of the grid" << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
 	unsigned int nxCurGrid = stoul(gridDimensions[0]);
 	unsigned int nyCurGrid = stoul(gridDimensions[1]);
 	unsigned int nzCurGrid = stoul(gridDimensions[2]);
@@ -786,29 +837,25 @@ construct4DCurrentGrid(const std::string& folder,
 	map<real, unsigned int> ZMap;
 	map<real, unsigned int> TMap;
 
-	auto entry = moordyn::str::split(lines[1]);
-	for (unsigned int i = 0; i < nxCurGrid; i++) {
-		UProfileX.push_back(stod(entry[i]));
-		XMap[UProfileX[i]] = i;
-	}
-
-	entry = moordyn::str::split(lines[2]);
-	for (unsigned int i = 0; i < nyCurGrid; i++) {
-		UProfileY.push_back(stod(entry[i]));
-		YMap[UProfileY[i]] = i;
-	}
-
-	entry = moordyn::str::split(lines[3]);
-	for (unsigned int i = 0; i < nzCurGrid; i++) {
-		UProfileZ.push_back(stod(entry[i]));
-		ZMap[UProfileZ[i]] = i;
-	}
-
-	entry = moordyn::str::split(lines[4]);
-	for (unsigned int i = 0; i < ntCurGrid; i++) {
-		UProfileT.push_back(stod(entry[i]));
-		TMap[UProfileT[i]] = i;
-	}
+	auto readCoords = [&](const string& line,
+	                      unsigned int n,
+	                      vector<real>& coords,
+	                      map<real, unsigned int>& indices) {
+		const auto entry = moordyn::str::split(line);
+		if (!n || (entry.size() < n)) {
+			LOGERR << "The file '" << CurrentsFilename << "' should have " << n
+			       << " coordinates in the line '" << line << "'" << endl;
+			throw moordyn::input_file_error("Invalid file format");
+		}
+		for (unsigned int i = 0; i < n; i++) {
+			coords.push_back(stod(entry[i]));
+			indices[coords[i]] = i;
+		}
+	};
+	readCoords(lines[1], nxCurGrid, UProfileX, XMap);
+	readCoords(lines[2], nyCurGrid, UProfileY, YMap);
+	readCoords(lines[3], nzCurGrid, UProfileZ, ZMap);
+	readCoords(lines[4], ntCurGrid, UProfileT, TMap);
 
 	// Need 3 4D grids - one for each component of current velocity:
 	Vec4D<real> currentGridUx =
@@ -844,6 +891,11 @@ construct4DCurrentGrid(const std::string& folder,
 			}
 			return found->second;
 		};
+		if (entry.size() < 7) {
+			LOGERR << "The file '" << CurrentsFilename
+			       << "' should have 7 columns" << endl;
+			throw moordyn::input_file_error("Invalid file format");
+		}
 		auto ix = index(XMap, entry[0]);
 		auto iy = index(YMap, entry[1]);
 		auto iz = index(ZMap, entry[2]);
@@ -864,7 +916,8 @@ construct4DCurrentGrid(const std::string& folder,
 			dtWave = UProfileT[i] - UProfileT[i - 1];
 
 	// set number of timesteps
-	unsigned int nt = ceil(UProfileT[ntCurGrid - 1] / dtWave - 1e-6) + 1;
+	unsigned int nt =
+	    ceil(numTimeIntervals(UProfileT[ntCurGrid - 1], dtWave) - 1e-6) + 1;
 
 	auto currentGrid = make_unique<CurrentGrid>(
 	    _log, UProfileX, UProfileY, UProfileZ, nt, dtWave);
diff --git a/source/Waves/WaveSpectrum.cpp b/source/Waves/WaveSpectrum.cpp
index c28bd9a..981a0cf 100644
--- a/source/Waves/WaveSpectrum.cpp
+++ b/source/Waves/WaveSpectrum.cpp
@@ -43,8 +43,12 @@ DiscreteWaveSpectrum::interpEvenlySpaced()
 		    "Ascending frequencies are expected");
 	}
 	// number of frequencies (equal to wavefreqs.size when evenly spaced)
-	unsigned int nw =
-	    static_cast<unsigned int>(floor(components.back().omega / dw)) + 1;
+	const real n_intervals = floor(components.back().omega / dw);
+	if (!(n_intervals >= 0.0) ||
+	    !(n_intervals < 0.5 * (real)(std::numeric_limits<int>::max)())) {
+		throw moordyn::invalid_value_error("Invalid range of frequencies");
+	}
+	unsigned int nw = static_cast<unsigned int>(n_intervals) + 1;
 
 	// kind of ugly converting from array of struct to multiple arrays
 	std::vector<real> omegas(size());
-- 
2.43.0


From d470aac0060571915b3fa1108f4b4bb809a33617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:38 +0000
Subject: [PATCH 41/78] fix: neither share nor alter the format of the terminal
 stream, so systems can run in several threads

---
 source/Log.cpp      | 32 ++++----------------------------
 source/Log.hpp      | 18 +++++++++++++-----
 source/MoorDyn2.cpp |  7 +++----
 3 files changed, 20 insertions(+), 37 deletions(-)

diff --git a/source/Log.cpp b/source/Log.cpp
index c6c4747..1300a1d 100644
--- a/source/Log.cpp
+++ b/source/Log.cpp
@@ -51,34 +51,10 @@ log_level_name(int level)
 	return "???";
 }
 
-/** @brief Null buffer to avoid printing on screen
- * @see moordyn::cnul
- */
-class null_out_buf : public std::streambuf
-{
-  public:
-	virtual std::streamsize xsputn(const char PARAM_UNUSED* s,
-	                               std::streamsize n)
-	{
-		return n;
-	}
-	virtual int overflow(int c) { return c; }
-};
-
-/// The buffer to nowhere
-null_out_buf __cnul_buff;
-
-/// Stream to nowhere
-std::ostream __cnul(&__cnul_buff);
-
-/// Stream to nowhere, used when verbosity is not large enough to print the
-/// message
-std::ostream& cnul = __cnul;
-
 MultiStream::MultiStream()
   : _fpath("")
   , _fout_enabled(false)
-  , _terminal(&cnul)
+  , _terminal(NULL)
 {
 }
 
@@ -118,11 +94,11 @@ MultiStream&
 Log::Cout(const int level) const
 {
 	if (level < _verbosity)
-		_streamer->SetTerminal(moordyn::cnul);
+		_streamer->SetTerminal(NULL);
 	else if (level >= MOORDYN_ERR_LEVEL)
-		_streamer->SetTerminal(std::cerr);
+		_streamer->SetTerminal(&std::cerr);
 	else
-		_streamer->SetTerminal(std::cout);
+		_streamer->SetTerminal(&std::cout);
 
 	if (level < _file_verbosity)
 		_streamer->SetFile(false);
diff --git a/source/Log.hpp b/source/Log.hpp
index a3be77e..e881bb7 100644
--- a/source/Log.hpp
+++ b/source/Log.hpp
@@ -39,6 +39,7 @@
 #include "MoorDynAPI.h"
 #include <iostream>
 #include <fstream>
+#include <sstream>
 
 namespace moordyn {
 
@@ -103,9 +104,9 @@ class MultiStream
 	inline void SetFile(bool enable = true) { _fout_enabled = enable; };
 
 	/** @brief Set the terminal streamer
-	 * @param stream The terminal stream
+	 * @param stream The terminal stream, NULL to print nothing
 	 */
-	inline void SetTerminal(std::ostream& stream) { _terminal = &stream; };
+	inline void SetTerminal(std::ostream* stream) { _terminal = stream; };
 
 	/** @brief Functionality for std::endl alike operators
 	 */
@@ -113,7 +114,8 @@ class MultiStream
 	{
 		if (_fout_enabled && _fout.is_open())
 			pfun(_fout);
-		pfun(*_terminal);
+		if (_terminal)
+			pfun(*_terminal);
 		return *this;
 	}
 
@@ -123,7 +125,7 @@ class MultiStream
 	std::ofstream _fout;
 	/// Flag to know if the file output is enabled
 	bool _fout_enabled;
-	/// The terminal active streamer
+	/// The terminal active streamer, if any
 	std::ostream* _terminal;
 };
 
@@ -135,7 +137,13 @@ operator<<(MultiStream& st, T val)
 {
 	if (st._fout_enabled && st._fout.is_open())
 		st._fout << val;
-	*(st._terminal) << val;
+	if (st._terminal) {
+		// The terminal is shared with other systems and with the program, so
+		// its format shall not be altered
+		std::stringstream ss;
+		ss << val;
+		*(st._terminal) << ss.str();
+	}
 	return st;
 };
 
diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 57225e1..a47ff03 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -633,10 +633,9 @@ moordyn::MoorDyn::Step(const double* x,
                        double& dt)
 {
 	// should check if wave kinematics have been set up if expected!
-	const auto default_precision{std::cout.precision()};
-	std::cout << std::fixed << setprecision(1);
-	LOGDBG << "t = " << t << "s     \r";
-	std::cout << std::defaultfloat << setprecision(default_precision);
+	std::stringstream t_msg;
+	t_msg << std::fixed << setprecision(1) << t;
+	LOGDBG << "t = " << t_msg.str() << "s     \r";
 
 	cout << "\rt = " << t << " " << flush;
 
-- 
2.43.0


From 5c4acd6462104671d9347cc2a7c4fd62b755f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:08 +0000
Subject: [PATCH 42/78] fix: report the roll and pitch of the rods at the
 output instant

---
 source/Rod.cpp | 20 ++++++++++----------
 source/Rod.hpp |  4 ----
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 1633a0a..f2624f2 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -367,11 +367,16 @@ Rod::GetRodOutput(OutChanProps outChan)
 			return r7.pos.y();
 		else if (outChan.QType == PosZ)
 			return r7.pos.z();
-		else if (outChan.QType == RX)
-			return roll * 180.0 / pi;
-		else if (outChan.QType == RY)
-			return pitch * 180.0 / pi;
-		else if (outChan.QType == VelX)
+		else if ((outChan.QType == RX) || (outChan.QType == RY)) {
+			// <<< should check these, make Euler angles instead of
+			// independent <<<
+			const auto angles = N ? orientationAngles(q) : make_pair(0.0, 0.0);
+			const real phi = angles.first;
+			const real beta = angles.second;
+			const real angle =
+			    (outChan.QType == RX) ? -phi * sin(beta) : phi * cos(beta);
+			return angle * 180.0 / pi;
+		} else if (outChan.QType == VelX)
 			return v6[0];
 		else if (outChan.QType == VelY)
 			return v6[1];
@@ -897,11 +902,6 @@ Rod::doRHS()
 	const real sinBeta = sin(beta);
 	const real cosBeta = cos(beta);
 
-	// save to internal roll and pitch variables for use in output <<< should
-	// check these, make Euler angles instead of independent <<<
-	roll = -phi * sinBeta;
-	pitch = phi * cosBeta;
-
 	// set interior node positions and velocities (stretch the nodes between the
 	// endpoints linearly) (skipped for zero-length Rods)
 	for (unsigned int i = 1; i < N; i++) {
diff --git a/source/Rod.hpp b/source/Rod.hpp
index 9851a40..098f227 100644
--- a/source/Rod.hpp
+++ b/source/Rod.hpp
@@ -279,10 +279,6 @@ class Rod final : public io::IO, public SuperCFL
 	/// Rod type
 	types type;
 
-	/// The roll angle (useful for output)
-	real roll;
-	/// The pitch angle (useful for output)
-	real pitch;
 
 	/** @brief Setup a rod
 	 * @param number Rod ID
-- 
2.43.0


From b34001c8134096956182dfaf5cd2faac3aaa49c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:40 +0000
Subject: [PATCH 43/78] fix: turn the rods pinned to a body along with the body
 when they are initialized

---
 source/Body.cpp | 11 +++++++++++
 source/Body.hpp |  6 ++++++
 source/Rod.cpp  |  7 +++++--
 source/Rod.hpp  | 12 ++++++++++++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index a9e4116..568a35a 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -182,6 +182,7 @@ Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 	}
 	initiateStep(r6_in, v6_in, a6_in);
 	updateFairlead(0.0);
+	orientPinnedRods();
 
 	// If any Rod is fixed to the body (not pinned), initialize it now because
 	// otherwise it won't be initialized
@@ -194,6 +195,15 @@ Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 		attached->initialize();
 }
 
+void
+Body::orientPinnedRods()
+{
+	for (unsigned int i = 0; i < attachedR.size(); i++)
+		if (attachedR[i]->type == Rod::PINNED)
+			attachedR[i]->setInitialDirection(OrMat *
+			                                  r6RodRel[i].tail<3>());
+}
+
 std::pair<XYZQuat, vec6>
 Body::initialize()
 {
@@ -206,6 +216,7 @@ Body::initialize()
 	// set positions of any dependent points and rods now (before they are
 	// initialized)
 	setDependentStates();
+	orientPinnedRods();
 
 	if (type == FREE) { // Attached objects already initalized for coupled pinned body
 		// If any Rod is fixed to the body (not pinned), initialize it now because
diff --git a/source/Body.hpp b/source/Body.hpp
index 96908a2..c4ab51c 100644
--- a/source/Body.hpp
+++ b/source/Body.hpp
@@ -293,6 +293,12 @@ class Body final : public io::IO, public SuperCFL
 	 */
 	void setDependentStates();
 
+	/** @brief Turn the rods pinned to the body along with it
+	 *
+	 * Just meant to be called while initializing, before the rods
+	 */
+	void orientPinnedRods();
+
 	/** @brief Get the body kinematics
 	 * @param pos The output position
 	 * @param vel The output velocity
diff --git a/source/Rod.cpp b/source/Rod.cpp
index f2624f2..d99169d 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -340,12 +340,15 @@ Rod::initialize()
 	// matters if it's an independent Rod)
 
 	// copy over state values for potential use during derivative calculations
-	// Regarding the angles, they are always initialized as zeroes, considering
-	// q0 as the reference for the orientation-related transformations
+	// Regarding the angles, they are initialized as zeroes, considering q0 as
+	// the reference for the orientation-related transformations, unless the
+	// rod has been turned along with the body it is pinned to
 	XYZQuat pos = XYZQuat::Zero();
 	vec6 vel = vec6::Zero();
 	if (type == FREE)
 		pos.pos = r[0];
+	else if (type == PINNED)
+		pos.quat = r7.quat;
 
 	LOGMSG << "Initialized Rod " << number << endl;
 	return std::make_pair(pos, vel);
diff --git a/source/Rod.hpp b/source/Rod.hpp
index 098f227..77903ae 100644
--- a/source/Rod.hpp
+++ b/source/Rod.hpp
@@ -507,6 +507,18 @@ class Rod final : public io::IO, public SuperCFL
 	 */
 	void setKinematics(vec6 r, vec6 rd);
 
+	/** @brief Set the initial direction of a rod pinned to a body
+	 *
+	 * The ends of the rod are given relative to the body, so the rod shall be
+	 * turned with it before it is initialized
+	 * @param dir Direction of the rod, from end A to end B, in the global frame
+	 */
+	inline void setInitialDirection(const vec& dir)
+	{
+		if (N > 0)
+			r7.quat = quaternion::FromTwoVectors(q0, dir);
+	}
+
 	/** @brief Set the end kinematics then set the states (positions and
 	 * velocities) of any line ends attached to this rod.
 	 *
-- 
2.43.0


From 9b680740827a46312aa2022d3afc1e659f0cbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:06 +0000
Subject: [PATCH 44/78] fix: start the derivative of the rotations from zero,
 not from the identity quaternion

---
 source/Time.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Time.hpp b/source/Time.hpp
index 1106404..751019d 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -445,7 +445,7 @@ class TimeSchemeBase : public TimeScheme
 			r[i].rods.push_back(state);
 		}
 		DRodStateDt dstate;
-		dstate.vel = XYZQuat::Zero();
+		dstate.vel = XYZQuat(vec3::Zero(), quaternion(0.0, 0.0, 0.0, 0.0));
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].rods.push_back(dstate);
@@ -495,7 +495,7 @@ class TimeSchemeBase : public TimeScheme
 			r[i].bodies.push_back(state);
 		}
 		DBodyStateDt dstate;
-		dstate.vel = XYZQuat::Zero();
+		dstate.vel = XYZQuat(vec3::Zero(), quaternion(0.0, 0.0, 0.0, 0.0));
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].bodies.push_back(dstate);
-- 
2.43.0


From d75019e6abc258b170f0b0c64a2b8df39fc0f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:06 +0000
Subject: [PATCH 45/78] fix: rotate the rods and bodies with the right
 quaternion rate when looking for the stationary initial condition

---
 source/State.cpp | 16 ++++++++++++----
 source/State.hpp |  3 ++-
 source/Time.cpp  |  4 ++--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 69bade2..db54876 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -422,7 +422,11 @@ template<>
 real StateVarDeriv<XYZQuat, vec6>::MakeStationary(const real &dt)
 {
 	real ret = acc.head<3>().norm();
-	vel = XYZQuat::fromVec6(0.5 * dt * acc);
+	const vec6 v = 0.5 * dt * acc;
+	vel.pos = v.head<3>();
+	// The rate of change of the unrotated orientation, see
+	// DMoorDynStateDt::MakeStationary()
+	vel.quat = quaternion(0.0, 0.5 * v[3], 0.5 * v[4], 0.5 * v[5]);
 	acc = vec6::Zero();
 	return ret;
 }
@@ -848,17 +852,21 @@ DMoorDynStateDt::operator-(const DMoorDynStateDt& rhs)
 }
 
 real
-DMoorDynStateDt::MakeStationary(const real &dt)
+DMoorDynStateDt::MakeStationary(const real &dt, const MoorDynState& r)
 {
 	real ret = 0.0;
 	for (unsigned int i = 0; i < lines.size(); i++)
 		ret += lines[i].MakeStationary(dt);
 	for (unsigned int i = 0; i < points.size(); i++)
 		ret += points[i].MakeStationary(dt);
-	for (unsigned int i = 0; i < rods.size(); i++)
+	for (unsigned int i = 0; i < rods.size(); i++) {
 		ret += rods[i].MakeStationary(dt);
-	for (unsigned int i = 0; i < bodies.size(); i++)
+		rods[i].vel.quat = rods[i].vel.quat * r.rods[i].pos.quat;
+	}
+	for (unsigned int i = 0; i < bodies.size(); i++) {
 		ret += bodies[i].MakeStationary(dt);
+		bodies[i].vel.quat = bodies[i].vel.quat * r.bodies[i].pos.quat;
+	}
 	return ret;
 }
 
diff --git a/source/State.hpp b/source/State.hpp
index 0bbdf95..42ef8e7 100644
--- a/source/State.hpp
+++ b/source/State.hpp
@@ -374,9 +374,10 @@ class DMoorDynStateDt
 	 *
 	 * This can be use therefore to look for stationary solutions
 	 * @param dt Time step.
+	 * @param r The state, to get the orientations the rotations apply to
 	 * @return The sum of the linear acceleration norms
 	 */
-	real MakeStationary(const real &dt);
+	real MakeStationary(const real &dt, const MoorDynState& r);
 
 	/** @brief Carry out a Newmark step
 	 *
diff --git a/source/Time.cpp b/source/Time.cpp
index ceb2202..2a845a8 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -181,7 +181,7 @@ StationaryScheme::Step(real& dt)
 	Update(0.0, 0);
 	CalcStateDeriv(0);
 	const real error_prev = _error;
-	_error = rd[0].MakeStationary(dt);
+	_error = rd[0].MakeStationary(dt, r[0]);
 	if (error_prev != 0.0) {
 		if (error_prev >= _error) {
 			// Let's try to boost the convergence
@@ -194,7 +194,7 @@ StationaryScheme::Step(real& dt)
 			r[0].Mix(r[1], STATIONARY_RELAX);
 			Update(0.0, 0);
 			CalcStateDeriv(0);
-			_error = rd[0].MakeStationary(dt);
+			_error = rd[0].MakeStationary(dt, r[0]);
 		}
 	}
 	if (_booster > STATIONARY_MAX_BOOSTING)
-- 
2.43.0


From 46b085656f594e486d1c351186f9c9375d6453c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:26 +0000
Subject: [PATCH 46/78] fix: do not start the lines on a catenary that misses
 their ends

---
 source/Line.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index 1c65401..ad694e2 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -514,6 +514,13 @@ Line::initialize()
 		                       Zl,
 		                       Te);
 
+		// The solver might stall away from the solution, so check that the
+		// profile actually reaches the end points
+		const real miss = (std::max)(std::hypot(Xl[0], Zl[0]),
+		                             std::hypot(Xl[N] - XF, Zl[N] - ZF));
+		if (!(miss < 1.0e-3 * UnstrLen))
+			success = -1;
+
 		if (success >= 0) {
 			
 			// the catenary solve is successful, update the node positions
-- 
2.43.0


From ec405c41513e2cb01aeb297e386edd4d291f88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:07 +0000
Subject: [PATCH 47/78] fix: consider the CFL option also when the time step is
 provided

According to the documentation, when both dtM and CFL are provided the
smaller time step is used. However, the CFL was just ignored
---
 source/MoorDyn2.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index a47ff03..ea85ba1 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -87,7 +87,7 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
   , ICthresh(0.001)
   , WaveKinTemp(waves::WAVES_NONE)
   , dtM0((std::numeric_limits<real>::max)())
-  , cfl(0.5)
+  , cfl((std::numeric_limits<real>::max)())
   , dtOut(0.0)
   , _t_integrator(NULL)
   , ICgenDynamic(false)
@@ -499,8 +499,11 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 		ix += 3;
 	}
 
-	if (dtM0 < (0.9 * (std::numeric_limits<real>::max)()))
-		cfl = (std::numeric_limits<real>::max)(); // Is 90% of max sufficient tolerance for this check?
+	// If neither the time step nor the CFL were provided, take a default CFL.
+	// If both were provided the most restrictive one is considered
+	const real unset = 0.9 * (std::numeric_limits<real>::max)();
+	if ((dtM0 >= unset) && (cfl >= unset))
+		cfl = 0.5;
 
 	// Compute the timestep
 	for (auto obj : LineList)
-- 
2.43.0


From 6751155210589b54c702b4d36b88043aab450d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:07 +0000
Subject: [PATCH 48/78] fix: report the time step changes to the time scheme

The local-timestep schemes are using the CFL factor to know how often each
line shall be updated, so they kept going with the old one after calling
MoorDyn_SetDt() or MoorDyn_SetCFL()
---
 source/MoorDyn2.hpp |  2 ++
 source/Time.hpp     | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index a7ebeca..8f23b9d 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -354,6 +354,7 @@ class MoorDyn final : public io::IO
 			cfl = (std::max)(cfl, obj->dt2cfl(dtM0));
 		for (auto obj : BodyList)
 			cfl = (std::max)(cfl, obj->dt2cfl(dtM0));
+		_t_integrator->SetCFL(cfl);
 	}
 
 	/** @brief Get the model Courant–Friedrichs–Lewy factor
@@ -376,6 +377,7 @@ class MoorDyn final : public io::IO
 			dtM0 = (std::min)(dtM0, obj->cfl2dt(cfl));
 		for (auto obj : BodyList)
 			dtM0 = (std::min)(dtM0, obj->cfl2dt(cfl));
+		_t_integrator->SetCFL(cfl);
 	}
 
 	/** @brief Get the current time integrator
diff --git a/source/Time.hpp b/source/Time.hpp
index 751019d..c5af165 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -223,7 +223,7 @@ class TimeScheme : public io::IO
 	/** @brief Set the CFL factor
 	 * @param cfl The CFL factor
 	 */
-	inline void SetCFL(const real& cfl) { this->cfl = cfl; }
+	virtual inline void SetCFL(const real& cfl) { this->cfl = cfl; }
 
 	/** @brief Prepare everything for the next outer time step
 	 *
@@ -892,6 +892,19 @@ class LocalTimeSchemeBase : public TimeSchemeBase<NSTATE, NDERIV>
 		ComputeDt();
 	}
 
+	/** @brief Set the CFL factor
+	 *
+	 * The time step of each instance is updated accordingly, provided that the
+	 * time scheme was already initialized
+	 * @param cfl The CFL factor
+	 */
+	inline void SetCFL(const real& cfl)
+	{
+		TimeSchemeBase<NSTATE, NDERIV>::SetCFL(cfl);
+		if (!_dt0.lines.empty())
+			ComputeDt();
+	}
+
 	/** @brief Produce the packed data to be saved
 	 *
 	 * The counters of integrated time of each instance are appended
-- 
2.43.0


From a2cd82734af1a182b29358b240be0500db531f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:07 +0000
Subject: [PATCH 49/78] fix: reject invalid time steps and CFL factors

A null time step led MoorDyn_Step() to an infinite loop
---
 source/MoorDyn2.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index ea85ba1..a5b6211 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2795,6 +2795,11 @@ int DECLDIR
 MoorDyn_SetDt(MoorDyn system, double dt)
 {
 	CHECK_SYSTEM(system);
+	if (!(dt > 0.0)) {
+		cerr << "Error: Invalid value, " << dt << ", while calling "
+		     << __FUNC_NAME__ << "()" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	moordyn::real casted = (moordyn::real)dt;
 	((moordyn::MoorDyn*)system)->SetDt(casted);
 	return MOORDYN_SUCCESS;
@@ -2812,6 +2817,11 @@ int DECLDIR
 MoorDyn_SetCFL(MoorDyn system, double cfl)
 {
 	CHECK_SYSTEM(system);
+	if (!(cfl > 0.0)) {
+		cerr << "Error: Invalid value, " << cfl << ", while calling "
+		     << __FUNC_NAME__ << "()" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	moordyn::real casted = (moordyn::real)cfl;
 	((moordyn::MoorDyn*)system)->SetCFL(casted);
 	return MOORDYN_SUCCESS;
-- 
2.43.0


From edfd5d8f1d77fdf4a7902fc99cc4cb5bc83e9567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:20 +0000
Subject: [PATCH 50/78] fix: let the Anderson scheme work with a single
 iteration and detached lines

The residues were read with no iteration storing them, and the matrices were
not resized when new points are created by a failure
---
 source/Time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index 2a845a8..0ffed09 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -540,7 +540,8 @@ AndersonSchemeBase<NSTATE, NDERIV>::qr(unsigned int iter,
                                        float dt)
 {
 	// Resize the matrices on demand
-	if (_X.rows() == 0) {
+	// Along the simulation points can be added due to line detachments
+	if (_X.rows() != ndof()) {
 		_n = ndof();
 		_x.resize(_n, 2);
 		_g.resize(_n, 2);
@@ -697,10 +698,9 @@ AndersonEulerScheme::Step(real& dt)
 		if (i < iters() - 1) {
 			qr(i, 1, 0, _dt_factor * dt);
 			rd[1] = rd[0];
+			if (this->converged())
+				break;
 		}
-
-		if (this->converged())
-			break;
 	}
 
 	// Apply
-- 
2.43.0


From ab4c674961ffd5f63be1ddc22537f53bca2af7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:23 +0000
Subject: [PATCH 51/78] fix: do not dereference the null vectors passed to Init
 and Step

They were detected and logged, but used anyway
---
 source/MoorDyn2.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index a5b6211..77e16f9 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -413,10 +413,11 @@ moordyn::MoorDyn::icStationary()
 moordyn::error_id
 moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 {
-	if (NCoupledDOF() && !x) {
+	if (NCoupledDOF() && (!x || !xd)) {
 		LOGERR << "ERROR: "
-		       << "MoorDyn::Init received a Null position vector, "
-		       << "but " << NCoupledDOF() << "components are required" << endl;
+		       << "MoorDyn::Init received a Null position or velocity vector, "
+		       << "but " << NCoupledDOF() << " components are required" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	// <<<<<<<<< need to add bodys
@@ -653,6 +654,7 @@ moordyn::MoorDyn::Step(const double* x,
 	if (NCoupledDOF() && (!x || !xd || !f)) {
 		LOGERR << "Null Pointer received in " << __FUNC_NAME__ << " ("
 		       << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	unsigned int ix = 0;
-- 
2.43.0


From 4bf20e3868f6a805439b6c695884c305952e2b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:38 +0000
Subject: [PATCH 52/78] fix: release the system when MoorDynInit() fails

Otherwise there is no way to free it
---
 source/MoorDyn.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn.cpp b/source/MoorDyn.cpp
index 42e2a21..c825eb5 100644
--- a/source/MoorDyn.cpp
+++ b/source/MoorDyn.cpp
@@ -148,8 +148,10 @@ MoorDynInit(const double x[], const double xd[], const char* infilename)
 		return MOORDYN_UNHANDLED_ERROR;
 
 	int err = MoorDyn_Init(instance, x, xd);
-	if (err)
+	if (err) {
+		MoorDyn_Close(instance); // We do not care if this fails
 		return err;
+	}
 
 	if (md_singleton)
 		MoorDyn_Close(md_singleton); // We do not care if this fails
-- 
2.43.0


From dd470ba1935378a9f8e30d627d0a60f946dfa55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:38 +0000
Subject: [PATCH 53/78] fix: do not return uninitialized memory as the tension
 of a missing line

---
 source/MoorDyn.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn.cpp b/source/MoorDyn.cpp
index c825eb5..838b85e 100644
--- a/source/MoorDyn.cpp
+++ b/source/MoorDyn.cpp
@@ -240,7 +240,8 @@ GetFairTen(int l)
 		return -1;
 	double t;
 	auto line = MoorDyn_GetLine(md_singleton, l);
-	MoorDyn_GetLineFairTen(line, &t);
+	if (MoorDyn_GetLineFairTen(line, &t) != MOORDYN_SUCCESS)
+		return -1;
 	return t;
 }
 
-- 
2.43.0


From 3d8936008f7c607cf4d04c43df229af3e13748d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:46 +0000
Subject: [PATCH 54/78] fix: ignore the failures of lines already detached

A failure of a line which was already detached (documented as ignored)
threw in the middle of detachLines(), failing the step and leaving behind
a spurious point unknown to the time scheme.
---
 source/MoorDyn2.cpp | 37 ++++++++++++++++++++++++++-----------
 source/Point.hpp    | 12 ++++++++++++
 source/Rod.hpp      | 13 +++++++++++++
 3 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 77e16f9..80b0ffe 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2314,6 +2314,30 @@ moordyn::MoorDyn::detachLines(FailProps* failure)
 		throw moordyn::unhandled_error("Invalid failure data");
 	}
 
+	// detach the lines from the old Rod or Point, ignoring the ones already
+	// detached by a previous failure
+	vector<unsigned int> detached;
+	for (unsigned int i = 0; i < failure->lines.size(); i++) {
+		Line* line = failure->lines[i];
+		const bool attached =
+		    failure->rod ? failure->rod->isAttached(failure->rod_end_point, line)
+		                 : failure->point->isAttached(line);
+		if (!attached) {
+			LOGWRN << "Line " << line->number
+			       << " is not attached anymore, so its failure is ignored"
+			       << endl;
+			continue;
+		}
+		if (failure->rod)
+			failure->line_end_points[i] =
+			    failure->rod->removeLine(failure->rod_end_point, line);
+		else
+			failure->line_end_points[i] = failure->point->removeLine(line);
+		detached.push_back(i);
+	}
+	if (detached.empty())
+		return;
+
 	// create new massless point for detached end(s) of line(s)
 	const real M = 0.0;
 	const real V = 0.0;
@@ -2355,18 +2379,9 @@ moordyn::MoorDyn::detachLines(FailProps* failure)
 		std::tie(pos, vel) = failure->point->getState();
 	}
 
-	// detach lines from old Rod or Point, and get kinematics of the
-	// old attachment point
-	for (unsigned int i = 0; i < failure->lines.size(); i++) {
-		if (failure->rod)
-			failure->line_end_points[i] = failure->rod->removeLine(
-			    failure->rod_end_point, failure->lines[i]);
-		else
-			failure->line_end_points[i] =
-			    failure->point->removeLine(failure->lines[i]);
-
+	// attach the detached lines to the new point
+	for (unsigned int i : detached)
 		obj->addLine(failure->lines[i], failure->line_end_points[i]);
-	}
 
 	// update point kinematics to match old line attachment point
 	// kinematics and set positions of attached line ends
diff --git a/source/Point.hpp b/source/Point.hpp
index 6374d8f..9a94516 100644
--- a/source/Point.hpp
+++ b/source/Point.hpp
@@ -242,6 +242,18 @@ class Point final : public io::IO, public SuperCFL
 	 */
 	inline std::vector<attachment> getLines() const { return attached; }
 
+	/** @brief Check if a line is attached to the point
+	 * @param line The line
+	 * @return true if the line is attached, false otherwise
+	 */
+	inline bool isAttached(const moordyn::Line* line) const
+	{
+		for (const auto& a : attached)
+			if (a.line == line)
+				return true;
+		return false;
+	}
+
 	/** @brief Initialize the FREE point state
 	 * @return The position (first) and the velocity (second)
 	 * @throws moordyn::invalid_value_error If it is not a FREE point
diff --git a/source/Rod.hpp b/source/Rod.hpp
index 77903ae..e0d7cd7 100644
--- a/source/Rod.hpp
+++ b/source/Rod.hpp
@@ -316,6 +316,19 @@ class Rod final : public io::IO, public SuperCFL
 	 */
 	EndPoints removeLine(EndPoints end_point, Line* line);
 
+	/** @brief Check if a line is attached to an end of the rod
+	 * @param end_point The rod end point
+	 * @param line The line
+	 * @return true if the line is attached, false otherwise
+	 */
+	inline bool isAttached(EndPoints end_point, const Line* line) const
+	{
+		for (const auto& a : (end_point == ENDPOINT_A) ? attachedA : attachedB)
+			if (a.line == line)
+				return true;
+		return false;
+	}
+
 	/** @brief Set the environmental data
 	 * @param waves_in Global Waves object
 	 * @param seafloor_in Global Seafloor object
-- 
2.43.0


From bfc2917ea81d19ce1fc79d921e9ab866add30f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:29 +0000
Subject: [PATCH 55/78] fix: keep the direction of fixed and coupled
 zero-length rods

The direction given in the input file was ignored, and the rod was always
aligned with the attached lines, so it could not be used as a cantilever
point as documented.
---
 source/MoorDyn2.cpp |  4 ++++
 source/Rod.cpp      | 13 ++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 80b0ffe..2e9e2eb 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2165,6 +2165,10 @@ moordyn::MoorDyn::readRod(string inputText)
 	           outfiles.back(),
 	           outchannels);
 
+	// the end B of a zero-length rod is its direction
+	if (NumSegs == 0)
+		endCoords.tail<3>() += endCoords.head<3>();
+
 	// depending on type, assign the Rod to its respective parent
 	// body
 	if (str::isOneOf(let1, { "ANCHOR", "FIXED", "FIX" }))
diff --git a/source/Rod.cpp b/source/Rod.cpp
index d99169d..623fd41 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -127,6 +127,10 @@ Rod::setup(int number_in,
 		// special case of zero-length rod, which is denoted by numsegs=0 in
 		// the intput file
 		q0 = vec::Zero();
+		// and the end B coordinates are its direction, which only matters if
+		// the rod is not free to align with the lines
+		if ((type == FIXED) || (type == COUPLED))
+			q0 = endCoords.tail<3>().normalized();
 		l.assign(1, 0.); // line unstretched segment lengths
 		V.assign(1, 0.); // segment volume?
 		UnstrLen = 0.0;  // set Rod length to zero
@@ -594,9 +598,12 @@ Rod::setDependentStates()
 	for (auto attached : attachedB)
 		attached.line->setEndKinematics(r[N], rd[N], attached.end_point);
 
-	// if this is a zero-length Rod, get bending moment-related information from
-	// attached lines and compute Rod's equilibrium orientation
-	if (N == 0) {
+	// if this is a zero-length Rod, its orientation is either prescribed, or
+	// computed to be in equilibrium with the bending moments of the attached
+	// lines
+	if ((N == 0) && ((type == FIXED) || (type == COUPLED))) {
+		q = r7.quat.normalized().toRotationMatrix() * q0;
+	} else if (N == 0) {
 		//		double qEnd[3];       // unit vector of attached line end
 		// segment, following same direction convention as Rod's q vector
 		// double EIend; // bending stiffness of attached line end segment
-- 
2.43.0


From f9aa84196446508804114f170ced8130752a6f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:16 +0000
Subject: [PATCH 56/78] fix: pass the end moment of cantilevered lines to their
 rods

The bending couple on the end segments of a line was not balanced by any
moment on the rod it is clamped to (endMomentA and endMomentB were always
null).
---
 source/Line.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index ad694e2..329696c 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -939,6 +939,9 @@ Line::getStateDeriv()
 		Pb[i] = vec::Zero();
 	}
 
+	endMomentA = vec::Zero();
+	endMomentB = vec::Zero();
+
 	// and now compute them (if possible)
 	if (isEI) {
 		// loop through all nodes to calculate bending forces
@@ -972,6 +975,9 @@ Line::getStateDeriv()
 					// apply these forces to the node forces
 					Bs[i] += Mforce_i;
 					Bs[i + 1] += Mforce_ip1;
+
+					// and the moment on the rod which balances them
+					endMomentA = Kurvi * EI * pvec[i];
 				}
 			}
 			// end node A case (only if attached to a Rod, i.e. a cantilever
@@ -1002,6 +1008,9 @@ Line::getStateDeriv()
 					// apply these forces to the node forces
 					Bs[i - 1] += Mforce_im1;
 					Bs[i] += Mforce_i;
+
+					// and the moment on the rod which balances them
+					endMomentB = -Kurvi * EI * pvec[i];
 				}
 			}
 			// internal node
-- 
2.43.0


From d611064ba09faf0190dd735fe3b51bb6a26d574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:45 +0000
Subject: [PATCH 57/78] fix: take the initial slope of a bending stiffness
 table for a straight line

A null stiffness left the zero-length rods without orientation.
---
 source/Line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 329696c..e4a86bb 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -84,8 +84,8 @@ Line::getNonlinearEI(real curv) const
 		return EI;
 
 	real Xi = curv;
-	if (Xi == 0.0)
-		return 0.0; // straight, no bending moment (and avoid 0/0)
+	if (Xi == 0.0) // straight, take the initial slope (and avoid 0/0)
+		return (bstiffYs[1] - bstiffYs[0]) / (bstiffXs[1] - bstiffXs[0]);
 	real Yi = interp(bstiffXs, bstiffYs, Xi);
 
 	// calculate equivalent bending stiffness (since that's what MoorDyn works
-- 
2.43.0


From bd748c980bedf64577690650aceb96e118749ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 58/78] fix: name the extension function behind UseBodyVTK in
 the Python wrapper

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 6363779..296661d 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -793,7 +793,7 @@ def UseBodyVTK(instance, filename):
     int: 0 uppon success, an error code otherwise
     """
     import cmoordyn
-    return cmoordyn.use_save_vtk(instance, filename)
+    return cmoordyn.body_use_vtk(instance, filename)
 
 #                                  Rod.h
 #  =============================================================================
-- 
2.43.0


From ccceb3b40202ac7c3c471ab30798a0b305237e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 59/78] fix: pass the line to IsLinePressBend in the Python
 wrapper

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 296661d..a07451b 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1146,7 +1146,7 @@ def IsLinePressBend(instance):
     b: True if the pressure bending of the line is enabled, False otherwise
     """
     import cmoordyn
-    return cmoordyn.line_is_pbend(b)
+    return cmoordyn.line_is_pbend(instance)
 
 
 def SetLinePressBend(instance, b):
-- 
2.43.0


From 72ad3c21fe96968b11faed2cabb7baed9c1c9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 60/78] fix: return the seabed force, not the Froude-Krylov
 one, from GetLineNodeSeabedForce in the Python wrapper

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index a07451b..f39713c 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1309,7 +1309,7 @@ def GetLineNodeSeabedForce(instance, i):
     f: The node force (a 3 components tuple)
     """
     import cmoordyn
-    return cmoordyn.line_get_node_froudekrylov(instance, i)
+    return cmoordyn.line_get_node_seabed(instance, i)
 
 
 def GetLineNodeCurv(instance, i):
-- 
2.43.0


From 3b6d6e42a8ef272dbc2dcc5ff2592cd7dcb15bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 61/78] fix: return the number of points from
 ExternalWaveKinGetN in the Python wrapper

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index f39713c..c5bf121 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -303,7 +303,7 @@ def ExternalWaveKinGetN(instance):
     int: The number of points
     """
     import cmoordyn
-    return cmoordyn.ext_wave_init(instance)
+    return cmoordyn.ext_wave_n(instance)
 
 
 def GetWaveKinCoordinates(instance):
-- 
2.43.0


From 7907d832e494b18b26fb318339dffe8f6b56f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 62/78] fix: make GetWavesKin of the Python wrapper callable

---
 wrappers/python/cmoordyn.cpp       | 2 +-
 wrappers/python/moordyn/moordyn.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index d1597aa..1fccfc8 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -1018,7 +1018,7 @@ waves_getkin(PyObject*, PyObject* args)
 {
 	PyObject* capsule;
 	double x, y, z;
-	PyObject* seafloor;
+	PyObject* seafloor = Py_None;
 
 	if (!PyArg_ParseTuple(args, "Oddd|O", &capsule, &x, &y, &z, &seafloor))
 		return NULL;
diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index c5bf121..75e843e 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -576,7 +576,7 @@ def SaveVTK(instance, filename):
 #  =============================================================================
 
 
-def GetWavesKin(instance, x, y, z, t, seafloor=None):
+def GetWavesKin(instance, x, y, z, seafloor=None):
     """ Get the wave kinematics
 
     Parameters:
@@ -584,7 +584,6 @@ def GetWavesKin(instance, x, y, z, t, seafloor=None):
     x (float): The x coordinate
     y (float): The y coordinate
     z (float): The z coordinate
-    t (float): The simulation time
     seafloor (cmoordyn.MoorDynSeafloor): The 3D seafloor instance
 
     Returns:
@@ -594,7 +593,7 @@ def GetWavesKin(instance, x, y, z, t, seafloor=None):
     pdyn: The dynamic pressure
     """
     import cmoordyn
-    return cmoordyn.waves_getkin(instance, x, y, z, t, seafloor)
+    return cmoordyn.waves_getkin(instance, x, y, z, seafloor)
 
 
 #                                  Seafloor.h
-- 
2.43.0


From af168cf17bce032f28195f5514aa3973c9f08fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 63/78] fix: read the whole flag of SetLinePressBend in the
 Python wrapper

---
 wrappers/python/cmoordyn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 1fccfc8..7a0552a 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -2235,7 +2235,7 @@ line_set_pbend(PyObject*, PyObject* args)
 	PyObject* capsule;
 	int b;
 
-	if (!PyArg_ParseTuple(args, "Ob", &capsule, &b))
+	if (!PyArg_ParseTuple(args, "Oi", &capsule, &b))
 		return NULL;
 
 	MoorDynLine instance =
-- 
2.43.0


From d30256288dd4bb2c286ab614d2fe098286a953bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 64/78] fix: check the data given to Deserialize in the Python
 wrapper

---
 wrappers/python/cmoordyn.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 7a0552a..11e0b77 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -919,11 +919,25 @@ deserialize(PyObject*, PyObject* args)
 
 	MoorDyn system =
 	    (MoorDyn)PyCapsule_GetPointer(capsule, moordyn_capsule_name);
-	if (!system || !PyBytes_Check(bytes))
+	if (!system)
 		return NULL;
 
 	char* array = PyBytes_AsString(bytes);
-	const int err = MoorDyn_Deserialize(system, (uint64_t*)array);
+	if (!array)
+		return NULL;
+	size_t array_size;
+	int err = MoorDyn_Serialize(system, &array_size, NULL);
+	if (err != 0) {
+		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
+		return NULL;
+	}
+	if ((size_t)PyBytes_GET_SIZE(bytes) != array_size) {
+		std::stringstream err;
+		err << "2nd argument must have " << array_size << " bytes";
+		PyErr_SetString(PyExc_ValueError, err.str().c_str());
+		return NULL;
+	}
+	err = MoorDyn_Deserialize(system, (uint64_t*)array);
 	if (err != 0) {
 		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
 		return NULL;
-- 
2.43.0


From c6a5ab2315d77bd75ad968365a891c5b37976cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:23 +0000
Subject: [PATCH 65/78] fix: release the memory of refused calls in the Python
 wrapper

---
 wrappers/python/cmoordyn.cpp | 41 +++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 11e0b77..6fc6250 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -239,16 +239,21 @@ init(PyObject*, PyObject* args)
 		std::stringstream err;
 		err << "1st argument must have " << n_dof << " components";
 		PyErr_SetString(PyExc_ValueError, err.str().c_str());
+		Py_DECREF(x_lst);
 		return NULL;
 	}
 
 	v_lst = PySequence_Fast(v_lst, "2nd argument must be iterable");
-	if (!v_lst)
+	if (!v_lst) {
+		Py_DECREF(x_lst);
 		return NULL;
+	}
 	if (PySequence_Fast_GET_SIZE(v_lst) != n_dof) {
 		std::stringstream err;
 		err << "2nd argument must have " << n_dof << " components";
 		PyErr_SetString(PyExc_ValueError, err.str().c_str());
+		Py_DECREF(x_lst);
+		Py_DECREF(v_lst);
 		return NULL;
 	}
 
@@ -258,6 +263,8 @@ init(PyObject*, PyObject* args)
 	double* v_arr = py_iterable_to_double(v_lst);
 	Py_DECREF(v_lst);
 	if ((!x_arr) || (!v_arr)) {
+		free(x_arr);
+		free(v_arr);
 		return NULL;
 	}
 
@@ -302,16 +309,21 @@ step(PyObject*, PyObject* args)
 		std::stringstream err;
 		err << "1st argument must have " << n_dof << " components";
 		PyErr_SetString(PyExc_ValueError, err.str().c_str());
+		Py_DECREF(x_lst);
 		return NULL;
 	}
 
 	v_lst = PySequence_Fast(v_lst, "2nd argument must be iterable");
-	if (!v_lst)
+	if (!v_lst) {
+		Py_DECREF(x_lst);
 		return NULL;
+	}
 	if (PySequence_Fast_GET_SIZE(v_lst) != n_dof) {
 		std::stringstream err;
 		err << "2nd argument must have " << n_dof << " components";
 		PyErr_SetString(PyExc_ValueError, err.str().c_str());
+		Py_DECREF(x_lst);
+		Py_DECREF(v_lst);
 		return NULL;
 	}
 
@@ -321,11 +333,15 @@ step(PyObject*, PyObject* args)
 	double* v_arr = py_iterable_to_double(v_lst);
 	Py_DECREF(v_lst);
 	if ((!x_arr) || (!v_arr)) {
+		free(x_arr);
+		free(v_arr);
 		return NULL;
 	}
 	double* forces;
 	forces = (double*)malloc(n_dof * sizeof(double));
 	if (!forces) {
+		free(x_arr);
+		free(v_arr);
 		PyErr_SetString(PyExc_MemoryError, "Failure allocating the forces");
 		return NULL;
 	}
@@ -337,6 +353,7 @@ step(PyObject*, PyObject* args)
 	free(v_arr);
 
 	if (err != 0) {
+		free(forces);
 		PyErr_SetString(PyExc_RuntimeError,
 		                "MoorDyn reported an error integrating");
 		return NULL;
@@ -557,16 +574,21 @@ ext_wave_set(PyObject*, PyObject* args)
 		std::stringstream err;
 		err << "1st argument must have " << n << " components";
 		PyErr_SetString(PyExc_ValueError, err.str().c_str());
+		Py_DECREF(v_lst);
 		return NULL;
 	}
 
 	a_lst = PySequence_Fast(a_lst, "2nd argument must be iterable");
-	if (!a_lst)
+	if (!a_lst) {
+		Py_DECREF(v_lst);
 		return NULL;
+	}
 	if (PySequence_Fast_GET_SIZE(a_lst) != n) {
 		std::stringstream err;
 		err << "2nd argument must have " << n << " components";
 		PyErr_SetString(PyExc_ValueError, err.str().c_str());
+		Py_DECREF(v_lst);
+		Py_DECREF(a_lst);
 		return NULL;
 	}
 
@@ -576,6 +598,8 @@ ext_wave_set(PyObject*, PyObject* args)
 	double* a_arr = py_iterable_to_double(a_lst);
 	Py_DECREF(a_lst);
 	if ((!v_arr) || (!a_arr)) {
+		free(v_arr);
+		free(a_arr);
 		return NULL;
 	}
 
@@ -822,6 +846,10 @@ get_fast_tens(PyObject*, PyObject* args)
 	float* anch_h_ten = (float*)malloc(num_lines * sizeof(float));
 	float* anch_v_ten = (float*)malloc(num_lines * sizeof(float));
 	if (!fair_h_ten || !fair_v_ten || !anch_h_ten || !anch_v_ten) {
+		free(fair_h_ten);
+		free(fair_v_ten);
+		free(anch_h_ten);
+		free(anch_v_ten);
 		PyErr_SetString(PyExc_MemoryError, "Failure allocating memory");
 		return NULL;
 	}
@@ -829,6 +857,10 @@ get_fast_tens(PyObject*, PyObject* args)
 	const int err = MoorDyn_GetFASTtens(
 	    system, &num_lines, fair_h_ten, fair_v_ten, anch_h_ten, anch_v_ten);
 	if (err != 0) {
+		free(fair_h_ten);
+		free(fair_v_ten);
+		free(anch_h_ten);
+		free(anch_v_ten);
 		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
 		return NULL;
 	}
@@ -895,6 +927,7 @@ serialize(PyObject*, PyObject* args)
 	}
 	err = MoorDyn_Serialize(system, NULL, (uint64_t*)array);
 	if (err != 0) {
+		free(array);
 		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
 		return NULL;
 	}
@@ -2291,6 +2324,7 @@ line_set_pint(PyObject*, PyObject* args)
 	int err;
 	err = MoorDyn_GetLineN(instance, &n);
 	if (err != 0) {
+		Py_DECREF(pvals);
 		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
 		return NULL;
 	}
@@ -2298,6 +2332,7 @@ line_set_pint(PyObject*, PyObject* args)
 		std::stringstream err;
 		err << "2nd argument must have " << n + 1 << " components";
 		PyErr_SetString(PyExc_ValueError, err.str().c_str());
+		Py_DECREF(pvals);
 		return NULL;
 	}
 
-- 
2.43.0


From 363f3a6ab0a2020690dd6b75f38c439592a66493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:12 +0000
Subject: [PATCH 66/78] fix: write no more external wave kinematics points than
 announced

---
 source/MoorDyn2.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 2e9e2eb..57cfcc8 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2641,7 +2641,10 @@ MoorDyn_ExternalWaveKinGetCoordinates(MoorDyn system, double* r)
 	string err_msg;
 	try {
 		auto r_list = ((moordyn::MoorDyn*)system)->ExternalWaveKinGetPoints();
-		for (unsigned int i = 0; i < r_list.size(); i++) {
+		// The caller has room for the announced number of points
+		const unsigned int n =
+		    ((moordyn::MoorDyn*)system)->ExternalWaveKinGetN();
+		for (unsigned int i = 0; i < n && i < r_list.size(); i++) {
 			const auto r_i = r_list[i];
 			for (unsigned int j = 0; j < 3; j++) {
 				r[3 * i + j] = r_i[j];
-- 
2.43.0


From 95af168885f9266c33c761431e7504f2d38f3d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:16 +0000
Subject: [PATCH 67/78] fix: write the rod end a line is attached to in the
 Python generator

---
 wrappers/python/moordyn/Generator/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Line.py b/wrappers/python/moordyn/Generator/Line.py
index 0cd76ef..a7297b9 100644
--- a/wrappers/python/moordyn/Generator/Line.py
+++ b/wrappers/python/moordyn/Generator/Line.py
@@ -176,7 +176,7 @@ class LinePoint():
         str: The point string
         """
         if isinstance(self.__obj, Rod):
-            return "R" + str(self.__obj.name)
+            return "R" + str(self.__obj.name) + str(self.__end_point)
         return str(self.__obj.name)
 
 
-- 
2.43.0


From 4bad93372541ff70cb43fdefa6abe4b5de667cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:16 +0000
Subject: [PATCH 68/78] fix: write the bodies of the Python generator as the
 input format demands

---
 wrappers/python/moordyn/Generator/Body.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wrappers/python/moordyn/Generator/Body.py b/wrappers/python/moordyn/Generator/Body.py
index 5fdd199..23bb829 100644
--- a/wrappers/python/moordyn/Generator/Body.py
+++ b/wrappers/python/moordyn/Generator/Body.py
@@ -1,3 +1,4 @@
+from math import degrees
 from .Entity import Entity, PropsList
 
 
@@ -45,7 +46,7 @@ class BodyPoint():
 class Body(Entity):
     """A body
     """
-    def __init__(self, t, p, r, m, cog, inertia, cda, v):
+    def __init__(self, t, p, r, m, cog, inertia, cda, v, ca):
         """Constructor
 
         Parameters
@@ -68,8 +69,8 @@ class Body(Entity):
         Entity.__init__(
             self,
             "BODIES",
-            field_names=["ID", "Type", "X   Y   Z  ", "Roll  Pitch Yaw", "Mass", "CoG", "Volume", "Inertia", "CdA", "Ca"],
-            field_units=["(#)", "(name)", "(m) (m) (m)", "(rad) (rad) (rad)", "(kg)", "(m)", "(m^3)", "(kg*m^2)", "(m^2)", "(-)"])
+            field_names=["ID", "Type", "X   Y   Z  ", "Roll  Pitch Yaw", "Mass", "CoG", "Inertia", "Volume", "CdA", "Ca"],
+            field_units=["(#)", "(name)", "(m) (m) (m)", "(deg) (deg) (deg)", "(kg)", "(m)", "(kg*m^2)", "(m^3)", "(m^2)", "(-)"])
         self.__name = 0
         self.__t = t
         self.__p = PropsList(p, " ")
@@ -176,10 +177,10 @@ class Body(Entity):
         self.set_values([self.__name,
                          self.__t,
                          self.__p,
-                         self.__r,
+                         PropsList([degrees(a) for a in self.__r.values], " "),
                          self.__m,
                          self.__cog,
-                         self.__v,
                          self.__I,
+                         self.__v,
                          self.__cda,
                          self.__ca])
-- 
2.43.0


From 115236bd66d0bef58bc75beead4ba59a11d0699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:16 +0000
Subject: [PATCH 69/78] fix: write the failures of the Python generator as the
 input format demands

---
 wrappers/python/moordyn/Generator/Failure.py | 22 ++++++++++++++------
 wrappers/python/moordyn/Generator/Mooring.py |  1 +
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/wrappers/python/moordyn/Generator/Failure.py b/wrappers/python/moordyn/Generator/Failure.py
index 901b356..917b3d2 100644
--- a/wrappers/python/moordyn/Generator/Failure.py
+++ b/wrappers/python/moordyn/Generator/Failure.py
@@ -19,21 +19,31 @@ class Failure(Entity):
         Entity.__init__(
             self,
             "FAILURE",
-            field_names=["Attach", "Lines", "FailTime", "FailTen"],
-            field_units=["(#)", "(#)", "(s)", "(N)"])
+            field_names=["ID", "Attach", "Lines", "FailTime", "FailTen"],
+            field_units=["(#)", "(#)", "(#)", "(s)", "(N)"])
+        self.__name = 0
         self.__point = point
         self.__lines = lines
         self.__time = time
         self.__ten = ten
         self.__set_values()
 
+    @property
+    def name(self):
+        return self.__name
+
+    @name.setter
+    def name(self, n):
+        self.__name = n
+        self.__set_values()
+
     @property
     def point(self):
-        return self.__con
+        return self.__point
 
     @point.setter
     def point(self, point):
-        self.__con = point
+        self.__point = point
         self.__set_values()
 
     @property
@@ -64,8 +74,8 @@ class Failure(Entity):
         self.__set_values()
 
     def __set_values(self):
-        l = PropsList([line.name for line in self.__lines], ",")
-        self.set_values([self.__con,
+        self.set_values([self.__name,
+                         self.__point,
                          PropsList([line.name for line in self.__lines], ","),
                          self.__time,
                          self.__ten])
diff --git a/wrappers/python/moordyn/Generator/Mooring.py b/wrappers/python/moordyn/Generator/Mooring.py
index 2ca5aae..df3aa48 100644
--- a/wrappers/python/moordyn/Generator/Mooring.py
+++ b/wrappers/python/moordyn/Generator/Mooring.py
@@ -54,6 +54,7 @@ class Mooring:
 
     def AddFailure(self, failure):
         self.__failures.append(failure)
+        failure.name = len(self.__failures)
 
     def AddOption(self, option):
         self.__options.append(option)
-- 
2.43.0


From 6ac02da85597e5353fb8d78c636d42ff85e3ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:16 +0000
Subject: [PATCH 70/78] fix: name the body a point of the Python generator is
 attached to

---
 wrappers/python/moordyn/Generator/Point.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Point.py b/wrappers/python/moordyn/Generator/Point.py
index 66f778b..d049c08 100644
--- a/wrappers/python/moordyn/Generator/Point.py
+++ b/wrappers/python/moordyn/Generator/Point.py
@@ -99,7 +99,8 @@ class Point(Entity):
 
     def __set_values(self):
         self.set_values([self.__name,
-                         self.__t,
+                         ("BODY" + str(self.__t.name)
+                          if isinstance(self.__t, Body) else self.__t),
                          self.__p,
                          self.__m,
                          self.__v,
-- 
2.43.0


From e94c3143176e0553bf6dd8456f1be66befba04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:16 +0000
Subject: [PATCH 71/78] fix: let the material of a rod of the Python generator
 be changed

---
 wrappers/python/moordyn/Generator/Rod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Rod.py b/wrappers/python/moordyn/Generator/Rod.py
index 46c4384..d06de2a 100644
--- a/wrappers/python/moordyn/Generator/Rod.py
+++ b/wrappers/python/moordyn/Generator/Rod.py
@@ -218,7 +218,7 @@ class Rod(Entity):
         return self.__mat
 
     @material.setter
-    def d(self, material):
+    def material(self, material):
         self.__mat = material
         self.__set_values()
 
-- 
2.43.0


From cc54cc678661077ae2a10cdd072fd53dd93fba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:13 +0000
Subject: [PATCH 72/78] fix: name and pass the verbosity of the Fortran wrapper
 as the library does

---
 wrappers/fortran/MoorDyn.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 26ebdc6..cb5e947 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -93,10 +93,10 @@ module moordyn
       integer(c_int), intent(out) :: n
     end function MD_NCoupledDOF
 
-    integer(c_int) function MD_SetVerbosity(instance, n) bind(c, name='MD_SetVerbosity')
+    integer(c_int) function MD_SetVerbosity(instance, n) bind(c, name='MoorDyn_SetVerbosity')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
     end function MD_SetVerbosity
 
     function MoorDyn_SetLogFile(instance, f) bind(c, name='MoorDyn_SetLogFile') result(rc)
-- 
2.43.0


From 17acf4f8744897540c6d665875793b58af22a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 73/78] fix: hand array sections of Fortran programs to the
 library as they are

---
 wrappers/fortran/MoorDyn.f90 | 86 ++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index cb5e947..0030245 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -731,25 +731,25 @@ contains
   integer function MD_Init(instance, x, xd)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: x(:)
-    real(c_double), intent(in), target :: xd(:)
+    real(c_double), intent(in), target, contiguous :: x(:)
+    real(c_double), intent(in), target, contiguous :: xd(:)
     MD_Init = MoorDyn_Init(instance, c_loc(x), c_loc(xd))
   end function MD_Init
 
   integer function MD_Init_NoIC(instance, x, xd)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: x(:)
-    real(c_double), intent(in), target :: xd(:)
+    real(c_double), intent(in), target, contiguous :: x(:)
+    real(c_double), intent(in), target, contiguous :: xd(:)
     MD_Init_NoIC = MoorDyn_Init_NoIC(instance, c_loc(x), c_loc(xd))
   end function MD_Init_NoIC
 
   integer function MD_Step(instance, x, xd, f, t, dt)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: x(:)
-    real(c_double), intent(in), target :: xd(:)
-    real(c_double), intent(in), target :: f(:)
+    real(c_double), intent(in), target, contiguous :: x(:)
+    real(c_double), intent(in), target, contiguous :: xd(:)
+    real(c_double), intent(inout), target, contiguous :: f(:)
     real(c_double), intent(inout) :: t
     real(c_double), intent(inout) :: dt
     MD_Step = MoorDyn_Step(instance, c_loc(x), c_loc(xd), c_loc(f), t, dt)
@@ -758,15 +758,15 @@ contains
   integer function MD_ExternalWaveKinGetCoordinates(instance, r)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_ExternalWaveKinGetCoordinates = MoorDyn_ExternalWaveKinGetCoordinates(instance, c_loc(r))
   end function MD_ExternalWaveKinGetCoordinates
 
   integer function MD_ExternalWaveKinSet(instance, u, ud, t)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: u(:)
-    real(c_double), intent(in), target :: ud(:)
+    real(c_double), intent(in), target, contiguous :: u(:)
+    real(c_double), intent(in), target, contiguous :: ud(:)
     real(c_double), intent(in) :: t
     MD_ExternalWaveKinSet = MoorDyn_ExternalWaveKinSet(instance, c_loc(u), c_loc(ud), t)
   end function MD_ExternalWaveKinSet
@@ -775,10 +775,10 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), intent(inout) :: n
-    real(c_double), intent(in), target :: fht(:)
-    real(c_double), intent(in), target :: fvt(:)
-    real(c_double), intent(in), target :: aht(:)
-    real(c_double), intent(in), target :: avt(:)
+    real(c_double), intent(inout), target, contiguous :: fht(:)
+    real(c_double), intent(inout), target, contiguous :: fvt(:)
+    real(c_double), intent(inout), target, contiguous :: aht(:)
+    real(c_double), intent(inout), target, contiguous :: avt(:)
     MD_GetFASTtens = MoorDyn_GetFASTtens(instance, n, c_loc(fht), c_loc(fvt), c_loc(aht), c_loc(avt))
   end function MD_GetFASTtens
 
@@ -813,8 +813,8 @@ contains
     real(c_double), value, intent(in) :: y
     real(c_double), value, intent(in) :: z
     real(c_double), value, intent(in) :: t
-    real(c_double), intent(in), target :: u(:)
-    real(c_double), intent(in), target :: ud(:)
+    real(c_double), intent(inout), target, contiguous :: u(:)
+    real(c_double), intent(inout), target, contiguous :: ud(:)
     real(c_double), intent(out) :: zeta
     real(c_double), intent(out) :: pdyn
     type(c_ptr), intent(in) :: seafloor
@@ -827,50 +827,50 @@ contains
   integer function MD_GetBodyState(instance, r, rd)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: r(:)
-    real(c_double), intent(in), target :: rd(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
+    real(c_double), intent(inout), target, contiguous :: rd(:)
     MD_GetBodyState = MoorDyn_GetBodyState(instance, c_loc(r), c_loc(rd))
   end function MD_GetBodyState
 
   integer function MD_GetBodyPos(instance, r)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetBodyPos = MoorDyn_GetBodyPos(instance, c_loc(r))
   end function MD_GetBodyPos
 
   integer function MD_GetBodyAngle(instance, r)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetBodyAngle = MoorDyn_GetBodyAngle(instance, c_loc(r))
   end function MD_GetBodyAngle
 
   integer function MD_GetBodyVel(instance, r)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetBodyVel = MoorDyn_GetBodyVel(instance, c_loc(r))
   end function MD_GetBodyVel
 
   integer function MD_GetBodyAngVel(instance, r)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetBodyAngVel = MoorDyn_GetBodyAngVel(instance, c_loc(r))
   end function MD_GetBodyAngVel
 
   integer function MD_GetBodyForce(instance, f)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: f(:)
+    real(c_double), intent(inout), target, contiguous :: f(:)
     MD_GetBodyForce = MoorDyn_GetBodyForce(instance, c_loc(f))
   end function MD_GetBodyForce
 
   integer function MD_GetBodyM(instance, m)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: m(:)
+    real(c_double), intent(inout), target, contiguous :: m(:)
     MD_GetBodyM = MoorDyn_GetBodyM(instance, c_loc(m))
   end function MD_GetBodyM
 
@@ -894,14 +894,14 @@ contains
   integer function MD_GetRodForce(instance, f)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: f(:)
+    real(c_double), intent(inout), target, contiguous :: f(:)
     MD_GetRodForce = MoorDyn_GetRodForce(instance, c_loc(f))
   end function MD_GetRodForce
 
   integer function MD_GetRodM(instance, m)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: m(:)
+    real(c_double), intent(inout), target, contiguous :: m(:)
     MD_GetRodM = MoorDyn_GetRodM(instance, c_loc(m))
   end function MD_GetRodM
 
@@ -909,7 +909,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetRodNodePos = MoorDyn_GetRodNodePos(instance, n, c_loc(r))
   end function MD_GetRodNodePos
 
@@ -917,7 +917,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetRodNodeVel = MoorDyn_GetRodNodeVel(instance, n, c_loc(r))
   end function MD_GetRodNodeVel
 
@@ -934,28 +934,28 @@ contains
   integer function MD_GetPointPos(instance, r)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetPointPos = MoorDyn_GetPointPos(instance, c_loc(r))
   end function MD_GetPointPos
 
   integer function MD_GetPointVel(instance, r)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetPointVel = MoorDyn_GetPointVel(instance, c_loc(r))
   end function MD_GetPointVel
 
   integer function MD_GetPointForce(instance, r)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetPointForce = MoorDyn_GetPointForce(instance, c_loc(r))
   end function MD_GetPointForce
 
   integer function MD_GetPointM(instance, m)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: m(:)
+    real(c_double), intent(inout), target, contiguous :: m(:)
     MD_GetPointM = MoorDyn_GetPointM(instance, c_loc(m))
   end function MD_GetPointM
 
@@ -972,7 +972,7 @@ contains
   integer function MD_SetLinePressInt(instance, p)
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
-    real(c_double), intent(in), target :: p(:)
+    real(c_double), intent(in), target, contiguous :: p(:)
     MD_SetLinePressInt = MoorDyn_SetLinePressInt(instance, c_loc(p))
   end function MD_SetLinePressInt
 
@@ -980,7 +980,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodePos = MoorDyn_GetLineNodePos(instance, n, c_loc(r))
   end function MD_GetLineNodePos
 
@@ -988,7 +988,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodeVel = MoorDyn_GetLineNodeVel(instance, n, c_loc(r))
   end function MD_GetLineNodeVel
 
@@ -996,7 +996,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodeForce = MoorDyn_GetLineNodeForce(instance, n, c_loc(r))
   end function MD_GetLineNodeForce
 
@@ -1004,7 +1004,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodeTen = MoorDyn_GetLineNodeTen(instance, n, c_loc(r))
   end function MD_GetLineNodeTen
 
@@ -1012,7 +1012,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodeBendStiff = MoorDyn_GetLineNodeBendStiff(instance, n, c_loc(r))
   end function MD_GetLineNodeBendStiff
 
@@ -1020,7 +1020,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodeWeight = MoorDyn_GetLineNodeWeight(instance, n, c_loc(r))
   end function MD_GetLineNodeWeight
 
@@ -1028,7 +1028,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodeDrag = MoorDyn_GetLineNodeDrag(instance, n, c_loc(r))
   end function MD_GetLineNodeDrag
 
@@ -1036,7 +1036,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodeFroudeKrilov = MoorDyn_GetLineNodeFroudeKrilov(instance, n, c_loc(r))
   end function MD_GetLineNodeFroudeKrilov
 
@@ -1044,7 +1044,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodeSeabedForce = MoorDyn_GetLineNodeSeabedForce(instance, n, c_loc(r))
   end function MD_GetLineNodeSeabedForce
 
@@ -1052,7 +1052,7 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), value, intent(in) :: n
-    real(c_double), intent(in), target :: r(:)
+    real(c_double), intent(inout), target, contiguous :: r(:)
     MD_GetLineNodeM = MoorDyn_GetLineNodeM(instance, n, c_loc(r))
   end function MD_GetLineNodeM
 
-- 
2.43.0


From dc4c351e540f6c4acd7ca5efa17d4bfa7eb0f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 74/78] fix: pass the log levels of the Fortran wrapper by
 value

---
 wrappers/fortran/MoorDyn.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 0030245..ef09e35 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -109,13 +109,13 @@ module moordyn
     integer(c_int) function MD_SetLogLevel(instance, n) bind(c, name='MoorDyn_SetLogLevel')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
     end function MD_SetLogLevel
 
     function MoorDyn_Log(instance, n, f) bind(c, name='MoorDyn_Log') result(rc)
       import :: c_ptr, c_int, c_char
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
       character(kind=c_char), intent(in) :: f(*)
       integer(c_int) :: rc
     end function MoorDyn_Log
-- 
2.43.0


From 2e7d385f117532ca893c5cf65f3c293cc6a4fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 75/78] fix: pass the line controls of the Fortran wrapper by
 value

---
 wrappers/fortran/MoorDyn.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index ef09e35..5fa396d 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -554,7 +554,7 @@ module moordyn
     integer(c_int) function MD_SetLineConstantEA(instance, ea) bind(c, name='MoorDyn_SetLineConstantEA')
       import :: c_ptr, c_double, c_int
       type(c_ptr), value, intent(in) :: instance
-      real(c_double), intent(out) :: ea
+      real(c_double), value, intent(in) :: ea
     end function MD_SetLineConstantEA
 
     integer(c_int) function MD_IsLinePressBend(instance, t) bind(c, name='MoorDyn_IsLinePressBend')
@@ -566,7 +566,7 @@ module moordyn
     integer(c_int) function MD_SetLinePressBend(instance, b) bind(c, name='MoorDyn_SetLinePressBend')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(out) :: b
+      integer(c_int), value, intent(in) :: b
     end function MD_SetLinePressBend
 
     function MoorDyn_SetLinePressInt(instance, p) bind(c, name='MoorDyn_SetLinePressInt') result(rc)
-- 
2.43.0


From 46eb3bc64218d308aab5f5a62b8c1190bb5ba9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 76/78] fix: pass the time of the external water of the Fortran
 wrapper by value

---
 wrappers/fortran/MoorDyn.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 5fa396d..8fd5600 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -186,7 +186,7 @@ module moordyn
       type(c_ptr), value, intent(in) :: instance
       type(c_ptr), value, intent(in) :: u
       type(c_ptr), value, intent(in) :: ud
-      real(c_double), intent(in) :: t
+      real(c_double), value, intent(in) :: t
       integer(c_int) :: rc
     end function MoorDyn_ExternalWaveKinSet
 
-- 
2.43.0


From 2bbc4c60398fc0d29ca74cb32f9fd74cd0865617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 77/78] fix: convert the tensions of GetFASTtens in the Fortran
 wrapper

---
 wrappers/fortran/MoorDyn.f90 | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 8fd5600..8d6f0ad 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -779,7 +779,16 @@ contains
     real(c_double), intent(inout), target, contiguous :: fvt(:)
     real(c_double), intent(inout), target, contiguous :: aht(:)
     real(c_double), intent(inout), target, contiguous :: avt(:)
-    MD_GetFASTtens = MoorDyn_GetFASTtens(instance, n, c_loc(fht), c_loc(fvt), c_loc(aht), c_loc(avt))
+    real(c_float), target :: tens(max(n, 1), 4)
+    integer :: i
+    MD_GetFASTtens = MoorDyn_GetFASTtens(instance, n, c_loc(tens(1, 1)), c_loc(tens(1, 2)), c_loc(tens(1, 3)), c_loc(tens(1, 4)))
+    if (MD_GetFASTtens /= MD_SUCESS) return
+    do i = 1, n
+      fht(i) = tens(i, 1)
+      fvt(i) = tens(i, 2)
+      aht(i) = tens(i, 3)
+      avt(i) = tens(i, 4)
+    end do
   end function MD_GetFASTtens
 
   integer function MD_Save(instance, f)
-- 
2.43.0


From e40b5da24f2980f11ca1876d875c586e5830c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 78/78] fix: keep the end moments of lines in the snapshots

---
 source/Line.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index e4a86bb..bb5bccd 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1436,6 +1436,10 @@ Line::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(F);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(endMomentA);
+	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(endMomentB);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 	// Values that can be modified along the simulation
 	data.push_back(io::IO::Serialize(UnstrLen));
 	data.push_back(io::IO::Serialize(UnstrLen0));
@@ -1474,6 +1478,8 @@ Line::Deserialize(const uint64_t* data)
 	ptr = io::IO::DeserializeList(ptr, B);
 	ptr = io::IO::DeserializeList(ptr, Fnet);
 	ptr = io::IO::DeserializeList(ptr, F);
+	ptr = io::IO::Deserialize(ptr, endMomentA);
+	ptr = io::IO::Deserialize(ptr, endMomentB);
 	ptr = io::IO::Deserialize(ptr, UnstrLen);
 	ptr = io::IO::Deserialize(ptr, UnstrLen0);
 	ptr = io::IO::Deserialize(ptr, UnstrLend);
-- 
2.43.0

