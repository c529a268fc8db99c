From 6d9e203495086f4a3b98c85c6470274ef8609ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 001/246] fix: interpolated rectellipse accepts points outside
 a narrower rear rectangle width

---
 Merlin++/InterpolatedApertures.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 75ba1bf..84fd9a9 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -101,7 +101,7 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 		}
 	}
 
-	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apFront.ap1, apBack.ap2, apBack.ap3,
+	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apBack.ap1, apBack.ap2, apBack.ap3,
 						 apBack.ap4});
 	if(ax + ay < minDim)
 	{
-- 
2.43.0


From 722dfd084c631b07bc18a277d93285a94fe37556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 002/246] fix: interpolated ellipse ignores the vertical
 semi-axis

---
 Merlin++/InterpolatedApertures.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 84fd9a9..dcc9346 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -325,11 +325,13 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
+			apBack.ap2 = ApList[n - 1].ap2;
 
 			apFront.s = ApList[n].s;
 			apFront.ap1 = ApList[n].ap1;
+			apFront.ap2 = ApList[n].ap2;
 
-			double minDim = min({apFront.ap1, apBack.ap1});
+			double minDim = min({apFront.ap1, apFront.ap2, apBack.ap1, apBack.ap2});
 			if(ax + ay < minDim)
 			{
 				return true;
@@ -373,7 +375,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap1 - (g2 * apFront.s);
+	double c2 = apFront.ap2 - (g2 * apFront.s);
 
 	double ellipse_half_horizontal = (g1 * z) + c1;
 	double ellipse_half_vertical = (g2 * z) + c2;
-- 
2.43.0


From 6f1e914de8a5aea821f81ec9c49935bdf725584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 003/246] fix: setting a collimator entrance width or height
 has no effect

---
 Merlin++/CollimatorAperture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 2ef3891..060cfd6 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -43,11 +43,15 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 void CollimatorAperture::SetEntranceWidth(double width)
 {
 	w_entrance = width;
+	rectHalfX = width / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetEntranceHeight(double height)
 {
 	h_entrance = height;
+	rectHalfY = height / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetExitWidth(double width)
-- 
2.43.0


From 9dffb14a4d6d5aeb4867737f43b88c5bd845d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:37 +0000
Subject: [PATCH 004/246] fix: tapered collimator accepts points outside a
 narrower exit opening

---
 Merlin++/CollimatorAperture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 060cfd6..525c752 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -25,7 +25,7 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 	{
 		double ax = fabs(x);
 		double ay = fabs(y);
-		if(ax + ay < minDim)
+		if(ax + ay < minDim && (ax + ay) * 2 < fmin(w_exit, h_exit))
 			return true;
 	}
 	double x_off = (z * (x_offset_entry - x_offset_exit) / CollimatorLength) - x_offset_entry;
-- 
2.43.0


From 72b1e4d8ad8fa0ef259bd0b3d6d97720d7ea0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 005/246] fix: string pattern ending in a literal misses
 strings in which that literal also occurs earlier

---
 Merlin++/StringPattern.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index 7c2f62c..d485421 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -83,6 +83,12 @@ bool StringPattern::Match(const std::string& s) const
 			return false;
 		}
 
+		if(allowFloat && !wcterm.second && i + 1 == patterns.end())
+		{
+			// the last literal must be found at the very end of s
+			return s.length() - n >= (*i).length() && s.compare(s.length() - (*i).length(), string::npos, *i) == 0;
+		}
+
 		if(allowFloat)
 		{
 			n = s.find(*i, n);
-- 
2.43.0


From e514b98e7b6a9fe004d4dab2785c9d93a74c24b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 006/246] fix: printing an ORed string pattern does not give
 the original pattern

---
 Merlin++/StringPattern.cpp | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index d485421..3f00796 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -123,24 +123,7 @@ bool StringPattern::Match(const std::string& s) const
 
 ostream& operator <<(ostream& os, const StringPattern& pattern)
 {
-	if(pattern.wcterm.first)
-	{
-		os << StringPattern::wcchar;
-	}
-	for(size_t n = 0; n < pattern.patterns.size(); n++)
-	{
-		if(n != 0)
-		{
-			os << StringPattern::wcchar;
-		}
-		os << pattern.patterns[n];
-	}
-	if(pattern.wcterm.second)
-	{
-		os << StringPattern::wcchar;
-	}
-
-	return os;
+	return os << pattern.str;
 }
 
 inline string::const_iterator SkipWC(string::const_iterator first, string::const_iterator last, char dchar)
-- 
2.43.0


From e41f595e908437960bd7485e95d0a885ab2e63f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:25 +0000
Subject: [PATCH 007/246] fix: literal flag of an ORed string pattern is
 uninitialised and copied

---
 Merlin++/StringPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index 3f00796..f2ab88d 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -16,7 +16,7 @@
 char StringPattern::wcchar = '*';
 
 StringPattern::StringPattern(const std::string& s) :
-	str(s)
+	isLiteral(false), str(s)
 {
 	// First check if the string contains ORed patterns:
 	DelimitString(s, '|', patterns);
-- 
2.43.0


From cef9dba571f453e1bf67a2b212a2318ec7901eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:54 +0000
Subject: [PATCH 008/246] fix: TFS reader drops empty strings, so that tables
 with empty cells cannot be read back

---
 Merlin++/DataTableTFS.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index cff913f..647db29 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -54,19 +54,22 @@ static std::vector<std::string> split_line(std::string line)
 	std::string current;
 	current.reserve(64);
 	bool double_quote_on = false;
+	bool quoted = false;
 
 	for(auto c : line)
 	{
 		if(c == '"')
 		{
 			double_quote_on = !double_quote_on;
+			quoted = true; // even "" is a value
 		}
 		else if(!double_quote_on && whitespace.find(c) != std::string::npos)
 		{
-			if(current.length())
+			if(current.length() || quoted)
 			{
 				sl.push_back(current);
 				current = "";
+				quoted = false;
 			}
 		}
 		else
@@ -74,7 +77,7 @@ static std::vector<std::string> split_line(std::string line)
 			current += c;
 		}
 	}
-	if(current.length())
+	if(current.length() || quoted)
 	{
 		sl.push_back(current);
 	}
-- 
2.43.0


From a8bccf5da29581e6bc53251e1c73120cf0fae013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:54 +0000
Subject: [PATCH 009/246] fix: TFS reader crashes on text without column names
 or types

---
 Merlin++/DataTableTFS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index 647db29..5794132 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -118,7 +118,7 @@ DataTable DataTableReaderTFS::Read()
 	}
 
 	//Read column names
-	if(words[0] != "*")
+	if(words.empty() || words[0] != "*")
 	{
 		throw BadFormatException("Expected line starting with '*' or '@' at line " + std::to_string(line_number));
 	}
@@ -131,7 +131,7 @@ DataTable DataTableReaderTFS::Read()
 	getline(*in, line);
 	line_number++;
 	words = split_line(line);
-	if(words[0] != "$")
+	if(words.empty() || words[0] != "$")
 	{
 		throw BadFormatException("Expected line starting with '$' at line " + std::to_string(line_number));
 	}
-- 
2.43.0


From 8059317a646ed8ef3062b0f3dd3b6d706c141e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:57 +0000
Subject: [PATCH 010/246] fix: thin-lens tracking rotates skew quadrupoles the
 wrong way

The linear map of a quadrupole with a skew component was rotated by the
opposite angle, so that its gradient had the sign of the skew field reversed.
---
 Merlin++/StdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 4fd16e7..d90a70d 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -307,8 +307,8 @@ void RectMultipoleCI::TrackStep(double ds)
 			double a = arg(cK1) / 2;
 			RealMatrix Rr(4, 4);
 			TransportMatrix::Srot(a, Rr);
-			M.R = Rr * M.R * Transpose(Rr);
-			M.T = Rr * M.T * Transpose(Rr);
+			M.R = Transpose(Rr) * M.R * Rr;
+			M.T = Transpose(Rr) * M.T * Rr;
 		}
 
 		M.Apply(currentBunch->GetParticles());
-- 
2.43.0


From f3ba8426122fd37530903cb64c4d7ab045efff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:57 +0000
Subject: [PATCH 011/246] fix: transport maps of skew quadrupoles and
 sextupoles have the wrong sign

The bunch was rotated by the opposite angle to that of the field component, and
the kick of the other multipoles was not that of the field in the frame of the
component.
---
 Merlin++/TransportIntegrators.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 3a316fd..043c032 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -388,7 +388,7 @@ void RectMultipoleCI::TrackStep(double ds)
 
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, -phi);
+			RotateBunchAboutZ(*currentBunch, phi);
 		}
 
 		RTMap* M = QuadrupoleTM(len, K1);
@@ -397,7 +397,16 @@ void RectMultipoleCI::TrackStep(double ds)
 		{
 			Complex b1 = field.GetCoefficient(1);
 			field.SetCoefficient(1, Complex(0));
-			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q, -phi));
+			// the kick is that of the field in the frame of the component
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, -phi);
+			}
+			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q));
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, phi);
+			}
 			// Apply second half of map
 			ApplyMapToBunch(*currentBunch, M);
 			field.SetCoefficient(1, b1);
@@ -405,7 +414,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		delete M;
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, phi);
+			RotateBunchAboutZ(*currentBunch, -phi);
 		}
 	}
 	else if(cK2 != 0.0)   // sextupole R+T matrix with thin-lens kicks for other multipoles
@@ -425,7 +434,7 @@ void RectMultipoleCI::TrackStep(double ds)
 
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, -phi);
+			RotateBunchAboutZ(*currentBunch, phi);
 		}
 
 		RTMap* M = SextupoleTM(len, K2);
@@ -434,7 +443,16 @@ void RectMultipoleCI::TrackStep(double ds)
 		{
 			Complex b2 = field.GetCoefficient(2);
 			field.SetCoefficient(2, Complex(0));
-			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q, -phi));
+			// the kick is that of the field in the frame of the component
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, -phi);
+			}
+			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q));
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, phi);
+			}
 			// Apply second half of map
 			ApplyMapToBunch(*currentBunch, M);
 			field.SetCoefficient(2, b2);
@@ -442,7 +460,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		delete M;
 		if(!fequal(phi, 0))
 		{
-			RotateBunchAboutZ(*currentBunch, phi);
+			RotateBunchAboutZ(*currentBunch, -phi);
 		}
 	}
 	else   // drift with a kick in the middle
-- 
2.43.0


From 24ed4211c3d4f2a69c1ab3e097e14a8ea9d2008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:57 +0000
Subject: [PATCH 012/246] fix: symplectic tracking of multipoles is not
 symplectic and kicks twice

A magnet with a quadrupole and other components was tracked with a matrix for
slopes instead of momenta, kicked twice and followed by another drift, and skew
components were rotated the wrong way.
---
 Merlin++/SymplecticIntegrators.cpp | 70 ++++++++++++------------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index c9fd6fe..b0d7ed5 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -697,6 +697,29 @@ inline void ApplyQuadrupoleMap(ParticleBunch* bunch, double k1, double ds)
 	}
 }
 
+// Quadrupole rotated by phi about the beam axis (a drift if there is no gradient)
+inline void ApplyRotatedQuadrupoleMap(ParticleBunch* bunch, double k1, double phi, double ds)
+{
+	if(k1 == 0)
+	{
+		ApplyDriftMap(bunch, ds);
+		return;
+	}
+
+	RMtrx Rr(2);
+	if(phi != 0)
+	{
+		TransportMatrix::Srot(phi, Rr.R);
+		Rr.Apply(bunch->GetParticles());
+	}
+	ApplyQuadrupoleMap(bunch, k1, ds);
+	if(phi != 0)
+	{
+		TransportMatrix::Srot(-phi, Rr.R);
+		Rr.Apply(bunch->GetParticles());
+	}
+}
+
 inline void ApplyRFStructureMap(ParticleBunch* bunch, double Vnorm, double Verr, double kval, double phase, double
 	phaseErr, RMtrx& RM, bool full_accel)
 {
@@ -985,55 +1008,18 @@ void RectMultipoleCI::TrackStep(double ds)
 	bool splitMagnet = field.GetCoefficient(0) != 0.0 || field.HighestMultipole() > 1;
 	double len = splitMagnet ? ds / 2 : ds;
 
-	RdpMtrx M(2);
+	const double K1 = cK1.imag() == 0 ? cK1.real() : abs(cK1);
+	// A skew component rotates the quadrupole about the beam axis
+	const double phi = cK1.imag() == 0 ? 0 : arg(cK1) / 2;
 
-	if(cK1 != 0.0)
-	{
-		double K1 = cK1.imag() == 0 ? cK1.real() : abs(cK1);
-		TransportMatrix::QuadrupoleR(len, K1, M.R);
-		TransportMatrix::QuadrupoleT(len, K1, M.T);
-
-		if(cK1.imag() != 0)
-		{
-			// Need to rotate the map
-			double a = arg(cK1) / 2;
-			RealMatrix Rr(4, 4);
-			TransportMatrix::Srot(a, Rr);
-			M.R = Rr * M.R * Transpose(Rr);
-			M.T = Rr * M.T * Transpose(Rr);
-		}
-
-		M.Apply(currentBunch->GetParticles());
-
-		if(splitMagnet)
-		{
-			Complex b1 = field.GetCoefficient(1);
-			field.SetCoefficient(1, Complex(0));
-			if(cK1 != 0.0)
-			{
-				double phi = arg(cK1) / 2;
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q, -phi));
-			}
-			else
-			{
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-			}
-			M.Apply(currentBunch->GetParticles());
-			field.SetCoefficient(1, b1);
-		}
-
-	}
-	else
-	{
-		ApplyDriftMap(currentBunch, len);
-	}
+	ApplyRotatedQuadrupoleMap(currentBunch, K1, phi, len);
 
 	if(splitMagnet)
 	{
 		Complex b1 = field.GetCoefficient(1);
 		field.SetCoefficient(1, Complex(0));
 		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-		ApplyDriftMap(currentBunch, len);
+		ApplyRotatedQuadrupoleMap(currentBunch, K1, phi, len);
 		field.SetCoefficient(1, b1);
 	}
 }
-- 
2.43.0


From cea3bcc644b33c9a010d4f4b85c14a1439af3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:57 +0000
Subject: [PATCH 013/246] fix: chromatic terms of the second order bend maps
 are those of momenta, not slopes

All the maps act on slopes.  T126, T266, T346 and T526 of the sector bend and T112 of
the combined function bend lacked the conversion from canonical momenta.
---
 Merlin++/BasicTransportMaps.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 80a5d06..bf0b324 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -66,22 +66,24 @@ RTMap* SectorBendTM(double s, double h, double gamma)
 	rtMap(1, 1, 2) = h * sx * cx;
 	rtMap(1, 1, 6) = a12;
 	rtMap(1, 2, 2) = a2 * a3 * pow(a14, 2);
-	rtMap(1, 2, 6) = (((h * h) / (4 * beta) * (sx * dx + cx * J1)) - ((1 / (4 * beta)) * (sx + s * cx))) * 2.0;
+	// The chromatic terms below contain the conversion between canonical momenta and slopes, since
+	// all the maps act on slopes
+	rtMap(1, 2, 6) = (((h * h) / (4 * beta) * (sx * dx + cx * J1)) - ((1 / (4 * beta)) * (sx + s * cx))) * 2.0 + sx;
 	rtMap(1, 6, 6) = -(a12 * a3) / 2.;
 	rtMap(1, 4, 4) = (a10 * a3) / 2.;
 
 //133,134 both zero?
 	rtMap(2, 2, 2) = a15;
 	rtMap(2, 4, 4) = a15;
-	rtMap(2, 6, 6) = -h * sx / (2 * beta * beta * gamma * gamma);
+	rtMap(2, 6, 6) = -h * sx / (2 * beta * beta * gamma * gamma) - a4;
 
 	rtMap(3, 1, 4) = a4;
 	rtMap(3, 2, 4) = a8;
-	rtMap(3, 4, 6) = ((h * h * J1 * cy / (2 * beta)) - ((sy + (s * cy)) / (4 * beta))) * 2;
+	rtMap(3, 4, 6) = ((h * h * J1 * cy / (2 * beta)) - ((sy + (s * cy)) / (4 * beta))) * 2 + sy;
 
 	rtMap(5, 2, 2) = a16;
 	rtMap(5, 1, 6) = (h * sx / (2 * beta * beta * gamma * gamma)) * 2;
-	rtMap(5, 2, 6) = (h * dx / (2 * beta * beta * gamma * gamma)) * 2;
+	rtMap(5, 2, 6) = (h * dx / (2 * beta * beta * gamma * gamma)) * 2 + a11;
 	rtMap(5, 6, 6) = 3 * (h * h * J1 - s) / (2 * beta * beta * beta * gamma * gamma);
 	rtMap(5, 4, 4) = a16;
 
@@ -400,7 +402,7 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 
 	// Matrix terms
 	rtMap(1, 1, 1) = (a11 * a13 * a7) / 3. + (a1 * a6 * h) / 6.;
-	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3.;
+	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3. + h * sx;
 	rtMap(1, 1, 6) = a18 + 2 * a11 * a19 * a20 * (a21 + (a22 + a5) / 3.) - (a14 * a6) / 3.;
 	rtMap(1, 2, 2) = (a11 * a20 * a6 * a7) / 3. + (a13 * h) / 6.;
 	rtMap(1, 2, 6) = (a14 * a17 * a20 * a24) / 2. + (dx * h * sx) / 3. + 2 * a11 * a19 * a20 * ((a20 * a24) / 2. - (a2
-- 
2.43.0


From 938b720dbf119a57e346778e087c4a60675d4c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:21 +0000
Subject: [PATCH 014/246] fix: thin-lens and symplectic tracking tilt bends the
 wrong way and not their pole faces

The tilt was applied around each step of the body only, and in the opposite
direction to that of the transport maps and of the tilt in MAD.
---
 Merlin++/StdIntegrators.cpp        | 28 ++++++++---------
 Merlin++/SymplecticIntegrators.cpp | 50 +++++++++++++++---------------
 2 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index d90a70d..8a03a89 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -181,15 +181,6 @@ void SectorBendCI::TrackStep(double ds)
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 
-	double tilt = (*currentComponent).GetGeometry().GetTilt();
-
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
-
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double q = currentBunch->GetChargeSign();
@@ -234,6 +225,12 @@ void SectorBendCI::TrackStep(double ds)
 		field.SetCoefficient(1, b1);
 	}
 
+	return;
+}
+
+void SectorBendCI::TrackEntrance()
+{
+	const double tilt = currentComponent->GetGeometry().GetTilt();
 	if(tilt != 0)
 	{
 		RMtrx Rr;
@@ -241,11 +238,6 @@ void SectorBendCI::TrackStep(double ds)
 		Rr.Apply(currentBunch->GetParticles());
 	}
 
-	return;
-}
-
-void SectorBendCI::TrackEntrance()
-{
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
@@ -262,6 +254,14 @@ void SectorBendCI::TrackExit()
 	{
 		ApplyPoleFaceRotation(h, *pfi.exit);
 	}
+
+	const double tilt = currentComponent->GetGeometry().GetTilt();
+	if(tilt != 0)
+	{
+		RMtrx Rr;
+		TransportMatrix::Srot(tilt, Rr.R);
+		Rr.Apply(currentBunch->GetParticles());
+	}
 }
 
 void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& pf)
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index b0d7ed5..fc5f39a 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -747,6 +747,14 @@ void DriftCI::TrackStep(double ds)
 
 void SectorBendCI::TrackEntrance()
 {
+	const double tilt = currentComponent->GetGeometry().GetTilt();
+	if(tilt != 0)
+	{
+		RMtrx Rr;
+		TransportMatrix::Srot(-tilt, Rr.R);
+		Rr.Apply(currentBunch->GetParticles());
+	}
+
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
@@ -763,21 +771,20 @@ void SectorBendCI::TrackExit()
 	{
 		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
 	}
-}
-
-void SectorBendCI::TrackStep(double ds)
-{
-
-	double h = currentComponent->GetGeometry().GetCurvature();
-
-	double tilt = currentComponent->GetGeometry().GetTilt();
 
+	const double tilt = currentComponent->GetGeometry().GetTilt();
 	if(tilt != 0)
 	{
 		RMtrx Rr;
 		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
+}
+
+void SectorBendCI::TrackStep(double ds)
+{
+
+	double h = currentComponent->GetGeometry().GetCurvature();
 
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
@@ -853,17 +860,18 @@ void SectorBendCI::TrackStep(double ds)
 		field.SetCoefficient(0, b0);
 		field.SetCoefficient(1, b1);
 	}
+}
 
+void SectorBendCI_ef::TrackEntrance()
+{
+	const double tilt = currentComponent->GetGeometry().GetTilt();
 	if(tilt != 0)
 	{
 		RMtrx Rr;
 		TransportMatrix::Srot(-tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
-}
 
-void SectorBendCI_ef::TrackEntrance()
-{
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
@@ -880,20 +888,19 @@ void SectorBendCI_ef::TrackExit()
 	{
 		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
 	}
-}
-
-void SectorBendCI_ef::TrackStep(double ds)
-{
-	double h = currentComponent->GetGeometry().GetCurvature();
-
-	double tilt = currentComponent->GetGeometry().GetTilt();
 
+	const double tilt = currentComponent->GetGeometry().GetTilt();
 	if(tilt != 0)
 	{
 		RMtrx Rr;
 		TransportMatrix::Srot(tilt, Rr.R);
 		Rr.Apply(currentBunch->GetParticles());
 	}
+}
+
+void SectorBendCI_ef::TrackStep(double ds)
+{
+	double h = currentComponent->GetGeometry().GetCurvature();
 
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
@@ -969,13 +976,6 @@ void SectorBendCI_ef::TrackStep(double ds)
 		field.SetCoefficient(0, b0);
 		field.SetCoefficient(1, b1);
 	}
-
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
 }
 
 // 07.12.15 HR: Added thin multipole and MultipoleKick fixes
-- 
2.43.0


From ec4502cdc24c8f47d7761f95600800fcd2144d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:59 +0000
Subject: [PATCH 015/246] fix: symplectic tracking ignores the momentum for
 which a bend is matched

A bunch with another reference momentum followed the design trajectory.
---
 Merlin++/SymplecticIntegrators.cpp | 74 ++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 15 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index fc5f39a..e1c3b60 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -85,15 +85,15 @@ private:
 	double R32;
 
 public:
-	PoleFaceRotation(double h, SectorBend::PoleFace pf)
+	PoleFaceRotation(double h, SectorBend::PoleFace pf, double r)
 	{
 		const double theta = pf.rot;
 		const double fint = pf.fint;
 		const double hgap = pf.hgap;
 		const double sinTheta = sin(theta);
 		const double phi = 2.0 * fint * hgap * h * (1 + sinTheta * sinTheta) / cos(theta);
-		R10 = h * tan(theta);
-		R32 = -h*tan(theta - phi);
+		R10 = r * h * tan(theta);
+		R32 = -r * h * tan(theta - phi);
 	}
 
 	void operator()(PSvector& v) const
@@ -646,9 +646,9 @@ inline void ApplyMultipoleKick(ParticleBunch* bunch, MultipoleField& field, doub
 	}
 }
 
-inline void ApplyPoleFaceRotation(ParticleBunch* bunch, double h, const SectorBend::PoleFace& pf)
+inline void ApplyPoleFaceRotation(ParticleBunch* bunch, double h, const SectorBend::PoleFace& pf, double r)
 {
-	for_each(bunch->begin(), bunch->end(), PoleFaceRotation(h, pf));
+	for_each(bunch->begin(), bunch->end(), PoleFaceRotation(h, pf, r));
 }
 
 inline void ApplySectorBendMap(ParticleBunch* bunch, double h, double ds)
@@ -720,6 +720,24 @@ inline void ApplyRotatedQuadrupoleMap(ParticleBunch* bunch, double k1, double ph
 	}
 }
 
+// Express momenta relative to a reference momentum that is smaller by a factor r
+inline void RescaleMomenta(ParticleBunch* bunch, double r)
+{
+	for(ParticleBunch::iterator p = bunch->begin(); p != bunch->end(); p++)
+	{
+		p->xp() *= r;
+		p->yp() *= r;
+		p->dp() = r * (1 + p->dp()) - 1;
+	}
+}
+
+// Momentum to which a bend is matched (that of the bunch if it is straight)
+inline double GetBendMomentum(const SectorBend& bend, const ParticleBunch& bunch)
+{
+	return bend.GetGeometry().GetCurvature() == 0 ? bunch.GetReferenceMomentum() : bend.GetMatchedMomentum(
+			   bunch.GetChargeSign());
+}
+
 inline void ApplyRFStructureMap(ParticleBunch* bunch, double Vnorm, double Verr, double kval, double phase, double
 	phaseErr, RMtrx& RM, bool full_accel)
 {
@@ -756,20 +774,22 @@ void SectorBendCI::TrackEntrance()
 	}
 
 	double h = (*currentComponent).GetGeometry().GetCurvature();
+	const double r = GetBendMomentum(*currentComponent, *currentBunch) / currentBunch->GetReferenceMomentum();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance);
+		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance, r);
 	}
 }
 
 void SectorBendCI::TrackExit()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
+	const double r = GetBendMomentum(*currentComponent, *currentBunch) / currentBunch->GetReferenceMomentum();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.exit != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
+		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit, r);
 	}
 
 	const double tilt = currentComponent->GetGeometry().GetTilt();
@@ -789,8 +809,8 @@ void SectorBendCI::TrackStep(double ds)
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double q = currentBunch->GetChargeSign();
-	const double Pref = currentComponent->GetMatchedMomentum(q);
-	const double brho = P0 / eV / SpeedOfLight;
+	const double Pref = GetBendMomentum(*currentComponent, *currentBunch);
+	const double brho = Pref / eV / SpeedOfLight;
 	int np = field.HighestMultipole();
 
 	assert(Pref > 0);
@@ -802,6 +822,12 @@ void SectorBendCI::TrackStep(double ds)
 	bool splitMagnet = b0.imag() != 0 || K1.imag() != 0 || np > 1;
 	double len = splitMagnet ? ds / 2.0 : ds;
 
+	// The maps are those of particles relative to the momentum for which the bend is matched
+	if(fabs(P0 / Pref - 1) > 1.0e-12)
+	{
+		RescaleMomenta(currentBunch, P0 / Pref);
+	}
+
 	if(h == 0 && K1.real() == 0)
 	{
 		ApplyDriftMap(currentBunch, len);
@@ -834,7 +860,7 @@ void SectorBendCI::TrackStep(double ds)
 		field.SetCoefficient(1, Complex(0, b1.imag()));
 
 		// Apply the integrated kick, and then track through the linear second half
-		ApplyMultipoleKick(currentBunch, field, ds, P0, q);
+		ApplyMultipoleKick(currentBunch, field, ds, Pref, q);
 
 		if(h == 0 && K1.real() == 0)
 		{
@@ -860,6 +886,11 @@ void SectorBendCI::TrackStep(double ds)
 		field.SetCoefficient(0, b0);
 		field.SetCoefficient(1, b1);
 	}
+
+	if(fabs(P0 / Pref - 1) > 1.0e-12)
+	{
+		RescaleMomenta(currentBunch, Pref / P0);
+	}
 }
 
 void SectorBendCI_ef::TrackEntrance()
@@ -873,20 +904,22 @@ void SectorBendCI_ef::TrackEntrance()
 	}
 
 	double h = (*currentComponent).GetGeometry().GetCurvature();
+	const double r = GetBendMomentum(*currentComponent, *currentBunch) / currentBunch->GetReferenceMomentum();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance);
+		ApplyPoleFaceRotation(currentBunch, h, *pfi.entrance, r);
 	}
 }
 
 void SectorBendCI_ef::TrackExit()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
+	const double r = GetBendMomentum(*currentComponent, *currentBunch) / currentBunch->GetReferenceMomentum();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.exit != nullptr)
 	{
-		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
+		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit, r);
 	}
 
 	const double tilt = currentComponent->GetGeometry().GetTilt();
@@ -905,8 +938,8 @@ void SectorBendCI_ef::TrackStep(double ds)
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double q = currentBunch->GetChargeSign();
-	const double Pref = currentComponent->GetMatchedMomentum(q);
-	const double brho = P0 / eV / SpeedOfLight;
+	const double Pref = GetBendMomentum(*currentComponent, *currentBunch);
+	const double brho = Pref / eV / SpeedOfLight;
 	int np = field.HighestMultipole();
 
 	assert(Pref > 0);
@@ -918,6 +951,12 @@ void SectorBendCI_ef::TrackStep(double ds)
 	bool splitMagnet = b0.imag() != 0 || K1.imag() != 0 || np > 1;
 	double len = splitMagnet ? ds / 2.0 : ds;
 
+	// The maps are those of particles relative to the momentum for which the bend is matched
+	if(fabs(P0 / Pref - 1) > 1.0e-12)
+	{
+		RescaleMomenta(currentBunch, P0 / Pref);
+	}
+
 	if(h == 0 && K1.real() == 0)
 	{
 		ApplyDriftMap(currentBunch, len);
@@ -950,7 +989,7 @@ void SectorBendCI_ef::TrackStep(double ds)
 		field.SetCoefficient(1, Complex(0, b1.imag()));
 
 		// Apply the integrated kick, and then track through the linear second half
-		ApplyMultipoleKick(currentBunch, field, ds, P0, q);
+		ApplyMultipoleKick(currentBunch, field, ds, Pref, q);
 
 		if(h == 0 && K1.real() == 0)
 		{
@@ -976,6 +1015,11 @@ void SectorBendCI_ef::TrackStep(double ds)
 		field.SetCoefficient(0, b0);
 		field.SetCoefficient(1, b1);
 	}
+
+	if(fabs(P0 / Pref - 1) > 1.0e-12)
+	{
+		RescaleMomenta(currentBunch, Pref / P0);
+	}
 }
 
 // 07.12.15 HR: Added thin multipole and MultipoleKick fixes
-- 
2.43.0


From 793362def0df6056c428f49ae274cb2a06dd2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:31 +0000
Subject: [PATCH 016/246] fix: transport and thin-lens tracking of a straight
 sector bend gives NaN

A bend of zero angle (for example a switched off corrector in a MAD lattice) divides by
its curvature.
---
 Merlin++/StdIntegrators.cpp       |  2 +-
 Merlin++/TransportIntegrators.cpp | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 8a03a89..360d24f 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -184,7 +184,7 @@ void SectorBendCI::TrackStep(double ds)
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double q = currentBunch->GetChargeSign();
-	const double Pref = currentComponent->GetMatchedMomentum(q);
+	const double Pref = h == 0 ? P0 : currentComponent->GetMatchedMomentum(q);
 	const double brho = P0 / eV / SpeedOfLight;
 	int np = field.HighestMultipole();
 
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 043c032..dde315f 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -226,7 +226,7 @@ void SectorBendCI::TrackStep(double ds)
 	MultipoleField& field = (*currentComponent).GetField();
 	const double P0 = (*currentBunch).GetReferenceMomentum();
 	const double q = (*currentBunch).GetChargeSign();
-	const double Pref = (*currentComponent).GetMatchedMomentum(q);
+	const double Pref = h == 0 ? P0 : (*currentComponent).GetMatchedMomentum(q);
 	const double brho = P0 / eV / SpeedOfLight;
 	int np = field.HighestMultipole();
 
@@ -244,7 +244,15 @@ void SectorBendCI::TrackStep(double ds)
 	double len = splitMagnet ? ds / 2.0 : ds;
 
 	// Construct the second-order map
-	RTMap* M = (abs(K1) == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real(), 0);
+	RTMap* M;
+	if(h == 0)
+	{
+		M = (K1.real() == 0) ? DriftTM(len) : QuadrupoleTM(len, K1.real());
+	}
+	else
+	{
+		M = (abs(K1) == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real(), 0);
+	}
 
 	if(fequal(P0, Pref, REL_ENGY_TOL))
 	{
-- 
2.43.0


From c036b7f4b47aeaede64cf35effa73ba41981a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:31 +0000
Subject: [PATCH 017/246] fix: matrices of a bend without horizontal focusing
 and of a very weak solenoid

The dispersion vanished when K1 = -h^2, and a solenoid whose rotation is of the order of the
rounding error did not even drift the particles.
---
 Merlin++/TransportMatrix.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index b457a4d..ab01cb4 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -109,9 +109,17 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 	// dispesions terms (only included if matrix is 6D)
 	if(R.nrows() == 6)
 	{
-		if(h && Kx)
+		if(h)
 		{
-			if(Kx > 0)
+			if(Kx == 0)
+			{
+				R(0, 5) = h * length * length / 2;
+				R(1, 5) = h * length;
+				R(4, 5) = -h * h * length * length * length / 6;
+				R(4, 0) = -h * length;
+				R(4, 1) = -h * length * length / 2;
+			}
+			else if(Kx > 0)
 			{
 				double k = sqrt(Kx);
 				double phi = k * length;
@@ -161,8 +169,8 @@ void SolR(double l, double ks, RealMatrix& rs)
 
 	if(fequal(theta, 0.))
 	{
-		rs(0, 1) = 0;
-		rs(2, 3) = 0;
+		rs(0, 1) = l;
+		rs(2, 3) = l;
 	}
 	else
 	{
-- 
2.43.0


From 805e66b59458a8f74241ac627895db6ef25a9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:25 +0000
Subject: [PATCH 018/246] fix: path length of a combined function bend with K1
 = -h^2 is NaN

---
 Merlin++/SymplecticIntegrators.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index e1c3b60..e715eda 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -305,11 +305,23 @@ public:
 		double c8 = -y0 * y0 * k1 / dp1 / 2.0;
 
 		double ct1 = ct0
-			+ (2 * c0 + c3 + c5 + c6 - c8) * ds / 2.0
-			+ c1 * xs / wx + (c3 - c5) * xs2 / wx / 4.0
-			+ c2 * (1.0 - xc) + c4 * (1.0 - xc2) / 4.0
+			+ (c6 - c8) * ds / 2.0
 			+ (c6 + c8) * ys2 / wy / 4.0 - c7 * (1.0 - yc2) / 4.0;
 
+		if(j1 == 0)
+		{
+			// no horizontal focusing
+			const double hdp = h * dp;
+			ct1 -= h * ds * (x0 + ds / dp1 / 2.0 * (px0 + hdp * ds / 3.0))
+				+ ds / dp1 / dp1 / 2.0 * (px0 * px0 + px0 * hdp * ds + hdp * hdp * ds * ds / 3.0);
+		}
+		else
+		{
+			ct1 += (2 * c0 + c3 + c5) * ds / 2.0
+				+ c1 * xs / wx + (c3 - c5) * xs2 / wx / 4.0
+				+ c2 * (1.0 - xc) + c4 * (1.0 - xc2) / 4.0;
+		}
+
 		x0 = x1;
 		px0 = px1;
 		y0 = y1;
-- 
2.43.0


From ef1024ececf841528b77448d15cb1c837a6879a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:57 +0000
Subject: [PATCH 019/246] fix: second order fringe of bends without pole face
 information is that of an exit at both ends

A missing pole face was treated as an exit, also at the entrance, and the quadrupole
component did not depend on the sign of the charge.
---
 Merlin++/StdIntegrators.h         |  2 +-
 Merlin++/TransportIntegrators.cpp | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/StdIntegrators.h b/Merlin++/StdIntegrators.h
index c7e134e..62e7af9 100644
--- a/Merlin++/StdIntegrators.h
+++ b/Merlin++/StdIntegrators.h
@@ -68,7 +68,7 @@ public:
 	void TrackEntrance();
 	void TrackExit();
 protected:
-	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf);
+	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool ent);
 };
 
 DECL_INTG_SET(ParticleComponentTracker, StdISet)
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index dde315f..0f76217 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -308,34 +308,34 @@ void SectorBendCI::TrackEntrance()
 	{
 		RotateBunchAboutZ(*currentBunch, -tilt);
 	}
-	ApplyPoleFaceRotation(pfi.entrance);
+	ApplyPoleFaceRotation(pfi.entrance, true);
 }
 
 void SectorBendCI::TrackExit()
 {
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	double tilt = (*currentComponent).GetGeometry().GetTilt();
-	ApplyPoleFaceRotation(pfi.exit);
+	ApplyPoleFaceRotation(pfi.exit, false);
 	if(tilt != 0)
 	{
 		RotateBunchAboutZ(*currentBunch, tilt);
 	}
 }
 
-void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
+void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool ent)
 {
 #define _PFV(p, v) !(p) ? 0 : p->v;
 
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double brho = P0 / eV / SpeedOfLight;
 	const double h = (*currentComponent).GetGeometry().GetCurvature();
-	const double k = (*currentComponent).GetField().GetKn(1, brho).real();
+	const double q = currentBunch->GetChargeSign();
+	const double k = q * (*currentComponent).GetField().GetKn(1, brho).real();
 
 	double beta = _PFV(pf, rot);
 	double c = 0; // currently not implemented
 	double hg = _PFV(pf, hgap);
 	double fint = _PFV(pf, fint);
-	double ent = _PFV(pf, type);
 
 	RTMap* M = PoleFaceTM(h, k, beta, c, fint, hg, ent);
 	ApplyMapToBunch(*currentBunch, M);
-- 
2.43.0


From fc4e54ce796f2cd4c769ec08e74ac3ca5fe7e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:57 +0000
Subject: [PATCH 020/246] fix: a bend with a single pole face rotation
 dereferences a null pointer

Reading a lattice in which only E1 or E2 of a bend is not zero crashed.
---
 Merlin++/SectorBend.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SectorBend.h b/Merlin++/SectorBend.h
index 2c1c3b0..bb4680d 100644
--- a/Merlin++/SectorBend.h
+++ b/Merlin++/SectorBend.h
@@ -99,8 +99,14 @@ public:
 			Clear();
 			entrance = e1;
 			exit = e2;
-			entrance->type = 1;
-			exit->type = 0;
+			if(entrance)
+			{
+				entrance->type = 1;
+			}
+			if(exit)
+			{
+				exit->type = 0;
+			}
 		}
 
 		void SetInfo(PoleFace* e1)
-- 
2.43.0


From 87524d520955e702a2f76a3fcbaac92cb52b5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:36 +0000
Subject: [PATCH 021/246] fix: setting a component of a null multipole field
 gives NaN

For example the gradient of a combined function bend of zero angle in a MAD lattice.
---
 Merlin++/MultipoleField.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index 70600c0..4b25f71 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -147,7 +147,12 @@ void MultipoleField::PrintField(std::ostream& os) const
 
 void MultipoleField::SetComponent(size_t np, double bn, double an, double r0)
 {
-	assert(B0 != 0);
+	if(B0 == 0)
+	{
+		// a null field: there is no scale to divide by
+		B0 = 1;
+		expansion.assign(expansion.size(), Complex(0, 0));
+	}
 
 	if(np + 1 > expansion.size())
 	{
-- 
2.43.0


From 3f43e78fa6bf91b7a5f8849e3d30d86b5acabb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:36 +0000
Subject: [PATCH 022/246] fix: dispersion and path length of bends with K1 =
 -h^2 up to rounding are lost

---
 Merlin++/SymplecticIntegrators.cpp | 24 ++++++++++++------------
 Merlin++/TransportMatrix.cpp       |  3 ++-
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index e715eda..7f145bf 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -277,21 +277,21 @@ public:
 
 		double x1, px1;
 
-		if((k1 + h * h) == 0)
-		{
-			x1 = x0 + px0 * ds / (1.0 + dp) + dp * h * ds * ds / (1.0 + dp) / 2.0;
-			px1 = px0 * xc + dp * h * ds;
-		}
-		else
-		{
-			x1 = x0 * xc + px0 * xs * wx / fabs(k1 + h * h) + dp * h * (1.0 - xc) / (k1 + h * h);
-			px1 = -(k1 + h * h) * x0 * xs / wx + px0 * xc + dp * h * xs / wx;
-		}
+		// Without horizontal focusing (also up to rounding errors) the expressions for the dispersion and
+		// path length are replaced by their limits
+		const double j1 = k1 + h * h;
+		const bool straight = fabs(j1) * ds * ds < 1.0e-9;
+		const double r12 = (j1 == 0) ? ds / dp1 : xs * wx / fabs(j1);
+		const double r21 = (j1 == 0) ? 0 : -j1 * xs / wx;
+		const double d1 = straight ? ds * ds / dp1 / 2.0 : (1.0 - xc) / j1;
+		const double d2 = straight ? ds : xs / wx;
+
+		x1 = x0 * xc + px0 * r12 + dp * h * d1;
+		px1 = x0 * r21 + px0 * xc + dp * h * d2;
 
 		double y1 = y0 * yc + py0 * ys * wy / fabs(k1);
 		double py1 = k1 * y0 * ys / wy + py0 * yc;
 
-		double j1 = k1 + h * h;
 		double j2 = (j1 * x0 - h * dp);
 
 		double c0 = -h * h * dp / j1;
@@ -308,7 +308,7 @@ public:
 			+ (c6 - c8) * ds / 2.0
 			+ (c6 + c8) * ys2 / wy / 4.0 - c7 * (1.0 - yc2) / 4.0;
 
-		if(j1 == 0)
+		if(straight)
 		{
 			// no horizontal focusing
 			const double hdp = h * dp;
diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index ab01cb4..1ee4c65 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -111,7 +111,8 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 	{
 		if(h)
 		{
-			if(Kx == 0)
+			// (the expressions below lose all their digits when Kx is due to rounding)
+			if(fabs(Kx) * length * length < 1.0e-9)
 			{
 				R(0, 5) = h * length * length / 2;
 				R(1, 5) = h * length;
-- 
2.43.0


From ef1f1fd064da866e06ec6b49375e484953694c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 023/246] fix: T216 of the second order bend map lacks the
 conversion from momenta to slopes

---
 Merlin++/BasicTransportMaps.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index bf0b324..1f53059 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -75,6 +75,7 @@ RTMap* SectorBendTM(double s, double h, double gamma)
 //133,134 both zero?
 	rtMap(2, 2, 2) = a15;
 	rtMap(2, 4, 4) = a15;
+	rtMap(2, 1, 6) = h * a4;
 	rtMap(2, 6, 6) = -h * sx / (2 * beta * beta * gamma * gamma) - a4;
 
 	rtMap(3, 1, 4) = a4;
-- 
2.43.0


From a419fc5bcf29fd7a4194925082d04a3a3116f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:42 +0000
Subject: [PATCH 024/246] fix: a monitor tracked in steps measures again in
 every step after its measurement point

A measurement point at the exit was never reached, and later measurements moved the bunch
back to the measurement point.
---
 Merlin++/StdIntegrators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 360d24f..042cfad 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -390,7 +390,8 @@ void MonitorCI::TrackStep(double ds)
 	else
 	{
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		// only in the step that reaches the measurement point
+		if((GetIntegratedLength() < mpt || AtEntrance()) && GetIntegratedLength() + ds >= mpt)
 		{
 			double s1 = mpt - GetIntegratedLength();
 			ApplyDrift(currentBunch->GetParticles(), s1);
-- 
2.43.0


From b1f0b043b4d337666b9b7cbd1ce36dc6b1b709ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:50 +0000
Subject: [PATCH 025/246] fix: second order pole face map of combined function
 bends is not symplectic

The quadrupole terms have the wrong sign in T233 and half of their value in T413 (see
K. L. Brown, SLAC-75: T211 = K1 tan(beta), T233 = -K1 tan(beta), T413 + T431 = -2 K1 tan(beta)).
---
 Merlin++/BasicTransportMaps.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 1f53059..7a08f74 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -513,14 +513,14 @@ RTMap* PoleFaceTM(double h, double K1, double beta, double c, double fint, doubl
 	if(entrance == true) // do entrance
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1);    //old
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)); //old
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
+		rtMap(4, 1, 3) = -((h * c * a8) + (2 * K1 * a1)); //old
 	}
 	else    //do exit
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1) - pow((h * a1), 2) * a1 * 0.5;
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1);   //old
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)) + pow((h * a6), 2) * a1;
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1);   //old
+		rtMap(4, 1, 3) = -((h * c * a8) + (2 * K1 * a1)) + pow((h * a6), 2) * a1;
 	}
 
 	rtMap(1, 1) = 1;
-- 
2.43.0


From 8d1a61c1484f352f364308f3d6f868b56aa8d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 026/246] fix: ComponentTracker::TrackStep returns the
 remaining length as documented

---
 Merlin++/ComponentTracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ComponentTracker.cpp b/Merlin++/ComponentTracker.cpp
index 865e486..b31e1f6 100644
--- a/Merlin++/ComponentTracker.cpp
+++ b/Merlin++/ComponentTracker.cpp
@@ -105,7 +105,7 @@ double ComponentTracker::TrackStep(double ds)
 
 	double sToExit = integrator->Track(ds);
 	itsState = fequal(sToExit, 0) ? finished : tracking;
-	return itsState;
+	return sToExit;
 }
 
 void ComponentTracker::Reset()
-- 
2.43.0


From 3837dced95516a457400442fa6af03bd519a0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 027/246] fix: RemoveProcess reports whether the process was
 present and does not erase end()

---
 Merlin++/ProcessStepManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index 892c14e..dffa006 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -173,8 +173,12 @@ void ProcessStepManager::AddProcess(BunchProcess* aProcess)
 bool ProcessStepManager::RemoveProcess(BunchProcess* aProcess)
 {
 	proc_itor p = find(processTable.begin(), processTable.end(), aProcess);
-	p = processTable.erase(p);
-	return p != processTable.end();
+	if(p == processTable.end())
+	{
+		return false;
+	}
+	processTable.erase(p);
+	return true;
 }
 
 void ProcessStepManager::ClearProcesses()
-- 
2.43.0


From 02d53f1b67866ec5c3f7c03def0d5728b9030536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 028/246] fix: StepComponent applies geometry patches and
 passes frames without component

---
 Merlin++/TrackingSimulation.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index 417e17b..86c12b4 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -271,7 +271,18 @@ bool TrackingSimulation::StepComponent()
 	{
 		bunch->ApplyTransformation(frame->GetEntrancePlaneTransform());
 	}
-	stepper.Track(frame->GetComponent());
+	if(const Transform3D* t = frame->GetEntranceGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
+	if(frame->IsComponent())
+	{
+		stepper.Track(frame->GetComponent());
+	}
+	if(const Transform3D* t = frame->GetExitGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
 	if(incX)
 	{
 		bunch->ApplyTransformation(frame->GetExitPlaneTransform());
-- 
2.43.0


From 7dfb139a3661991381ff9472d434e3f35fbaf570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 029/246] fix: initialise the flags of SimulationOutput

---
 Merlin++/TrackingSimulation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/TrackingSimulation.h b/Merlin++/TrackingSimulation.h
index 00c7abe..b7e9b62 100644
--- a/Merlin++/TrackingSimulation.h
+++ b/Merlin++/TrackingSimulation.h
@@ -38,9 +38,9 @@ public:
 	void AddIdentifier(const std::string& pattern, size_t nocc = 1);
 
 	// Public output flags
-	bool output_all;
-	bool output_initial;
-	bool output_final;
+	bool output_all = false;
+	bool output_initial = false;
+	bool output_final = false;
 
 protected:
 
-- 
2.43.0


From 5b7dfc2aa7b3f6721d5f3b6048efa8de4ff4bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 030/246] fix: products of small rotations about one axis are
 not rounded to the identity

---
 Merlin++/AxisRotations.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/AxisRotations.cpp b/Merlin++/AxisRotations.cpp
index 8367c0c..b4bc2ed 100644
--- a/Merlin++/AxisRotations.cpp
+++ b/Merlin++/AxisRotations.cpp
@@ -38,13 +38,13 @@ Rot3Drep* RotationX::dot(const Rot3Drep& r) const
 Rot3Drep* RotationX::dotBy(const RotationX& rx) const
 {
 	double ncos = cosine() * rx.cosine() - sine() * rx.sine();
-	if(ncos == 1)
+	double nsin = sine() * rx.cosine() + cosine() * rx.sine();
+	if(nsin == 0 && ncos > 0)
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * rx.cosine() + cosine() * rx.sine();
 		return new RotationX(ncos, nsin);
 	}
 }
@@ -124,13 +124,13 @@ Rot3Drep* RotationY::dotBy(const RotationX& rx) const
 Rot3Drep* RotationY::dotBy(const RotationY& ry) const
 {
 	double ncos = cosine() * ry.cosine() - sine() * ry.sine();
-	if(ncos == 1)
+	double nsin = sine() * ry.cosine() + cosine() * ry.sine();
+	if(nsin == 0 && ncos > 0)
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * ry.cosine() + cosine() * ry.sine();
 		return new RotationY(ncos, nsin);
 	}
 }
@@ -210,13 +210,13 @@ Rot3Drep* RotationZ::dotBy(const RotationY& ry) const
 Rot3Drep* RotationZ::dotBy(const RotationZ& rz) const
 {
 	double ncos = cosine() * rz.cosine() - sine() * rz.sine();
-	if(ncos == 1)
+	double nsin = sine() * rz.cosine() + cosine() * rz.sine();
+	if(nsin == 0 && ncos > 0)
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * rz.cosine() + cosine() * rz.sine();
 		return new RotationZ(ncos, nsin);
 	}
 }
-- 
2.43.0


From 3d3bcb1f25c3ba9334d94f2c1a3f1604eda97198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 031/246] fix: a general rotation by a small angle is not
 reported as the identity

---
 Merlin++/GeneralRotation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/GeneralRotation.cpp b/Merlin++/GeneralRotation.cpp
index 9278c79..e18de87 100644
--- a/Merlin++/GeneralRotation.cpp
+++ b/Merlin++/GeneralRotation.cpp
@@ -193,7 +193,7 @@ RotationType GeneralRotation::type() const
 
 bool GeneralRotation::isIdentity() const
 {
-	return m(0, 0) == 1.0 && m(1, 1) == 1.0 && m(2, 2) == 1.0;
+	return m(0, 0) == 1.0 && m(1, 1) == 1.0 && m(2, 2) == 1.0 && m(0, 1) == 0.0 && m(0, 2) == 0.0 && m(1, 2) == 0.0;
 }
 
 bool GeneralRotation::isXrot() const
-- 
2.43.0


From fd845d50140dba9e74e9bb614eacd8626b4c5d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 032/246] fix: Rotation2D by pi is not the identity

---
 Merlin++/Transform2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Transform2D.h b/Merlin++/Transform2D.h
index 3a19520..45e36e5 100644
--- a/Merlin++/Transform2D.h
+++ b/Merlin++/Transform2D.h
@@ -76,7 +76,7 @@ public:
 	 */
 	bool isIdentity() const
 	{
-		return fequal(sina, 0.0);
+		return fequal(sina, 0.0) && cosa > 0;
 	}
 
 	/**
-- 
2.43.0


From 68724acb92877877a8a815395851e494924fd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 033/246] fix: separate the numbers of a written Transform2D so
 that it can be read back

---
 Merlin++/Transform2D.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/Transform2D.h b/Merlin++/Transform2D.h
index 45e36e5..f244c56 100644
--- a/Merlin++/Transform2D.h
+++ b/Merlin++/Transform2D.h
@@ -131,7 +131,7 @@ public:
 
 	friend ostream& operator <<(ostream& os, const Rotation2D& rot)
 	{
-		os << rot.cosa;
+		os << rot.cosa << ' ';
 		os << rot.sina;
 		return os;
 	}
@@ -313,8 +313,8 @@ public:
 
 	friend ostream& operator <<(ostream& os, const Transform2D& t)
 	{
-		os << t.x0.x;
-		os << t.x0.y;
+		os << t.x0.x << ' ';
+		os << t.x0.y << ' ';
 		os << t.r;
 		return os;
 	}
-- 
2.43.0


From 18df84c73c5202ada0381bfa454e13b7afd7fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 034/246] fix: ArcGeometry without curvature is a straight
 line, not NaN

---
 Merlin++/ArcGeometry.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Merlin++/ArcGeometry.cpp b/Merlin++/ArcGeometry.cpp
index 752ea47..f8691aa 100644
--- a/Merlin++/ArcGeometry.cpp
+++ b/Merlin++/ArcGeometry.cpp
@@ -10,9 +10,16 @@
 namespace
 {
 
-inline Transform3D MakeTransform(double phi, double h)
+inline Transform3D MakeTransform(double ds, double h)
 {
-	return Transform3D(Point3D((cos(phi) - 1) / h, 0, sin(phi) / h), Rotation3D::rotationY(-phi));
+	if(h == 0)
+	{
+		return Transform3D(Point3D(0, 0, ds), Rotation3D::identity());
+	}
+
+	const double phi = ds * h;
+	const double sh = sin(phi / 2);
+	return Transform3D(Point3D(-2 * sh * sh / h, 0, sin(phi) / h), Rotation3D::rotationY(-phi));
 }
 
 } // end anonymous namespace
@@ -20,16 +27,16 @@ inline Transform3D MakeTransform(double phi, double h)
 Transform3D ArcGeometry::GetGeometryTransform(double s0, double s) const
 {
 	CheckBounds(s, s0);
-	return MakeTransform((s - s0) * h, h);
+	return MakeTransform(s - s0, h);
 }
 
 Transform3D ArcGeometry::GetGeometryTransform(BoundaryPlane p) const
 {
-	double phi = p == entrance ? -GetAngle() / 2 : GetAngle() / 2;
-	return MakeTransform(phi, h);
+	double ds = p == entrance ? -GetGeometryLength() / 2 : GetGeometryLength() / 2;
+	return MakeTransform(ds, h);
 }
 
 Transform3D ArcGeometry::GetTotalGeometryTransform() const
 {
-	return MakeTransform(GetAngle(), h);
+	return MakeTransform(GetGeometryLength(), h);
 }
-- 
2.43.0


From 1cfeaccd947560601324e99e5e4429a7a851d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 035/246] fix: the transformations of a tilted ArcGeometry
 respect its tilt

---
 Merlin++/ArcGeometry.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ArcGeometry.cpp b/Merlin++/ArcGeometry.cpp
index f8691aa..a973b5f 100644
--- a/Merlin++/ArcGeometry.cpp
+++ b/Merlin++/ArcGeometry.cpp
@@ -10,8 +10,15 @@
 namespace
 {
 
-inline Transform3D MakeTransform(double ds, double h)
+// Transformation along an arc of length ds in the plane which is rotated about the
+// z-axis of the starting frame by tilt
+inline Transform3D MakeTransform(double ds, double h, double tilt)
 {
+	if(tilt != 0 && h != 0)
+	{
+		return Transform3D::rotationZ(-tilt) * MakeTransform(ds, h, 0) * Transform3D::rotationZ(tilt);
+	}
+
 	if(h == 0)
 	{
 		return Transform3D(Point3D(0, 0, ds), Rotation3D::identity());
@@ -27,16 +34,16 @@ inline Transform3D MakeTransform(double ds, double h)
 Transform3D ArcGeometry::GetGeometryTransform(double s0, double s) const
 {
 	CheckBounds(s, s0);
-	return MakeTransform(s - s0, h);
+	return MakeTransform(s - s0, h, tilt);
 }
 
 Transform3D ArcGeometry::GetGeometryTransform(BoundaryPlane p) const
 {
 	double ds = p == entrance ? -GetGeometryLength() / 2 : GetGeometryLength() / 2;
-	return MakeTransform(ds, h);
+	return MakeTransform(ds, h, tilt);
 }
 
 Transform3D ArcGeometry::GetTotalGeometryTransform() const
 {
-	return MakeTransform(GetGeometryLength(), h);
+	return MakeTransform(GetGeometryLength(), h, tilt);
 }
-- 
2.43.0


From 5a89ffbb2f459a3b46a50eb4d999290d7cce727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:23 +0000
Subject: [PATCH 036/246] fix: SequenceFrame geometry transformation backwards
 within one sub-frame is not inverted

---
 Merlin++/SequenceFrame.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b409833..e299d5a 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -300,7 +300,8 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	Extent ext = (*fi)->GetLocalGeometryExtent();
 	if(fequal(s, l) || s < l)
 	{
-		return (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		Transform3D t1 = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		return inv_t ? t1.inv() : t1;
 	}
 
 	Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.second);
-- 
2.43.0


From 54f32d7e0b58a0cab6645d5f318a7695e33bcb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:23 +0000
Subject: [PATCH 037/246] fix: position of the centre of a SequenceFrame within
 its central sub-frame

---
 Merlin++/SequenceFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index e299d5a..11245f4 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -427,7 +427,7 @@ void SequenceGeometry::CalculateCentreCT()
 		else if(s > s0)
 		{
 			Extent ext = (*fi)->GetLocalGeometryExtent();
-			double s1 = ext.first + s - s0;
+			double s1 = ext.second - (s - s0);
 			t = (*fi)->GetGeometryTransform(ext.first, s1) * t;
 			t_cache->t_in = t.inv();
 			t = (*fi)->GetGeometryTransform(s1, ext.second);
-- 
2.43.0


From 27697653947be1952bd584bd097a54247d68f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:23 +0000
Subject: [PATCH 038/246] fix: total geometry transformation of a SequenceFrame
 whose origin is at its entrance or exit

---
 Merlin++/SequenceFrame.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 11245f4..f3803f3 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -73,6 +73,11 @@ public:
 
 private:
 
+	/**
+	 *	Total transformation from those of the sub-frames.
+	 */
+	Transform3D Concatenate() const;
+
 	SequenceFrame::FrameList* theFrameList;
 
 public:
@@ -341,6 +346,11 @@ Transform3D SequenceGeometry::GetTotalGeometryTransform() const
 		return (t_cache->t_out) * ((t_cache->t_in).inv());
 	}
 
+	return Concatenate();
+}
+
+Transform3D SequenceGeometry::Concatenate() const
+{
 	Transform3D t;
 	for(SequenceFrame::FrameList::const_iterator fi = theFrameList->begin(); fi != theFrameList->end(); fi++)
 	{
@@ -388,7 +398,7 @@ void SequenceGeometry::CalculateCachedTransforms()
 	switch(omode)
 	{
 	case SequenceFrame::originAtEntrance:
-		t_cache->t_out = GetTotalGeometryTransform();
+		t_cache->t_out = Concatenate();
 		break;
 	case SequenceFrame::originAtCenter:
 		//		t_cache->t_in = GetGeometryTransform(0,-len_t/2);
@@ -396,7 +406,7 @@ void SequenceGeometry::CalculateCachedTransforms()
 		CalculateCentreCT();
 		break;
 	case SequenceFrame::originAtExit:
-		t_cache->t_in = GetTotalGeometryTransform().inv();
+		t_cache->t_in = Concatenate().inv();
 		break;
 	}
 
-- 
2.43.0


From 4402b20b1ba8ccbfb3fcc5b03d53cca837545bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:23 +0000
Subject: [PATCH 039/246] fix: SequenceFrame geometry does not leave its
 sub-frames through rounding

---
 Merlin++/SequenceFrame.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index f3803f3..7431db4 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -12,6 +12,15 @@
 
 using namespace std;
 
+namespace
+{
+// Position s which may lie outside of the extent of a sub-frame only through rounding
+inline double Inside(const AcceleratorGeometry::Extent& ext, double s)
+{
+	return min(max(s, ext.first), ext.second);
+}
+}
+
 /**
  *	Implementation of an AcceleratorGeometry class used by
  *	SequenceFrame to construct the required geometry object
@@ -265,10 +274,14 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 		s0 += len_t;
 	}
 
-	if(s < 0 || s > len_t || s0 < 0 || s0 > len_t)
+	// Positions of sub-frames at the ends carry the rounding of the sums of the lengths
+	const double tol = 1e-12 * max(1.0, len_t);
+	if(s < -tol || s > len_t + tol || s0 < -tol || s0 > len_t + tol)
 	{
 		throw BeyondExtent();
 	}
+	s = min(max(s, 0.0), len_t);
+	s0 = min(max(s0, 0.0), len_t);
 
 	if(fequal(s0, 0) && fequal(s, len_t))
 	{
@@ -284,11 +297,15 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	SequenceFrame::FrameList::const_iterator fi = theFrameList->begin();
 	double l = 0;
 
+	// The end belongs to the last sub-frame even when the remaining distances carry
+	// the rounding of the sum of the lengths
+	const SequenceFrame::FrameList::const_iterator last = std::prev(theFrameList->end());
+
 	// First identify in which sub-frame s0 is
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s0, l) || s0 < l)
+		if(fequal(s0, l) || s0 < l || fi == last)
 		{
 			break;
 		}
@@ -303,20 +320,20 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	// Now check if s is also within this frame. If so,
 	// return the local transform
 	Extent ext = (*fi)->GetLocalGeometryExtent();
-	if(fequal(s, l) || s < l)
+	if(fequal(s, l) || s < l || fi == last)
 	{
-		Transform3D t1 = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		Transform3D t1 = (*fi)->GetGeometryTransform(Inside(ext, ext.first + s0), Inside(ext, ext.first + s));
 		return inv_t ? t1.inv() : t1;
 	}
 
-	Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.second);
+	Transform3D t = (*fi)->GetGeometryTransform(Inside(ext, ext.first + s0), ext.second);
 	s -= l;
 	fi++;
 
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s, l) || s < l)
+		if(fequal(s, l) || s < l || fi == last)
 		{
 			break;
 		}
@@ -329,7 +346,7 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	// s is now the distance from the entrance plane of the *fi
 
 	ext = (*fi)->GetLocalGeometryExtent();
-	t = ((*fi)->GetGeometryTransform(ext.first, ext.first + s)) * t;
+	t = ((*fi)->GetGeometryTransform(ext.first, Inside(ext, ext.first + s))) * t;
 
 	return inv_t ? t.inv() : t;
 }
@@ -437,7 +454,7 @@ void SequenceGeometry::CalculateCentreCT()
 		else if(s > s0)
 		{
 			Extent ext = (*fi)->GetLocalGeometryExtent();
-			double s1 = ext.second - (s - s0);
+			double s1 = Inside(ext, ext.second - (s - s0));
 			t = (*fi)->GetGeometryTransform(ext.first, s1) * t;
 			t_cache->t_in = t.inv();
 			t = (*fi)->GetGeometryTransform(s1, ext.second);
-- 
2.43.0


From 45cba6b2660051a587df0ac3581c6da7a7a87f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:08 +0000
Subject: [PATCH 040/246] fix: a girder follows its supports when only one of
 them moves

---
 Merlin++/SupportStructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index 2709176..d488f7e 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -86,7 +86,7 @@ void SupportStructure::UpdateSupportTransform() const
 	// Check if cached state needs updating, otherwise
 	// return.
 
-	if(!sup1->modified || (sup2 && !sup2->modified))
+	if(!sup1->modified && !(sup2 && sup2->modified))
 	{
 		return;
 	}
-- 
2.43.0


From b2a9a025e78de85fa05b704ef19beb57806aae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:09 +0000
Subject: [PATCH 041/246] fix: copy of a SimpleMount does not leave its second
 support uninitialised

---
 Merlin++/SupportStructure.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index d488f7e..f91b8e0 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -20,10 +20,7 @@ SupportStructure::SupportStructure(const SupportStructure& rhs) :
 	SequenceFrame(rhs)
 {
 	sup1 = new AcceleratorSupport();
-	if(rhs.sup2)
-	{
-		sup2 = new AcceleratorSupport();
-	}
+	sup2 = rhs.sup2 ? new AcceleratorSupport() : nullptr;
 }
 
 SupportStructure::~SupportStructure()
-- 
2.43.0


From 7d63bfb34c669d243aee11f9a48429fc4c4e497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:48 +0000
Subject: [PATCH 042/246] fix: transformation of a GeometryPatch from its
 origin back to its entrance

---
 Merlin++/GeometryPatch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/GeometryPatch.h b/Merlin++/GeometryPatch.h
index 65f20d1..38b58a9 100644
--- a/Merlin++/GeometryPatch.h
+++ b/Merlin++/GeometryPatch.h
@@ -38,7 +38,7 @@ public:
 
 	virtual Transform3D GetGeometryTransform(BoundaryPlane p) const
 	{
-		return (p == entrance && local_T) ? *local_T : Transform3D();
+		return (p == entrance && local_T) ? local_T->inv() : Transform3D();
 	}
 
 	virtual Transform3D GetTotalGeometryTransform() const
-- 
2.43.0


From 40afcd8db5cc8c5f3e3fc93090b54d51afff7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:48 +0000
Subject: [PATCH 043/246] fix: equal offsets of both supports of a bent girder
 are in the entrance frame

---
 Merlin++/SupportStructure.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index f91b8e0..c9029e6 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -109,10 +109,12 @@ void SupportStructure::UpdateSupportTransform() const
 		Vector3D X1 = Rg(sup1->GetOffset());
 		Vector3D X2 = Rg(sup2->GetOffset());
 
+		Transform3D T1;
+
 		// check to see if we have a simple translation
 		if(X1 == X2)
 		{
-			Ts = Transform3D::translation(X1.x, X1.y, X1.z);
+			T1 = Transform3D::translation(X1.x, X1.y, X1.z);
 		}
 		else
 		{
@@ -127,12 +129,12 @@ void SupportStructure::UpdateSupportTransform() const
 			// about the entrance plane reference frame.
 
 			Rotation3D R = Rotation3D::rotationX(phix) * Rotation3D::rotationY(phiy);
-			Transform3D T1 = Transform3D(Point3D(X1.x, X1.y, X1.z), R);
-
-			// Convert Ts to a transformation about the local frame origin.
-			Transform3D Tin = GetGeometryTransform(AcceleratorGeometry::entrance);
-			Ts = Tin.inv() * T1 * Tin;
+			T1 = Transform3D(Point3D(X1.x, X1.y, X1.z), R);
 		}
+
+		// Convert T1 to a transformation about the local frame origin.
+		Transform3D Tin = GetGeometryTransform(AcceleratorGeometry::entrance);
+		Ts = Tin.inv() * T1 * Tin;
 	}
 
 	sup1->modified = false;
-- 
2.43.0


From 5fd0d87533b1ad24ae588775da6e4f5d11f3556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:17 +0000
Subject: [PATCH 044/246] fix: copies of frames have the geometry of the
 original

---
 Merlin++/ComponentFrame.h  |  1 +
 Merlin++/SequenceFrame.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/Merlin++/ComponentFrame.h b/Merlin++/ComponentFrame.h
index 2a26278..65ace68 100644
--- a/Merlin++/ComponentFrame.h
+++ b/Merlin++/ComponentFrame.h
@@ -122,6 +122,7 @@ inline ComponentFrame::ComponentFrame(AcceleratorComponent& ac, const string& id
 inline ComponentFrame::ComponentFrame(const ComponentFrame& rhs) :
 	LatticeFrame(rhs), theComponent(rhs.theComponent), blI(0)
 {
+	SetGeometry(rhs.GetGeometry());
 }
 
 inline ComponentFrame::ComponentFrame(AcceleratorComponent* ac, const string& id) :
diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 7431db4..63fdc96 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -33,8 +33,9 @@ public:
 
 	SequenceGeometry(SequenceFrame::FrameList* frames, SequenceFrame::Origin origin);
 
-	//	Copy constructor.
-	SequenceGeometry(const SequenceGeometry& rhs);
+	//	Copy for a frame with its own list of sub-frames.
+	SequenceGeometry(const SequenceGeometry& rhs, SequenceFrame::FrameList* frames);
+	SequenceGeometry(const SequenceGeometry& rhs) = delete;
 
 	~SequenceGeometry();
 
@@ -120,7 +121,7 @@ SequenceFrame::SequenceFrame(const string& id, Origin originLoc) :
 SequenceFrame::SequenceFrame(const SequenceFrame& rhs) :
 	LatticeFrame(rhs)
 {
-	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom));
+	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom), &subFrames);
 	SetGeometry(itsSeqGeom);
 	CopySubFrames(rhs.subFrames);
 }
@@ -243,8 +244,9 @@ bool SequenceFrame::IsBoundaryPlane(BoundaryPlane p, const LatticeFrame* aSubFra
 	}
 }
 
-SequenceGeometry::SequenceGeometry(const SequenceGeometry& rhs) :
-	AcceleratorGeometry()
+SequenceGeometry::SequenceGeometry(const SequenceGeometry& rhs, SequenceFrame::FrameList* frames) :
+	AcceleratorGeometry(), len_t(rhs.len_t), theFrameList(frames), omode(rhs.omode), t_cache(rhs.t_cache ?
+		new TCache(*rhs.t_cache) : nullptr)
 {
 }
 
-- 
2.43.0


From 7c1547ea55356a6a61cd4ca18ba28a5527d71244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:38 +0000
Subject: [PATCH 045/246] fix: geometry patches of an appended frame are kept
 and its components are indexed

---
 Merlin++/AcceleratorModelConstructor.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index 36634ef..c4cd05b 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -56,22 +56,15 @@ public:
 	virtual void ActOn(LatticeFrame* frame)
 	{
 		erepo->Add(frame);
-		try
+		ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
+		if(cf)
 		{
-			ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
-			if(cf)
+			if(cf->IsComponent())
 			{
 				erepo->Add(&(cf->GetComponent()));
-				lattice->push_back(cf);
 			}
-		}
-		catch(bad_cast& b)
-		{
-			cerr << "bad cast caught here!" << endl;
-		}
-		catch(...)
-		{
-			cerr << "something weird here" << endl;
+			lattice->push_back(cf);
+			cf->SetBeamlineIndex(lattice->size() - 1);
 		}
 	}
 
-- 
2.43.0


From 586f5244060adfd915c13ce3f6bc9394f9a416a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:38 +0000
Subject: [PATCH 046/246] fix: initialise the negation flag of the name match
 in ElementRepository

---
 Merlin++/ElementRepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ElementRepository.cpp b/Merlin++/ElementRepository.cpp
index b7ac8e2..1780757 100644
--- a/Merlin++/ElementRepository.cpp
+++ b/Merlin++/ElementRepository.cpp
@@ -21,7 +21,7 @@ struct MatchID
 public:
 
 	MatchID(const string& idpat, bool negate = false) :
-		pattern(idpat)
+		neg(negate), pattern(idpat)
 	{
 	}
 	bool operator()(const ModelElement* elmnt) const
-- 
2.43.0


From d1a137359f53d311659fc650c998648e3f54519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:38 +0000
Subject: [PATCH 047/246] fix: ElementRepository::Find overwrites the results
 as documented

---
 Merlin++/ElementRepository.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ElementRepository.cpp b/Merlin++/ElementRepository.cpp
index 1780757..f4d2a7a 100644
--- a/Merlin++/ElementRepository.cpp
+++ b/Merlin++/ElementRepository.cpp
@@ -57,6 +57,7 @@ size_t ElementRepository::Count(const std::string& id) const
 
 size_t ElementRepository::Find(const std::string& id, std::vector<ModelElement*>& elements)
 {
+	elements.clear();
 	remove_copy_if(theElements.begin(), theElements.end(),
 		back_inserter(elements), MatchID(id, true));
 	return elements.size();
-- 
2.43.0


From 890080fbb33469c8dd5f80aa089e7f475193bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:38 +0000
Subject: [PATCH 048/246] fix: report a first index beyond the beamline as
 BadRange

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 0332148..70eda8d 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -113,7 +113,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline()
 
 AcceleratorModel::Beamline AcceleratorModel::GetBeamline(AcceleratorModel::Index n1, AcceleratorModel::Index n2)
 {
-	if(n2 >= lattice.size())
+	if(n1 >= lattice.size() || n2 >= lattice.size())
 	{
 		throw BadRange();
 	}
-- 
2.43.0


From 7c68515585d869656b75e165df03581ebf0103be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:38 +0000
Subject: [PATCH 049/246] fix: the end pattern of a beamline counts every
 occurrence

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 70eda8d..563b58c 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -143,7 +143,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline(const string& pat1, con
 			i1 = i;
 			ni1 = ni;
 		}
-		else if(nn2 < n2 && p2(id) && ++nn2 == n2)
+		if(nn2 < n2 && p2(id) && ++nn2 == n2)
 		{
 			i2 = i;
 			ni2 = ni;
-- 
2.43.0


From ab947634b08d0a95be5323a26d19c1c5df74ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:38 +0000
Subject: [PATCH 050/246] fix: extract components from a beamline with geometry
 patches

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 563b58c..d9b1731 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -34,7 +34,7 @@ struct MatchName
 	}
 	bool operator()(const ComponentFrame* frm)
 	{
-		return pattern((*frm).GetComponent().GetQualifiedName());
+		return pattern(frm->IsComponent() ? frm->GetComponent().GetQualifiedName() : frm->GetQualifiedName());
 	}
 
 };
-- 
2.43.0


From b70387c266b06bf60bc96b2d49b5b8d1bb3a8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:38 +0000
Subject: [PATCH 051/246] fix: ExtractTypedComponents matches the unqualified
 name as documented

---
 Merlin++/AcceleratorModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.h b/Merlin++/AcceleratorModel.h
index b17df3e..272dd6c 100644
--- a/Merlin++/AcceleratorModel.h
+++ b/Merlin++/AcceleratorModel.h
@@ -321,7 +321,7 @@ public:
 		for(BeamlineIterator i = lattice.begin(); i != lattice.end(); i++)
 		{
 			TComponentFrame<T>* cf = dynamic_cast<TComponentFrame<T>*>(*i);
-			if(cf && p(cf->GetName()))
+			if(cf && p(cf->GetComponent().GetName()))
 			{
 				results.push_back(cf);
 			}
-- 
2.43.0


From 9cc4c0e27147d7f25ed98ccd6cdf33844c85ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:18 +0000
Subject: [PATCH 052/246] fix: InstallModelElement does not use an invalidated
 iterator

---
 Merlin++/AcceleratorModel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index d9b1731..a991fbc 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -293,9 +293,9 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 
 	// replace the existing drift
 	auto insert_marker = lattice.erase(current_cf);
-	lattice.insert(insert_marker, c_drift2); // in reverse order
-	lattice.insert(insert_marker, c_element);
-	lattice.insert(insert_marker, c_drift1);
+	insert_marker = lattice.insert(insert_marker, c_drift2); // in reverse order
+	insert_marker = lattice.insert(insert_marker, c_element);
+	insert_marker = lattice.insert(insert_marker, c_drift1);
 
 	theElements->Add(c_drift1);
 	theElements->Add(c_drift2);
-- 
2.43.0


From 4f61b8ec6b25ed04dbbff81feb4669066f7e0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:18 +0000
Subject: [PATCH 053/246] fix: InstallModelElement registers the new components
 and indexes the beamline

---
 Merlin++/AcceleratorModel.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index a991fbc..b1b614b 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -297,9 +297,17 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	insert_marker = lattice.insert(insert_marker, c_element);
 	insert_marker = lattice.insert(insert_marker, c_drift1);
 
+	for(size_t n = 0; n < lattice.size(); n++)
+	{
+		lattice[n]->SetBeamlineIndex(n);
+	}
+
 	theElements->Add(c_drift1);
 	theElements->Add(c_drift2);
 	theElements->Add(c_element);
+	theElements->Add(drift1);
+	theElements->Add(drift2);
+	theElements->Add(element);
 }
 
 void AcceleratorModel::ReportModelStatistics(std::ostream& os) const
-- 
2.43.0


From 3630e159f6503fc8b606db911d210e6e342e7e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:18 +0000
Subject: [PATCH 054/246] fix: InstallModelElement positions the parts of the
 drift at their centres

---
 Merlin++/AcceleratorModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index b1b614b..2e557e1 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -287,8 +287,8 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	drift1->SetComponentLatticePosition(at - cut_len1);
 	drift2->SetComponentLatticePosition(at);
 	element->SetComponentLatticePosition(at);
-	c_drift1->SetLocalPosition(at - cut_len1);
-	c_drift2->SetLocalPosition(at);
+	c_drift1->SetLocalPosition(at - cut_len1 / 2);
+	c_drift2->SetLocalPosition(at + cut_len2 / 2);
 	c_element->SetLocalPosition(at);
 
 	// replace the existing drift
-- 
2.43.0


From 341cd5ae1407d77af2361cc96081caf4edf2a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:28 +0000
Subject: [PATCH 055/246] fix: InvertMatrix compiles

---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 49d6d94..fea0c15 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -361,7 +361,7 @@ Matrix<T>& InvertMatrix(Matrix<T>& m)
 	LUMatrix<T> lu(m);
 	for(int i = 0; i < m.ncols(); i++)
 	{
-		SubVector<T>& col = m.column(i);
+		SubVector<T> col = m.column(i);
 		col = T(0);
 		col[i] = T(1);
 		lu(col);
-- 
2.43.0


From 93b4e09f5e9aba3eb1f777ceca1686369dc85d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:34 +0000
Subject: [PATCH 056/246] fix: subtract the scalar from a vector

---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index b619aa8..9962aac 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -474,7 +474,7 @@ template<class T>
 Vector<T> operator-(const Vector<T>& v, T s)
 {
 	Vector<T> rv(v);
-	return rv += s;
+	return rv -= s;
 }
 
 template<class T>
-- 
2.43.0


From bc181f6e3770bde922823b273d21133e2189e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:34 +0000
Subject: [PATCH 057/246] fix: matrix products need only equal inner dimensions

---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index 9962aac..40a7f1d 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -1463,7 +1463,7 @@ Matrix<T> operator*(T s, const Matrix<T>& A)
 template<class T>
 Matrix<T> operator*(const Matrix<T>& A, const Matrix<T> B)
 {
-	equal_dimension(A.dim(), swap(B.dim()));
+	equal_length(A.ncols(), B.nrows());
 	Matrix<T> C(A.nrows(), B.ncols(), T(0));
 	tblas3::tgemm(false, false, T(1), A, B, T(1), C);
 	return C;
-- 
2.43.0


From aebf908c4c71f72db50c146cef2507ba1b9b123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:34 +0000
Subject: [PATCH 058/246] fix: print the rows and columns of rectangular
 matrices

---
 Merlin++/TMatrixLib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index 40a7f1d..eb18c6b 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -1484,9 +1484,9 @@ Vector<T> operator*(const Matrix<T>& M, const Vector<T> V)
 template<class T>
 std::ostream& operator<<(std::ostream& os, const Matrix<T>& M)
 {
-	for(size_t i = 0; i < M.ncols(); i++)
+	for(size_t i = 0; i < M.nrows(); i++)
 	{
-		for(size_t j = 0; j < M.nrows(); j++)
+		for(size_t j = 0; j < M.ncols(); j++)
 		{
 			os << M(i, j) << " ";
 		}
-- 
2.43.0


From 4b5bc9b5fba7583f13f1971e116bd6c7d3838da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:34 +0000
Subject: [PATCH 059/246] fix: element-wise product of a matrix view needs
 equal dimensions

---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index eb18c6b..0ce2b9d 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -970,7 +970,7 @@ public:
 	}
 	SubMatrix<T>& operator*=(const Matrix<T>& m)
 	{
-		equal_length(ncols(), m.nrows());
+		equal_dimension(dim(), m.dim());
 		array[gl] *= m.array;
 		return *this;
 	}
-- 
2.43.0


From deb4404386f78b47f185030997f2add74bfe6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:34 +0000
Subject: [PATCH 060/246] fix: allocate the pivot indexes of LUMatrix

---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index fea0c15..3bae1e3 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -35,7 +35,7 @@ public:
 	 * SingularMatrix() if the matrix is singular.
 	 */
 	explicit LUMatrix(const Matrix<T>& M) :
-		lud(M), indexes(), d(1)
+		lud(M), indexes(M.nrows()), d(1)
 	{
 		LUfactor(lud, indexes, d);
 	}
-- 
2.43.0


From 33a7e77a0727b9a755eadfbc68f7e4223aa32a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:51 +0000
Subject: [PATCH 061/246] fix: LUMatrix throws SingularMatrix as documented

---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 3bae1e3..eb2a3b1 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -291,7 +291,7 @@ void LUfactor(Matrix<T>& M, std::vector<int>& pivot, T& sign)
 		pivot[j] = imax;
 		if(M[j][j] == 0.0)
 		{
-			M[j][j] = std::numeric_limits<T>::epsilon();
+			throw SingularMatrix();
 		}
 		if(j < n)
 		{
-- 
2.43.0


From 59c6cc8fb5b4c0f3e4b995a117f39c8e50fc158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 062/246] fix: singular value decomposition of matrices with
 more columns than rows

---
 Merlin++/TLASimp.h | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index eb2a3b1..8be0ef3 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -119,24 +119,15 @@ public:
 	 */
 	Vector<T> operator()(const Vector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(rhs);
 	}
 	Vector<T> operator()(const SubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(rhs);
 	}
 	Vector<T> operator()(const ConstSubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(rhs);
 	}
 	const std::vector<bool>& wflags() const
 	{
@@ -163,6 +154,18 @@ private:
 
 	void Init(const Matrix<T>& M, T threshold);
 
+	// Extends rhs with zeros to the rows of the decomposed matrix
+	Vector<T> Solve(const Vector<T>& rhs) const
+	{
+		equal_length(rhs.size(), nrows);
+		Vector<T> x(w.size());
+		Vector<T> y(T(0), u.nrows());
+		y(Range(0, nrows - 1)) = rhs;
+		y *= wts;
+		return SVDsolve(u, w, v, y, x);
+	}
+
+	Dimension nrows;
 	Matrix<T> u, v;
 	Vector<T> w;
 	Vector<T> wts;
@@ -188,10 +191,14 @@ SVDMatrix<T>::SVDMatrix(const Matrix<T>& M, const Vector<T>& wts1, T threshold)
 template<class T>
 void SVDMatrix<T>::Init(const Matrix<T>& M, T threshold)
 {
+	nrows = M.nrows();
 	if(M.nrows() < M.ncols())
 	{
 		u.redim(M.ncols(), M.ncols());
 		u(Range(0, M.nrows() - 1), Range(0, M.ncols() - 1)) = M;
+		Vector<T> padded(T(1), M.ncols());
+		padded(Range(0, M.nrows() - 1)) = wts;
+		wts.copy(padded);
 	}
 	else
 	{
-- 
2.43.0


From aa5204ddf6a818f627a3151bb9015fbc63bb4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 063/246] fix: the singular value decomposition does not depend
 on the scale of the matrix

---
 Merlin++/TLASimp.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 8be0ef3..3c7929d 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -407,7 +407,7 @@ inline T PYTHAG(T a, T b)
 		T c = b / a;
 		return a * sqrt(1 + c * c);
 	}
-	else if(!fequal(b, 0.0))
+	else if(b != 0.0)
 	{
 		T c = a / b;
 		return b * sqrt(1 + c * c);
@@ -443,7 +443,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		if(i <= rmax)
 		{
 			F0 += M(R1, i).sumfabs();
-			if(!fequal(F0, 0.0))
+			if(F0 != 0.0)
 			{
 				M(R1, i) /= F0;
 				f1 += M(R1, i).sumsquared();
@@ -470,7 +470,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		{
 			Range R2(i + 1, cmax);
 			F0 += M(i, R2).sumfabs();
-			if(!fequal(F0, 0.0))
+			if(F0 != 0.0)
 			{
 				M(i, R2) /= F0;
 				f1 += M(i, R2).sumsquared();
@@ -499,7 +499,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		if(i < cmax)
 		{
 			Range R2(i + 1, cmax);
-			if(!fequal(F1, 0.0))
+			if(F1 != 0.0)
 			{
 				S(R2, i) = (M(i, R2) / M[i][i + 1]) / F1;
 				for(int j = i + 1; j <= cmax; j++)
@@ -522,7 +522,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		F1 = V[i];
 		if(i < cmax)
 			M(i, R4) = 0;
-		if(!fequal(F1, 0.0))
+		if(F1 != 0.0)
 		{
 			F1 = 1.0 / F1;
 			if(i != cmax)
@@ -555,12 +555,12 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 			for(L = k; L >= 0; L--)
 			{
 				remember = L - 1;
-				if(fequal(fabs(work[L]) + F2, F2))
+				if(fabs(work[L]) + F2 == F2)
 				{
 					ok = false;
 					break;
 				}
-				if(fequal(fabs(V[L - 1]) + F2, F2))
+				if(fabs(V[L - 1]) + F2 == F2)
 				{
 					break;
 				}
@@ -572,7 +572,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				for(int i = L; i <= k; i++)
 				{
 					f0 = f1 * work[i];
-					if(!fequal(fabs(f0) + F2, F2))
+					if(fabs(f0) + F2 != F2)
 					{
 						F1 = V[i];
 						f3 = PYTHAG(f0, F1);
@@ -626,7 +626,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				S.column(j + 1) = Z1 * f2 - X * f1;
 				q1 = PYTHAG(f0, f3);
 				V[j] = q1;
-				if(!fequal(q1, 0.0))
+				if(q1 != 0.0)
 				{
 					q1 = 1.0 / q1;
 					f2 = f0 * q1;
-- 
2.43.0


From 8abf99c9d5292001b0c268c210f06eec00fbc630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 064/246] fix: cancel the superdiagonal of rank deficient
 matrices in the singular value decomposition

---
 Merlin++/TLASimp.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 3c7929d..6d50ca5 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -572,19 +572,21 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				for(int i = L; i <= k; i++)
 				{
 					f0 = f1 * work[i];
-					if(fabs(f0) + F2 != F2)
+					work[i] *= f2;
+					if(fabs(f0) + F2 == F2)
 					{
-						F1 = V[i];
-						f3 = PYTHAG(f0, F1);
-						V[i] = f3;
-						f3 = 1.0 / f3;
-						f2 = F1 * f3;
-						f1 = (-f0 * f3);
-						Vector<T> Y = M.column(remember);
-						Vector<T> Z = M.column(i);
-						M.column(remember) = Y * f2 + Z * f1;
-						M.column(i) = Z * f2 - Y * f1;
+						break;
 					}
+					F1 = V[i];
+					f3 = PYTHAG(f0, F1);
+					V[i] = f3;
+					f3 = 1.0 / f3;
+					f2 = F1 * f3;
+					f1 = (-f0 * f3);
+					Vector<T> Y = M.column(remember);
+					Vector<T> Z = M.column(i);
+					M.column(remember) = Y * f2 + Z * f1;
+					M.column(i) = Z * f2 - Y * f1;
 				}
 			}
 			T q1 = V[k];
-- 
2.43.0


From a09eb65fb65a8770fc247ee55698f3773d5d014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:13 +0000
Subject: [PATCH 065/246] fix: negligible elements in the singular value
 decomposition are relative to the norm

---
 Merlin++/TLASimp.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 6d50ca5..a3f99fd 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -542,6 +542,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		}
 		++M[i][i];
 	}
+	const T tiny = std::numeric_limits<T>::epsilon() * F2;
 	for(int k = cmax; k >= 0; k--)
 	{
 		for(int ntry = 30; ntry >= 0; ntry--)
@@ -555,12 +556,12 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 			for(L = k; L >= 0; L--)
 			{
 				remember = L - 1;
-				if(fabs(work[L]) + F2 == F2)
+				if(fabs(work[L]) <= tiny)
 				{
 					ok = false;
 					break;
 				}
-				if(fabs(V[L - 1]) + F2 == F2)
+				if(fabs(V[L - 1]) <= tiny)
 				{
 					break;
 				}
@@ -573,7 +574,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				{
 					f0 = f1 * work[i];
 					work[i] *= f2;
-					if(fabs(f0) + F2 == F2)
+					if(fabs(f0) <= tiny)
 					{
 						break;
 					}
-- 
2.43.0


From b013fbc600e6871b3b4be4beb717a0f0fd479ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:43 +0000
Subject: [PATCH 066/246] fix: moments of the coordinates that a linear map
 does not act on are kept

---
 Merlin++/MatrixMaps.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 7aef3fc..014da4f 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -14,7 +14,7 @@ namespace
 
 PSmoments& TransformMoments(PSmoments& S, const RealMatrix& R)
 {
-	PSmoments result; // initialised to zero
+	PSmoments result(S); // coordinates that R does not act on are kept
 	int i, j, k, l;
 	const int n = R.ncols();
 
@@ -31,11 +31,22 @@ PSmoments& TransformMoments(PSmoments& S, const RealMatrix& R)
 
 			result(i, j) = sij;
 		}
+		result[i] = 0.0;
 		for(j = 0; j < n; j++)
 		{
 			result[i] += R(i, j) * S[j];    // centroid tracking
 		}
 	}
+	for(i = n; i < 6; i++)
+		for(j = 0; j < n; j++)
+		{
+			double sij = 0.0;
+			for(k = 0; k < n; k++)
+			{
+				sij += R(j, k) * S(i, k);
+			}
+			result(i, j) = sij;
+		}
 
 	//		for(i=0;i<n;i++)
 	//			for(j=0;j<=i;j++)
-- 
2.43.0


From 9322042750f7aea1d74851634da799a411f2768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:43 +0000
Subject: [PATCH 067/246] fix: rescale the correlation of time and momentum

---
 Merlin++/MatrixMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 014da4f..4e2de98 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -62,7 +62,7 @@ void RescaleMoments(double P0, double P1, PSmoments& S)
 	S[5] = ratio * (1 + S[5]) - 1.0;
 
 	// rescale momentum correlations
-	for(int i = 0; i < 4; i++)
+	for(int i = 0; i < 5; i++)
 	{
 		S(i, 5) *= ratio;
 	}
-- 
2.43.0


From 739aa29c417b42706d9770ec83b6b07b979bf8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:56 +0000
Subject: [PATCH 068/246] fix: the first guess of EigenSystem may be exactly an
 eigenvalue

---
 Merlin++/LinearAlgebra.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 0581992..3f843b3 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -168,7 +168,21 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				}
 
 				ComplexMatrix minv(mp);
-				prox = Inverse(minv);
+				try
+				{
+					prox = Inverse(minv);
+				}
+				catch(TLAS::SingularMatrix&)
+				{
+					// lambda is exactly an eigenvalue
+					if(iter > 0)
+					{
+						break;
+					}
+					lambda += 1.0e-8;
+					iter++;
+					continue;
+				}
 
 				ComplexVector y(6);
 				for(row = 0; row < 6; row++)
-- 
2.43.0


From 29e48f8e4f69a4e9fc1bd931b9a49773dce6fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:20 +0000
Subject: [PATCH 069/246] fix: eigenvectors are normalised with their complex
 conjugate

---
 Merlin++/LinearAlgebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 3f843b3..6e94db7 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -199,8 +199,8 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				Complex ydotb = 0.0;
 				for(n = 0; n < 6; n++)
 				{
-					ynorm += y(n) * y(n);
-					ydotb += y(n) * b(n);
+					ynorm += conj(y(n)) * y(n);
+					ydotb += y(n) * conj(b(n));
 				}
 
 				b = y / sqrt(ynorm);
-- 
2.43.0


From 04c0326c822524582b3380f164fc0eace9e78598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:19 +0000
Subject: [PATCH 070/246] fix: define the destructor of
 LossMapCollimationOutput

---
 Merlin++/LossMapCollimationOutput.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index a0beddf..b14a01c 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -76,6 +76,10 @@ LossMapCollimationOutput::LossMapCollimationOutput(OutputType ot)
 	otype = ot;
 }
 
+LossMapCollimationOutput::~LossMapCollimationOutput()
+{
+}
+
 void LossMapCollimationOutput::Finalise()
 {
 	//First sort DeadParticles according to s
-- 
2.43.0


From ddc31546d8586e426cca2bf9a061606f99cd9d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:35 +0000
Subject: [PATCH 071/246] fix: do not count the first loss of a loss map twice

---
 Merlin++/LossMapCollimationOutput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index b14a01c..bf6406a 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -103,7 +103,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If old element ++loss
-			if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -126,7 +126,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If position is equal
-			if(it->position == OutputLosses[outit].position)
+			else if(it->position == OutputLosses[outit].position)
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From 480bba209aa132488ba465f5b5acdc8f53fc3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 072/246] fix: keep the losses of different elements with the
 same name apart in loss maps

---
 Merlin++/LossMapCollimationOutput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index bf6406a..50c9da9 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -103,7 +103,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If old element ++loss
-			else if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName && it->s == OutputLosses[outit].s)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -149,8 +149,8 @@ void LossMapCollimationOutput::Finalise()
 				OutputLosses[outit].lost = 1;
 			}
 			// If in the same bin ++loss
-			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->interval ==
-				OutputLosses[outit].interval))
+			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->s == OutputLosses[outit].s)
+				&& (it->interval == OutputLosses[outit].interval))
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From d1b2f91898f9a820e48237b6727e52c35fb1fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 073/246] fix: LossMapCollimationOutput::Finalise can be called
 again

---
 Merlin++/LossMapCollimationOutput.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index 50c9da9..bd73f21 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -89,6 +89,7 @@ void LossMapCollimationOutput::Finalise()
 
 	int outit = 0;
 	int total = 0;
+	OutputLosses.clear();
 
 	switch(otype)
 	{
-- 
2.43.0


From 19f33e34bb4b5f0a1c0a1a335cc1205f6dd14a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 074/246] fix: DetailedCollimationOutput header names the
 columns that are written

---
 Merlin++/DetailedCollimationOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/DetailedCollimationOutput.cpp b/Merlin++/DetailedCollimationOutput.cpp
index f446ea2..f501118 100644
--- a/Merlin++/DetailedCollimationOutput.cpp
+++ b/Merlin++/DetailedCollimationOutput.cpp
@@ -41,7 +41,7 @@ void DetailedCollimationOutput::Dispose(AcceleratorComponent& currcomponent, dou
 
 void DetailedCollimationOutput::Output(std::ostream* os)
 {
-	(*os) << "#name s pos x xp y yp type id location turn" << std::endl;
+	(*os) << "#name s pos x xp y yp id turn" << std::endl;
 	for(auto its = DeadParticles.begin(); its != DeadParticles.end(); ++its)
 	{
 		(*os) << std::setw(16) << std::left << its->ElementName;
-- 
2.43.0


From 5da0551e065280dbe79e8e91d164d8851dd0164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 075/246] fix: collimator jaws on an element that is not a
 Collimator are a hard edge

---
 Merlin++/CollimateParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index b07b188..c7cf2f0 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -106,7 +106,7 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 		Collimator* aCollimator = dynamic_cast<Collimator*>(&component);
 
 		const CollimatorAperture* tap = dynamic_cast<const CollimatorAperture*> (currentComponent->GetAperture());
-		is_collimator = scatter && tap;
+		is_collimator = scatter && tap && aCollimator;
 
 		if(!is_collimator)
 		{
-- 
2.43.0


From d97f765e85b203aa33696819428d243bd4e73bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 076/246] fix: scattering collimators move particles by the
 step made, which can be shorter than a bin

---
 Merlin++/CollimateParticleProcess.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index c7cf2f0..c540b6b 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -205,6 +205,9 @@ void CollimateParticleProcess::DoCollimation()
 	//The aperture of this element
 	const Aperture *ap = currentComponent->GetAperture();
 
+	// The length since the last check (the last step in a collimator can be shorter than the bin size)
+	const double ds = s - int_s;
+
 	// If there are no losses there is no need to go through the expensive
 	// process of copying all the particles to a new bunch. So check first
 	bool any_loss = false;
@@ -214,7 +217,7 @@ void CollimateParticleProcess::DoCollimation()
 
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end(); p++)
 		{
-			if(!ap->CheckWithinApertureBoundaries((*p).x() - bin_size * (*p).xp(), (*p).y() - bin_size * (*p).yp(), s))
+			if(!ap->CheckWithinApertureBoundaries((*p).x() - ds * (*p).xp(), (*p).y() - ds * (*p).yp(), int_s))
 			{
 				any_loss = true;
 				first_loss = p - currentBunch->begin();
@@ -261,8 +264,8 @@ void CollimateParticleProcess::DoCollimation()
 	{
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end();)
 		{
-			(*p).x() -= bin_size * (*p).xp();
-			(*p).y() -= bin_size * (*p).yp();
+			(*p).x() -= ds * (*p).xp();
+			(*p).y() -= ds * (*p).yp();
 			p++;
 		}
 	}
@@ -277,14 +280,14 @@ void CollimateParticleProcess::DoCollimation()
 //			(*p).x() -= bin_size * (*p).xp();
 //			(*p).y() -= bin_size * (*p).yp();
 //		}
-		if(particle_number >= first_loss && !ap->CheckWithinApertureBoundaries((*p).x(), (*p).y(), s))
+		if(particle_number >= first_loss && !ap->CheckWithinApertureBoundaries((*p).x(), (*p).y(), is_collimator ? int_s : s))
 		{
 			// If not a collimator, then do not scatter and directly remove the particle.
 			if(!is_collimator || DoScatter(*p) == ScatterOutcome::absorbed)
 			{
 				if(is_collimator)
 				{
-					(*p).ct() += (s - bin_size);
+					(*p).ct() += int_s;
 				}
 
 				lost.push_back(*p);
@@ -315,8 +318,8 @@ void CollimateParticleProcess::DoCollimation()
 		{
 			if(is_collimator)
 			{
-				(*p).x() += bin_size * (*p).xp();
-				(*p).y() += bin_size * (*p).yp();
+				(*p).x() += ds * (*p).xp();
+				(*p).y() += ds * (*p).yp();
 			}
 
 			//Not interacting with the collimator: "Inside" the aperture; particle lives
-- 
2.43.0


From c1fb73af1570d60f652448643a3448515c91837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 077/246] fix: collimation checks are not missed when another
 process divides the step

---
 Merlin++/CollimateParticleProcess.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index c540b6b..94f667f 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -103,6 +103,7 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 	{
 		currentComponent = &component;
 		s = 0;
+		int_s = 0;
 		Collimator* aCollimator = dynamic_cast<Collimator*>(&component);
 
 		const CollimatorAperture* tap = dynamic_cast<const CollimatorAperture*> (currentComponent->GetAperture());
@@ -147,8 +148,8 @@ void CollimateParticleProcess::DoProcess(double ds)
 	if(fequal(s, next_s))
 	{
 		//This lets the scattering routine know how far down the collimator we are for aperture checking inside the scattering step.
-		int_s = s - ds;
 		DoCollimation();
+		int_s = s;
 		SetNextS();
 	}
 
@@ -162,14 +163,7 @@ void CollimateParticleProcess::DoProcess(double ds)
 
 double CollimateParticleProcess::GetMaxAllowedStepSize() const
 {
-	if(!is_collimator)
-	{
-		return next_s - s;
-	}
-	else
-	{
-		return bin_size;
-	}
+	return next_s - s;
 }
 
 void CollimateParticleProcess::IndexParticles(bool index)
-- 
2.43.0


From 209a4686aa49742bb7fd4ee95b2da99bf6f555c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 078/246] fix: look for the lost particles at the exit of the
 element too

---
 Merlin++/CollimateParticleProcess.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 94f667f..08ae662 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -418,15 +418,12 @@ void CollimateParticleProcess::DoCollimation()
 					}
 				}
 
-				//Now move forward...
-				if((LostParticleTracker->GetRemainingLength()) > 0)
-				{
-					LostParticleTracker->TrackStep(StepSize);
-				}
+				//Stop at the exit, otherwise move forward...
 				if(LostParticleTracker->GetRemainingLength() == 0)
 				{
 					break;
 				}
+				LostParticleTracker->TrackStep(StepSize);
 			}
 
 			//If there is anything left - possible bug.
-- 
2.43.0


From 57cfdece9ddf0285b039865b5db8e5fed03a0b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:08 +0000
Subject: [PATCH 079/246] fix: record lost particles which are found inside the
 aperture when tracked again

---
 Merlin++/CollimateParticleProcess.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 08ae662..7a41b65 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -440,6 +440,12 @@ void CollimateParticleProcess::DoCollimation()
 						(*p).ct() = length;
 					}
 					lost.push_back(*p);
+
+					//All that is known is that it was outside at the position of this check
+					for(auto &OutIt : CollimationOutputVector)
+					{
+						OutIt->Dispose(*currentComponent, s, (*p), ColParProTurn);
+					}
 				}
 			}
 
-- 
2.43.0


From 76426dd5600d59ae8f05be5e086e50004b22c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:08 +0000
Subject: [PATCH 080/246] fix: record the particles lost in elements of zero
 length

---
 Merlin++/CollimateParticleProcess.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 7a41b65..4aa9681 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -451,11 +451,21 @@ void CollimateParticleProcess::DoCollimation()
 
 			//clean up the tracker
 			delete LostParticleTracker;
-			//and the "lost particle bunch"
-			delete LostBunch;
 		}
-		//if the element has zero length nothing needs to be done since all the losses will have occurred at the same point anyway.
+		//if the element has zero length all the losses will have occurred at the same point anyway.
 		//So PSvectorArray loss will contain the correct information
+		else
+		{
+			for(auto &p : lost)
+			{
+				for(auto &OutIt : CollimationOutputVector)
+				{
+					OutIt->Dispose(*currentComponent, 0, p, ColParProTurn);
+				}
+			}
+		}
+		//and the "lost particle bunch"
+		delete LostBunch;
 	}
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a3f10c35e3d5df95bf29b241ed92535a6f12b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:08 +0000
Subject: [PATCH 081/246] fix: lost particles keep their charge when the whole
 bunch is lost

---
 Merlin++/CollimateParticleProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 4aa9681..9ba227c 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -251,6 +251,7 @@ void CollimateParticleProcess::DoCollimation()
 	ParticleBunch* NewBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), currentBunch->GetTotalCharge()
 		/ currentBunch->size());
 	NewBunch->reserve(currentBunch->size());
+	const double macroParticleCharge = currentBunch->GetTotalCharge() / currentBunch->size();
 
 	size_t particle_number = 0;
 
@@ -339,8 +340,7 @@ void CollimateParticleProcess::DoCollimation()
 	if(LostParticlePositions.size() != 0 && !is_collimator)
 	{
 		//make a new particle bunch to track the lost particles
-		ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(),
-			currentBunch->GetTotalCharge() / currentBunch->size());
+		ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), macroParticleCharge);
 		double length = currentComponent->GetLength();
 		//If we are dealing with a non-zero length element, we must do tracking
 		if(length != 0)
-- 
2.43.0


From 7512e007828cadefb910c303243e70f779c083c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:08 +0000
Subject: [PATCH 082/246] fix: keep the input coordinates of the remaining
 particles for further checks in an element

---
 Merlin++/CollimateParticleProcess.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 9ba227c..3cdf4d5 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -477,7 +477,25 @@ void CollimateParticleProcess::DoCollimation()
 	//DoOutput(lost,lost_i);
 
 	//make sure to clear up
-	InputArray.clear();             //The input array
+	if(!InputArray.empty())
+	{
+		//The input array: keep the particles which are still in the bunch, for the next check in this element
+		PSvectorArray remaining;
+		remaining.reserve(currentBunch->size());
+		size_t next_lost = 0;
+		for(size_t n = 0; n < InputArray.size(); n++)
+		{
+			if(next_lost < LostParticlePositions.size() && LostParticlePositions[next_lost] == n)
+			{
+				++next_lost;
+			}
+			else
+			{
+				remaining.push_back(InputArray[n]);
+			}
+		}
+		InputArray.swap(remaining);
+	}
 	LostParticlePositions.clear();  //A list of particles we want to use in the input array
 
 	if(double(nlost) / double(nstart) >= lossThreshold)
-- 
2.43.0


From 0fb93bdfedc3e611f81ba06f7e5dc06480ace5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:25 +0000
Subject: [PATCH 083/246] fix: CollimateParticleProcess does not delete an
 index list which it was given

---
 Merlin++/CollimateParticleProcess.cpp | 19 +++++++++----------
 Merlin++/CollimateParticleProcess.h   |  1 +
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 3cdf4d5..1d1e643 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -52,17 +52,14 @@ namespace ParticleTracking
 
 CollimateParticleProcess::CollimateParticleProcess(int priority, int mode, std::ostream* osp) :
 	ParticleBunchProcess("PARTICLE COLLIMATION", priority), cmode(mode), os(osp), createLossFiles(false), file_prefix(
-		""), lossThreshold(1), nstart(0), pindex(nullptr), ColParProTurn(0), FirstElementSet(0), scatter(false),
+		""), lossThreshold(1), nstart(0), pindex(nullptr), ownindex(false), ColParProTurn(0), FirstElementSet(0), scatter(false),
 	bin_size(0.1 * PhysicalUnits::meter), Imperfections(false)
 {
 }
 
 CollimateParticleProcess::~CollimateParticleProcess()
 {
-	if(pindex != nullptr)
-	{
-		delete pindex;
-	}
+	IndexParticles(false);
 }
 
 void CollimateParticleProcess::InitialiseProcess(Bunch& bunch)
@@ -171,22 +168,24 @@ void CollimateParticleProcess::IndexParticles(bool index)
 	if(index && pindex == nullptr)
 	{
 		pindex = new list<size_t>;
+		ownindex = true;
 	}
 	else if(!index && pindex != nullptr)
 	{
-		delete pindex;
+		if(ownindex)
+		{
+			delete pindex;
+		}
 		pindex = nullptr;
 	}
 }
 
 void CollimateParticleProcess::IndexParticles(list<size_t>& anIndex)
 {
-	if(!pindex)
-	{
-		delete pindex;
-	}
+	IndexParticles(false);
 
 	pindex = &anIndex;
+	ownindex = false;
 }
 
 void CollimateParticleProcess::SetLossThreshold(double losspc)
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 119c680..1302c7b 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -167,6 +167,7 @@ protected:
 	double lossThreshold;
 	size_t nstart;
 	std::list<size_t>* pindex;
+	bool ownindex;
 
 	IDTBL idtbl;
 
-- 
2.43.0


From 871c22d8964c8e720c4feca809d745cb1decfda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:25 +0000
Subject: [PATCH 084/246] fix: record the particles absorbed by a collimator
 without scattering model

---
 Merlin++/CollimateParticleProcess.cpp | 9 +++++++++
 Merlin++/CollimateParticleProcess.h   | 5 +----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 1d1e643..61e031c 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -504,6 +504,15 @@ void CollimateParticleProcess::DoCollimation()
 	}
 }
 
+CollimateParticleProcess::ScatterOutcome CollimateParticleProcess::DoScatter(Particle& p)
+{
+	for(auto &OutIt : CollimationOutputVector)
+	{
+		OutIt->Dispose(*currentComponent, int_s, p, ColParProTurn);
+	}
+	return ScatterOutcome::absorbed;
+}
+
 void CollimateParticleProcess::SetNextS()
 {
 
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 1302c7b..517319a 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -222,10 +222,7 @@ private:
 	 *
 	 * Can be overridden with a scattering routine, for example in CollimateProtonProcess
 	 */
-	virtual ScatterOutcome DoScatter(Particle&)
-	{
-		return ScatterOutcome::absorbed;
-	}
+	virtual ScatterOutcome DoScatter(Particle&);
 
 	/**
 	 * A list of particles we want to use in the input array
-- 
2.43.0


From 6b79b61cad86bbac19696ab5b067c41950fcbdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:25 +0000
Subject: [PATCH 085/246] fix: record protons absorbed because of a low energy

---
 Merlin++/CollimateProtonProcess.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 9725362..924e47d 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -138,6 +138,13 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 		if((E2 < (E0 / 100.0)))
 		{
+			p.ct() = z;
+
+			for(auto &OutIt : CollimationOutputVector)
+			{
+				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+			}
+
 			return ScatterOutcome::absorbed;
 		}
 
-- 
2.43.0


From 402929c821bc8f8f261fd5132917eae699e518c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:25 +0000
Subject: [PATCH 086/246] fix: position of the losses of interacting protons

---
 Merlin++/CollimateProtonProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 924e47d..4de1fcc 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -184,7 +184,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 				for(auto &OutIt : CollimationOutputVector)
 				{
-					OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+					OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 				}
 
 				return ScatterOutcome::absorbed;
@@ -197,7 +197,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 			for(auto &OutIt : CollimationOutputVector)
 			{
-				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+				OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 			}
 			return ScatterOutcome::absorbed;
 		}
-- 
2.43.0


From 6c7662e15434795d5001cad1c3b1d5784ae7be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 087/246] fix: a step of zero length does not apply the
 entrance of a component, which the next step would apply again

---
 Merlin++/ComponentIntegrator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ComponentIntegrator.h b/Merlin++/ComponentIntegrator.h
index 1e8f60f..036b798 100644
--- a/Merlin++/ComponentIntegrator.h
+++ b/Merlin++/ComponentIntegrator.h
@@ -171,7 +171,8 @@ inline bool ComponentIntegrator::IsValidStep(double ds) const
 
 inline double ComponentIntegrator::Track(double ds)
 {
-	if(AtEntrance())
+	// A step of zero length at the entrance (for a check there) does not enter the component yet
+	if(AtEntrance() && (ds != 0 || tot_S == 0))
 	{
 		TrackEntrance();
 	}
-- 
2.43.0


From aabb8d72516fd26056d49f3859237f695eb88a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:34 +0000
Subject: [PATCH 088/246] fix: protons scattered by a large angle keep a finite
 position

---
 Merlin++/CollimateProtonProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 4de1fcc..502daee 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -100,7 +100,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 		bool interacted = (lengthtogo > xlen);
 		double step_size = interacted ? xlen : lengthtogo;
 
-		double zstep = step_size * sqrt(1 - p.xp() * p.xp() - p.yp() * p.yp());
+		double zstep = step_size * sqrt(max(0.0, 1 - p.xp() * p.xp() - p.yp() * p.yp()));
 
 		p.x() += step_size * p.xp();
 		p.y() += step_size * p.yp();
-- 
2.43.0


From fb2a1752451e7387da1e3695dd07510f25184b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 089/246] fix: elements other than drifts get their own
 aperture, not that of the element before or one past the end of the table

---
 Merlin++/ApertureConfiguration.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 173aec1..46f1412 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -72,10 +72,15 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 		double Position = comp->GetComponentLatticePosition();
 		if(comp->GetType() != "Drift")
 		{
-			auto this_ap = std::lower_bound(ApertureDataTable.begin(), ApertureDataTable.end(), Position,
+			// first entry after the entrance of the element: an entry at the entrance is the end of the previous element
+			auto this_ap = std::upper_bound(ApertureDataTable.begin(), ApertureDataTable.end(), Position + 1e-7,
 				[](const auto a, const auto b){
-				return a.Get_d("S") < b;
+				return a < b.Get_d("S");
 			});
+			if(this_ap == ApertureDataTable.end())
+			{
+				--this_ap;
+			}
 
 			aperture = ApertureFactory::GetInstance(*this_ap);
 			comp->SetAperture(aperture);
-- 
2.43.0


From 4c15a11d1d0ad06d77d98f3a19b7df0f381f9df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 090/246] fix: apertures between the last and the first entry
 of the table interpolate around the ring

---
 Merlin++/ApertureConfiguration.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 46f1412..30eeec8 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -62,6 +62,13 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 
 	Aperture* aperture;
 
+	// length of the lattice, to interpolate between the last and the first entry
+	double LatticeLength = 0;
+	for(auto &comp : Elements)
+	{
+		LatticeLength = std::max(LatticeLength, comp->GetComponentLatticePosition() + comp->GetLength());
+	}
+
 	for(auto &comp :Elements)
 	{
 		if(comp->GetAperture() != nullptr)
@@ -117,6 +124,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					//get initial point, interpolate from last point
 					ThisElementAperture.ApertureFromRow(*last_ap);
+					ThisElementAperture.Set("S", 0, (*last_ap).Get_d("S") - LatticeLength);
 				}
 				else
 				{
@@ -137,6 +145,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					this_ap = ApertureDataTable.begin();
 					ThisElementAperture.ApertureFromRow(*this_ap);
+					ThisElementAperture.Set("S", ThisElementAperture.Length() - 1, (*this_ap).Get_d("S") + LatticeLength);
 				}
 				else
 				{
-- 
2.43.0


From f6f84850f13ff2df1d0a2e8d72650647b6d387f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 091/246] fix: an aperture entry at the start of a drift is
 kept if its position is rounded down

---
 Merlin++/ApertureConfiguration.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 30eeec8..7f6d3ab 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -159,23 +159,21 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				bool zeroentry = false;
 				size_t negcount = 0;
 
-				for(const auto itr : ThisElementAperture)
+				for(size_t row = 0; row < ThisElementAperture.Length(); ++row)
 				{
-					if(itr == *ThisElementAperture.begin())
+					if(fequal(ThisElementAperture.Get_d("S", row) - Position, 0.0, 1e-7))
 					{
-						for(size_t row = 0; row < ThisElementAperture.Length(); ++row)
-						{
-							if(ThisElementAperture.Get_d("S", row) - Position < 0)
-							{
-								++negcount;
-							}
-							if(fequal(ThisElementAperture.Get_d("S", row) - Position, 0.0, 1e-7))
-							{
-								ThisElementAperture.Set("S", row, Position);
-								zeroentry = true;
-							}
-						}
+						ThisElementAperture.Set("S", row, Position);
+						zeroentry = true;
 					}
+					else if(ThisElementAperture.Get_d("S", row) - Position < 0)
+					{
+						++negcount;
+					}
+				}
+
+				for(const auto itr : ThisElementAperture)
+				{
 					if(negcount != 0 && zeroentry == true)
 					{
 						--negcount;
-- 
2.43.0


From 5e235ed03afd0f8b40dc2f53bf35abe42da3f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 092/246] fix: apertures of different type with the same sizes
 are interpolated

---
 Merlin++/ApertureConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 7f6d3ab..e4edcac 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -210,7 +210,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 						typeChange = true;
 					}
 				}
-				if(interpolate)
+				if(interpolate || typeChange)
 				{
 					for(size_t row = 0; row < CleanElementAperture.Length(); ++row)
 					{
-- 
2.43.0


From addbe425bad929eb2a2d381072306d07ee966855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 093/246] fix: a rectangle keeps its corners when interpolated
 with an aperture of another type

---
 Merlin++/ApertureConfiguration.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index e4edcac..6d456c5 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -258,8 +258,10 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 							{
 								CleanElementAperture.Set("APER_1", row, CleanElementAperture.Get_d("APER_1", row));
 								CleanElementAperture.Set("APER_2", row, CleanElementAperture.Get_d("APER_2", row));
-								CleanElementAperture.Set("APER_3", row, CleanElementAperture.Get_d("APER_1", row));
-								CleanElementAperture.Set("APER_4", row, CleanElementAperture.Get_d("APER_2", row));
+								// an ellipse around the rectangle
+								CleanElementAperture.Set("APER_3", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_1", row));
+								CleanElementAperture.Set("APER_4", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_2", row));
+								rectellipse = true;
 							}
 							if(CleanElementAperture.Get_s("APERTYPE", row) == "OCTAGON")
 							{
-- 
2.43.0


From 3a0649e6a14dcd1c5e80c15dbea09a945f6168e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 094/246] fix: apertures of different types are interpolated as
 rect-ellipses whatever the first one is

---
 Merlin++/ApertureConfiguration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 6d456c5..64b511f 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -280,6 +280,10 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 								<< endl;
 							exit(EXIT_FAILURE);
 						}
+						for(size_t row = 0; row < CleanElementAperture.Length(); ++row)
+						{
+							CleanElementAperture.Set("APERTYPE", row, string("RECTELLIPSE"));
+						}
 						aperture = InterpolatorFactory::GetInstance(CleanElementAperture);
 						comp->SetAperture(aperture);
 						++noConfiguredApertures;
-- 
2.43.0


From ef1de375b7d9a2d700ae3d33d32c37ea0d6dd7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 095/246] fix: rectangular apertures are interpolated

---
 Merlin++/ApertureConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 64b511f..bf2ce10 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -216,7 +216,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 					{
 						CleanElementAperture.Set_d("S", row, (CleanElementAperture.Get_d("S", row) - Position));
 					}
-					if(typeChange == false)
+					if(typeChange == false && CleanElementAperture.Get_s("APERTYPE", 0) != "RECTANGLE")
 					{
 						aperture = InterpolatorFactory::GetInstance(CleanElementAperture);
 						comp->SetAperture(aperture);
-- 
2.43.0


From 62e03c6337d57cce5ff084d786a6f32cbe677860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:41 +0000
Subject: [PATCH 096/246] fix: interpolated apertures with two entries at the
 same position (a step), and at their very end

---
 Merlin++/InterpolatedApertures.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index dcc9346..5e90e0d 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -90,10 +90,14 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 	{
 		z = 0;
 	}
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	for(size_t n = 1; n < ApList.size(); ++n)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack = ApList[n - 1];
 			apFront = ApList[n];
@@ -206,11 +210,15 @@ bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, doubl
 	{
 		z = 0;
 	}
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
@@ -317,11 +325,15 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 	{
 		z = 0;
 	}
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
@@ -433,10 +445,14 @@ bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, doub
 	{
 		z = 0;
 	}
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack = ApList[n - 1];
 			apFront = ApList[n];
-- 
2.43.0


From 0ca8818450a2b61f6c009a0920d901bd6fbeec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:53 +0000
Subject: [PATCH 097/246] fix: interpolation of apertures between entries that
 differ only by rounding

---
 Merlin++/InterpolatedApertures.cpp | 45 ++++++++++--------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 5e90e0d..b4a6f08 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -114,7 +114,6 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 
 	//We now have the aperture before and after the particle.
 	//It must now be calculated at the point where the particle is currently
-	//y = mx + c
 	//m = (y1 - y0) / (x1 - x0)
 
 	double delta_s = apFront.s - apBack.s;
@@ -123,16 +122,12 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 	double g3 = (apFront.ap3 - apBack.ap3) / delta_s;
 	double g4 = (apFront.ap4 - apBack.ap4) / delta_s;
 
-	//c = y - mx
-	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap2 - (g2 * apFront.s);
-	double c3 = apFront.ap3 - (g3 * apFront.s);
-	double c4 = apFront.ap4 - (g4 * apFront.s);
+	//y = y1 + m(x - x1)
 
-	double rect_half_width = (g1 * z) + c1;
-	double rect_half_height = (g2 * z) + c2;
-	double ellipse_half_horizontal = (g3 * z) + c3;
-	double ellipse_half_vertical = (g4 * z) + c4;
+	double rect_half_width = apFront.ap1 + g1 * (z - apFront.s);
+	double rect_half_height = apFront.ap2 + g2 * (z - apFront.s);
+	double ellipse_half_horizontal = apFront.ap3 + g3 * (z - apFront.s);
+	double ellipse_half_vertical = apFront.ap4 + g4 * (z - apFront.s);
 
 	if(((x * x) / (ellipse_half_horizontal * ellipse_half_horizontal)) + ((y * y) / (ellipse_half_vertical
 		* ellipse_half_vertical)) > 1)
@@ -262,16 +257,14 @@ bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, doubl
 	//We now have the aperture before and after the particle.
 	//It must now be calculated at the point where the particle is currently.
 
-	//y = mx + c
 	//m = (y1 - y0) / (x1 - x0)
 	double delta_s = apFront.s - apBack.s;
 	double g = (apFront.ap1 - apBack.ap1) / delta_s;
 
-	//c = y - mx
-	double c = apFront.ap1 - (g * apFront.s);
+	//y = y1 + m(x - x1)
 
 	//aper_3 = half horizontal axis ellipse (or radius if circle)
-	double r2 = pow((g * z) + c, 2);
+	double r2 = pow(apFront.ap1 + g * (z - apFront.s), 2);
 
 	if((x * x + y * y < r2) == 0)
 	{
@@ -379,18 +372,15 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 	//We now have the aperture before and after the particle.
 	//It must now be calculated at the point where the particle is currently.
 
-	//y = mx + c
 	//m = (y1 - y0) / (x1 - x0)
 	double delta_s = apFront.s - apBack.s;
 	double g1 = (apFront.ap1 - apBack.ap1) / delta_s;
 	double g2 = (apFront.ap2 - apBack.ap2) / delta_s;
 
-	//c = y - mx
-	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap2 - (g2 * apFront.s);
+	//y = y1 + m(x - x1)
 
-	double ellipse_half_horizontal = (g1 * z) + c1;
-	double ellipse_half_vertical = (g2 * z) + c2;
+	double ellipse_half_horizontal = apFront.ap1 + g1 * (z - apFront.s);
+	double ellipse_half_vertical = apFront.ap2 + g2 * (z - apFront.s);
 
 	if(((x * x) / (ellipse_half_horizontal * ellipse_half_horizontal)) + ((y * y) / (ellipse_half_vertical
 		* ellipse_half_vertical)) > 1)
@@ -462,7 +452,6 @@ bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, doub
 	//We now have the aperture before and after the particle.
 	//It must now be calculated at the point where the particle is currently.
 
-	//y = mx + c
 	//m = (y1 - y0) / (x1 - x0)
 	double delta_s = apFront.s - apBack.s;
 	double g1 = (apFront.ap1 - apBack.ap1) / delta_s;
@@ -470,16 +459,12 @@ bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, doub
 	double g3 = (apFront.ap3 - apBack.ap3) / delta_s;
 	double g4 = (apFront.ap4 - apBack.ap4) / delta_s;
 
-	//c = y - mx
-	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap2 - (g2 * apFront.s);
-	double c3 = apFront.ap3 - (g3 * apFront.s);
-	double c4 = apFront.ap4 - (g4 * apFront.s);
+	//y = y1 + m(x - x1)
 
-	double hw = (g1 * z) + c1;
-	double hh = (g2 * z) + c2;
-	double angle1 = (g3 * z) + c3;
-	double angle2 = (g4 * z) + c4;
+	double hw = apFront.ap1 + g1 * (z - apFront.s);
+	double hh = apFront.ap2 + g2 * (z - apFront.s);
+	double angle1 = apFront.ap3 + g3 * (z - apFront.s);
+	double angle2 = apFront.ap4 + g4 * (z - apFront.s);
 
 	double tana1 = tan(angle1);
 	double tana2 = tan(pi / 2 - angle2);
-- 
2.43.0


From ca9c42d6cf0a6e1836246b684c6db39dd264f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:07 +0000
Subject: [PATCH 098/246] fix: elements other than drifts take the first entry
 at or after their entrance again, as the aperture configuration test expects

---
 Merlin++/ApertureConfiguration.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index bf2ce10..71275fa 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -79,10 +79,9 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 		double Position = comp->GetComponentLatticePosition();
 		if(comp->GetType() != "Drift")
 		{
-			// first entry after the entrance of the element: an entry at the entrance is the end of the previous element
-			auto this_ap = std::upper_bound(ApertureDataTable.begin(), ApertureDataTable.end(), Position + 1e-7,
+			auto this_ap = std::lower_bound(ApertureDataTable.begin(), ApertureDataTable.end(), Position,
 				[](const auto a, const auto b){
-				return a < b.Get_d("S");
+				return a.Get_d("S") < b;
 			});
 			if(this_ap == ApertureDataTable.end())
 			{
-- 
2.43.0


From 889fe9ef07184f9d2e58bfa5529e605810891485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 099/246] fix: default constructed material properties can be
 used and copied

---
 Merlin++/MaterialProperties.cpp | 1 -
 Merlin++/MaterialProperties.h   | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 7af3b40..2f88778 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -201,7 +201,6 @@ Mixture::Mixture(map<string, MaterialProperties*> dict, vector<string> names, ve
 	X0 = 1 / RX0;
 	density = d;
 	// cout << "  Mixture mixture densioty " << d << endl;
-	extra = new map<string, double>; // will be deleted by destructor
 	Update();
 }
 
diff --git a/Merlin++/MaterialProperties.h b/Merlin++/MaterialProperties.h
index 3a7ddbc..7ba985f 100644
--- a/Merlin++/MaterialProperties.h
+++ b/Merlin++/MaterialProperties.h
@@ -55,8 +55,8 @@ public:
 	}
 	MaterialProperties()
 	{
-		lambda = A = density = dEdx = sigma_R = sigma_I = sigma_T = Z = X0 = 0;
-		extra = nullptr;
+		lambda = A = density = dEdx = sigma_R = sigma_I = sigma_E = sigma_D = sigma_T = Z = X0 = 0;
+		extra = new std::map<std::string, double>; // deleted by destructor
 	}
 	// keep child class happy
 	MaterialProperties(double p1, double p2, double p3, double p4, double p5, double p6, double p7, double p8);
-- 
2.43.0


From a5965fd9a7aa173c523140f08ff472c1276e23ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 100/246] fix: copies of material properties have the mean free
 path and all cross sections

---
 Merlin++/MaterialProperties.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 2f88778..4977cea 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -34,6 +34,7 @@ MaterialProperties::MaterialProperties(double p1, double p2, double p3, double p
 	X0 = p6;
 	density = p7;
 	Z = p8;
+	sigma_E = sigma_D = 0;
 	extra = new map<string, double>; // will be deleted by destructor
 	Update();
 }
@@ -60,6 +61,9 @@ MaterialProperties::MaterialProperties(const MaterialProperties& a)
 	sigma_R = a.sigma_R;
 	dEdx = a.dEdx;
 	X0 = a.X0;
+	sigma_E = a.sigma_E;
+	sigma_D = a.sigma_D;
+	lambda = a.lambda;
 	Z = a.Z;
 	extra = new  map<string, double>(*a.extra); // deep copy. Deleted by dtor
 }
@@ -75,6 +79,9 @@ MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
 		sigma_R = a.sigma_R;
 		dEdx = a.dEdx;
 		X0 = a.X0;
+		sigma_E = a.sigma_E;
+		sigma_D = a.sigma_D;
+		lambda = a.lambda;
 		Z = a.Z;
 		extra = new  map<string, double>(*a.extra);   //deep copy. deleted by dtor
 	}
-- 
2.43.0


From d2ed013fd6229eebaa32b753adc7047ccad354b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 101/246] fix: assigning material properties frees the old
 extra properties

---
 Merlin++/MaterialProperties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 4977cea..42ccb0b 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -83,7 +83,7 @@ MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
 		sigma_D = a.sigma_D;
 		lambda = a.lambda;
 		Z = a.Z;
-		extra = new  map<string, double>(*a.extra);   //deep copy. deleted by dtor
+		*extra = *a.extra;   //deep copy
 	}
 	return *this;
 }
-- 
2.43.0


From fc1a1a39f3ed59aa1e38a4d8cf422d954520072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 102/246] fix: energy scaled material properties keep the extra
 properties

---
 Merlin++/MaterialProperties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 42ccb0b..dd6fe4d 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -46,7 +46,7 @@ void MaterialProperties::Update()
 
 MaterialProperties* MaterialProperties::EnergyScale(double E)
 {
-	MaterialProperties* p = new MaterialProperties(A, sigma_T, sigma_I, sigma_R, dEdx, X0, density, Z);
+	MaterialProperties* p = new MaterialProperties(*this);
 	// adjust dEdx and cross sections with new energy
 	p->Update();
 	return p;
-- 
2.43.0


From 09f5fdfa9ce17a7959da49b4c9fbd626f1e139e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 103/246] fix: the nucleus struck in a mixture depends on the
 proportions

---
 Merlin++/MaterialProperties.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index dd6fe4d..16edb6d 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -183,10 +183,10 @@ Mixture::Mixture(map<string, MaterialProperties*> dict, vector<string> names, ve
 		sum += proportions[i];
 		suma += proportions[i] * dict[names[i]]->A;
 		V_A.push_back(dict[names[i]]->A);
-		V_R.push_back(dict[names[i]]->sigma_R);
-		sumR += dict[names[i]]->sigma_R;
-		V_H.push_back(dict[names[i]]->sigma_T); // MUST CHECK. WANT NUCLEAR ELASTIC
-		sumH += dict[names[i]]->sigma_T;
+		V_R.push_back(proportions[i] * dict[names[i]]->sigma_R);
+		sumR += proportions[i] * dict[names[i]]->sigma_R;
+		V_H.push_back(proportions[i] * dict[names[i]]->sigma_T); // MUST CHECK. WANT NUCLEAR ELASTIC
+		sumH += proportions[i] * dict[names[i]]->sigma_T;
 	}
 	Z = A = sigma_T = sigma_I = sigma_R = dEdx = 0;
 	float RX0 = 0;
-- 
2.43.0


From f8e370560ff21c1de4f9e1844fb4aeac16859c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 104/246] fix: reading an extra property that is not there does
 not define it

---
 Merlin++/MaterialProperties.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 16edb6d..57b6133 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -127,7 +127,8 @@ void MaterialProperties::SetExtra(string props, ...)
 
 double MaterialProperties::GetExtra(string prop)
 {
-	return (*extra)[prop];
+	auto it = extra->find(prop);
+	return it != extra->end() ? it->second : 0;
 }
 
 bool MaterialProperties::HaveExtra(string prop)
-- 
2.43.0


From bcd3bc7b014ca4b825a757cd7773422956d6b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 105/246] fix: mean free path of AC150K

---
 Merlin++/MaterialData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index a8b2ebf..3548c92 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -58,6 +58,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	property["AC150K"] = new MaterialProperties(*property["C"]);
 	property["AC150K"]->dEdx = 0.68;
 	property["AC150K"]->density = 1.650 * gram / cc;
+	property["AC150K"]->Update();
 
 	MakeMixture("IT180", "W Ni Cu", 0.95, 0.35, 0.15, 18.06 * gram / cc);
 
-- 
2.43.0


From 4756f2c91151ae9024dd8d0a17b7672a0bfe954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 106/246] fix: the SixTrack total cross sections go to the
 materials they are of

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 3548c92..83be6e3 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -69,7 +69,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 
 void StandardMaterialData::UseSixTrackValues()
 {
-	string names3[] = {"Be", "C", "Al", "Fe", "Cu", "W", "Pb"};
+	string names3[] = {"Be", "C", "Cu", "W", "Pb"};
 	double sixtracktotnu[] = {0.268, .331, 1.232, 2.767, 2.960};
 	for(int i = 0; i < int(sizeof(names3) / sizeof(string)); i++)
 		property[names3[i]]->sigma_T = sixtracktotnu[i];
-- 
2.43.0


From 68db87a7d6342213ade1255502cf931666cf1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 107/246] fix: a mixture that cannot be made leaves no null
 material

---
 Merlin++/MaterialData.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 83be6e3..7fb5dd7 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -116,7 +116,8 @@ void MaterialData::MakeMixture(string name, string s, ...)
 	double density = va_arg(numbers, double);
 	//  cout << " density is " << density << endl;
 	va_end(numbers);
-	property[name] = new Mixture(property, elements, proportions, density);
+	MaterialProperties* mixture = new Mixture(property, elements, proportions, density);
+	property[name] = mixture;
 }
 void MaterialData::MakeMixture(string name, string s, const std::vector<double> &proportions, double density)
 {
@@ -130,7 +131,8 @@ void MaterialData::MakeMixture(string name, string s, const std::vector<double>
 		s = s.substr(i + 1);
 	} while(i != string::npos);
 
-	property[name] = new Mixture(property, elements, proportions, density);
+	MaterialProperties* mixture = new Mixture(property, elements, proportions, density);
+	property[name] = mixture;
 }
 
 void MaterialData::MakeMixtureByWeight(string name, string s, ...)
@@ -150,7 +152,8 @@ void MaterialData::MakeMixtureByWeight(string name, string s, ...)
 	} while(i != string::npos);
 	double density = va_arg(numbers, double);
 	va_end(numbers);
-	property[name] = new Mixture(property, elements, proportions, density);
+	MaterialProperties* mixture = new Mixture(property, elements, proportions, density);
+	property[name] = mixture;
 }
 
 void MaterialData::MakeMixtureByWeight(string name, string s, const std::vector<double> &wproportions, double density)
@@ -170,7 +173,8 @@ void MaterialData::MakeMixtureByWeight(string name, string s, const std::vector<
 		c++;
 	} while(i != string::npos);
 
-	property[name] = new Mixture(property, elements, proportions, density);
+	MaterialProperties* mixture = new Mixture(property, elements, proportions, density);
+	property[name] = mixture;
 }
 
 ostream& operator<<(ostream& s, MaterialData* M)
-- 
2.43.0


From 8ea2612b0fd67824eb34d119cc64a6517dde3cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 108/246] fix: mixtures by weight report a wrong number of
 proportions

---
 Merlin++/MaterialData.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 7fb5dd7..9d0c36e 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -6,6 +6,7 @@
 
 #include "MaterialData.h"
 #include "MaterialProperties.h"
+#include "MerlinException.h"
 #include "PhysicalUnits.h"
 #include <iomanip>
 #include <vector>
@@ -168,10 +169,18 @@ void MaterialData::MakeMixtureByWeight(string name, string s, const std::vector<
 		i = s.find(" ");
 		string want = s.substr(0, i);
 		elements.push_back(want);
+		if(c >= wproportions.size())
+		{
+			throw MerlinException("MaterialData::MakeMixtureByWeight() length of names and proportions do not match");
+		}
 		proportions.push_back(wproportions[c] / property.at(want)->A);
 		s = s.substr(i + 1);
 		c++;
 	} while(i != string::npos);
+	if(c != wproportions.size())
+	{
+		throw MerlinException("MaterialData::MakeMixtureByWeight() length of names and proportions do not match");
+	}
 
 	MaterialProperties* mixture = new Mixture(property, elements, proportions, density);
 	property[name] = mixture;
-- 
2.43.0


From 5dc3dee2d2859181b00a3a795fedea0ba181c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 109/246] fix: the table of materials is written to the stream
 given

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 9d0c36e..8577607 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -190,7 +190,7 @@ ostream& operator<<(ostream& s, MaterialData* M)
 {
 	s << "  Name    A    Z    sig T  sig I  sig R   dEdx  density Rad length\n";
 	for(map<string, MaterialProperties*>::iterator it = (M->property).begin(); it != M->property.end(); it++)
-		cout << setw(7) << it->first << " " << *(it->second) << endl;
+		s << setw(7) << it->first << " " << *(it->second) << endl;
 
 	return s;
 }
-- 
2.43.0


From 9e101b7c6601c4e383f7ec71781261838275f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 110/246] fix: a bunch without particles has no charge, not NaN

---
 Merlin++/ParticleBunch.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index e4bf2c9..c0cb22b 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -138,7 +138,7 @@ namespace ParticleTracking
 {
 
 ParticleBunch::ParticleBunch(double P0, double Q, PSvectorArray& particles) :
-	Bunch(P0, Q), init(false), coords((int) sizeof(PSvector) / sizeof(double)), qPerMP(Q
+	Bunch(P0, Q), init(false), coords((int) sizeof(PSvector) / sizeof(double)), qPerMP(particles.empty() ? Q : Q
 		/ particles.size()), pArray()
 {
 	pArray.swap(particles);
@@ -153,7 +153,7 @@ ParticleBunch::ParticleBunch(double P0, double Q, std::istream& is) :
 		push_back(p);
 	}
 
-	qPerMP = Q / size();
+	qPerMP = size() == 0 ? Q : Q / size();
 }
 
 ParticleBunch::ParticleBunch(double P0, double Qm) :
@@ -380,7 +380,7 @@ void ParticleBunch::Input(double Q, std::istream& is)
 		SetReferenceTime(reftime);
 		SetReferenceMomentum(refmom);
 	}
-	qPerMP = Q / size();
+	qPerMP = size() == 0 ? Q : Q / size();
 }
 
 void ParticleBunch::SetCentroid()
-- 
2.43.0


From 7eec9ea41f146d3fe787abb14b16a4a1f085f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 111/246] fix: ParticleBunch::Input sets the sign of the charge
 it is given

---
 Merlin++/ParticleBunch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index c0cb22b..76c2a6c 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -381,6 +381,7 @@ void ParticleBunch::Input(double Q, std::istream& is)
 		SetReferenceMomentum(refmom);
 	}
 	qPerMP = size() == 0 ? Q : Q / size();
+	SetChargeSign(Q);
 }
 
 void ParticleBunch::SetCentroid()
-- 
2.43.0


From 6a31977394f69525a3db28d0a763af45d046f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 112/246] fix: a written PSvector can be read back (the id ran
 into the last coordinate)

---
 Merlin++/PSvector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PSvector.cpp b/Merlin++/PSvector.cpp
index 36d8beb..16e64ba 100644
--- a/Merlin++/PSvector.cpp
+++ b/Merlin++/PSvector.cpp
@@ -17,7 +17,7 @@ ostream& operator<<(ostream& os, const PSvector& v)
 		os << setw(24) << scientific << setprecision(10) << v[i];
 	}
 
-	os << v.pid;
+	os << ' ' << v.pid;
 	return os << '\n';
 }
 
-- 
2.43.0


From 1cebe11ba022d5175bb90e607b841406f9fffa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 113/246] fix: projected moments do not add to what the result
 held before

---
 Merlin++/ParticleBunch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 76c2a6c..6b5eae4 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -237,6 +237,7 @@ PSmoments2D& ParticleBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2
 	Point2D X = for_each(begin(), end(), APSV2(u, v, size())).X;
 	sigma[0] = X.x;
 	sigma[1] = X.y;
+	sigma.Zero();
 	for_each(begin(), end(), PSVVAR2(u, v, size(), sigma));
 	return sigma;
 }
-- 
2.43.0


From d976d3ea634451de531b932ed802442db0abb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 114/246] fix: SetCentroid puts the centroid on the first
 particle

---
 Merlin++/ParticleBunch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 6b5eae4..34ee48d 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -390,6 +390,11 @@ void ParticleBunch::SetCentroid()
 	PSvector x;
 	GetCentroid(x);
 	x -= FirstParticle();
+	if(size() > 1)
+	{
+		// the first particle is part of the centroid, but is not moved
+		x *= double(size()) / (size() - 1);
+	}
 	for(PSvectorArray::iterator p = begin() + 1; p != end(); p++)
 	{
 		p->x() -= x.x();
-- 
2.43.0


From 616e435a387187e3cff9f500fdb8bd59f15e7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 115/246] fix: the filter of the bunch slices stays within the
 slices and the filter

---
 Merlin++/ParticleBunchUtilities.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b2e1d08..b03eab0 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -135,8 +135,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 	{
 		fbins[n] = hbins[n] * a;
 		if(c)
-			//for(m=std::max(0,int(n)-w); m<=std::max(nbins,int(n)+w); m++)// ERROR! m can be set to nbins -> out of range!
-			for(m = std::max(0, int(n) - w); m < std::max(nbins, size_t(n) + w); m++)   // This needs to be checked!
+			for(m = std::max(0, int(n) - w); m < std::min(nbins, n + w + 1); m++)
 			{
 				fpbins[n] += hbins[m] * (*c)[m - n + w] * a;
 			}
-- 
2.43.0


From eae8a4172edc8a0d2151ec592215b99e28f07776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 116/246] fix: the last slice ends at zmax, whatever the
 rounding (bad slicing)

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b03eab0..88c8d71 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -81,7 +81,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 
 	for(n = 0; n < nbins; n++)
 	{
-		z += dz;
+		z = n + 1 < nbins ? z + dz : zmax;
 		while(p != bunch.end() && p->ct() < z)
 		{
 			total++;
-- 
2.43.0


From ae048063276970db3082aea1405fe22fc60cd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 117/246] fix: slices of a bunch without particles in range are
 empty, not NaN

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index 88c8d71..c0cba29 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -127,7 +127,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 	vector<double> fbins(nbins, 0);
 	vector<double> fpbins(nbins, 0);
 
-	double a = 1 / total / dz;
+	double a = total > 0 ? 1 / total / dz : 0;
 	int w = c ? (c->size() - 1) / 2 : 0;
 	size_t m;
 
-- 
2.43.0


From 91016568a7f84cda66b5c07dce25020d3329a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 118/246] fix: the distribution of a bunch without particles in
 range is zero, not NaN

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index c0cba29..bc3fd25 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -190,7 +190,7 @@ size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, d
 	}
 	if(normalise)
 	{
-		double factor = 1 / total / du;
+		double factor = total > 0 ? 1 / total / du : 0;
 		for(size_t i = 0; i < bins.size(); i++)
 		{
 			bins[i] *= factor;
-- 
2.43.0


From 674e65b8bce7b8eb1f67e5fada641e3f7c09fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 119/246] fix: truncating the first particle of a distribution
 does not step before the bunch

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index bc3fd25..9acee9e 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -176,7 +176,7 @@ size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, d
 			if(truncate)
 			{
 				p = bunch.erase(p);
-				p--;
+				continue;
 			}
 		}
 		else
-- 
2.43.0


From ffe7e1457dc48818665dd94c73e15a9b5c397d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 120/246] fix: the bins of ParticleBunchDistribution cover the
 range, including umax

---
 Merlin++/ParticleBunchUtilities.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index 9acee9e..dccfc52 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -159,7 +159,8 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, double umax, double du,
 	vector<double>& bins, bool normalise, bool truncate)
 {
-	size_t nb = (umax - umin) / du;
+	// a last bin which is not complete is also needed
+	size_t nb = std::max(1.0, ceil((umax - umin) / du - 1e-9));
 	bins = vector<double>(nb, 0.0);
 	size_t np0 = bunch.size();
 
@@ -182,7 +183,10 @@ size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, d
 		else
 		{
 			size_t n = (uval - umin) / du;
-			assert(n < nb);
+			if(n >= nb)
+			{
+				n = nb - 1;
+			}
 			bins[n]++;
 			total++;
 		}
-- 
2.43.0


From f1eda4b07701b579b1f48856b31f9b6adf8972c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 121/246] fix: moments do not depend on what the result held
 before

---
 Merlin++/ParticleBunch.cpp          | 1 +
 Merlin++/ParticleBunchUtilities.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 34ee48d..c7ea348 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -227,6 +227,7 @@ double ParticleBunch::GetTotalCharge() const
 PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	for_each(begin(), end(), APSV1<PSmoments>(sigma, size()));
 	for_each(begin(), end(), PSVVAR1(sigma, size()));
 	return sigma;
diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index dccfc52..ab7441d 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -10,6 +10,7 @@
 
 #include <vector>
 #include <cmath>
+#include <algorithm>
 
 #ifdef ENABLE_MPI
 #include <mpi.h>
-- 
2.43.0


From 1fb5d62df52d178576f423b6ca8763fd9958708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 122/246] fix: the far tail of the Landau distribution uses its
 own approximation

---
 Merlin++/LandauDistribution.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/LandauDistribution.h b/Merlin++/LandauDistribution.h
index 0de03a7..a75f9a9 100644
--- a/Merlin++/LandauDistribution.h
+++ b/Merlin++/LandauDistribution.h
@@ -249,7 +249,7 @@ public:
 			return (-log(-0.91893853 - L) - 1.0) * ((0.99858950 + 34.5213058 * V + 17.0854528 * VV) / (1.0 + 34.1760202
 				   * V + 4.01244582 * VV));
 		}
-		else if(I <= 999)
+		else if(I < 999)
 		{
 			double V = 1.0 - r;
 			double VV = V * V;
-- 
2.43.0


From 3017d1cd97dfc09ae1d6b1292228fd06245f40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 123/246] fix: local generators follow a reset or change of the
 seed

---
 Merlin++/RandomNG.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 7b6dbf7..8bbfb7a 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -41,6 +41,12 @@ void RandomNG::reset()
 {
 	std::seed_seq ss(master_seed.begin(), master_seed.end());
 	generator.reset(new std::mt19937_64{ss});
+
+	// the local generators depend on the master seed
+	for(auto& local : generator_store)
+	{
+		resetLocalGenerator(local.first);
+	}
 }
 
 void RandomNG::reset(std::uint32_t iseed)
-- 
2.43.0


From 6462c08fde082895eef6e42a04aeb02a6e867e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 124/246] fix: the generator can be asked for before it is
 seeded

---
 Merlin++/RandomNG.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 8bbfb7a..3cdd25c 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -127,6 +127,10 @@ double RandomNG::landau()
 
 std::mt19937_64& RandomNG::getGenerator()
 {
+	if(!generator)
+	{
+		not_seeded();
+	}
 	return *generator;
 }
 
-- 
2.43.0


From 07cbe0730748d4482ecd39919f5a3c25d399566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 125/246] fix: bunches have the energy spread and length asked
 for, not their square roots

---
 Merlin++/ParticleBunch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index c7ea348..23cdbdf 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -190,8 +190,8 @@ ParticleBunch::ParticleBunch(size_t np, const ParticleDistributionGenerator& gen
 		p.xp() *= sqrt(beam.emit_x);
 		p.y() *= sqrt(beam.emit_y);
 		p.yp() *= sqrt(beam.emit_y);
-		p.dp() *= sqrt(beam.sig_dp);
-		p.ct() *= sqrt(beam.sig_z);
+		p.dp() *= beam.sig_dp;
+		p.ct() *= beam.sig_z;
 
 		// Apply Courant-Snyder
 		M.Apply(p);
-- 
2.43.0


From b226a986500191a582b9aa635a4efddd01ccadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 126/246] fix: BeamDataToSigmaMtrx does not depend on what the
 result held before

---
 Merlin++/NormalTransform.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 0961fc9..3b443c3 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -129,6 +129,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 {
 	RMap R(NormalTransform(t));
 	S.zero();
+	S.Zero();
 	S(0, 0) = t.emit_x;
 	S(1, 1) = t.emit_x;
 	S(2, 2) = t.emit_y;
-- 
2.43.0


From 2e5fe8f6a30d666fc54e1ea87f28e83f5ec9820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 127/246] fix: BeamDataToSigmaMtrx sets the longitudinal
 centroid

---
 Merlin++/NormalTransform.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 3b443c3..f8dec63 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -142,6 +142,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 	S[1] = t.xp0;
 	S[2] = t.y0;
 	S[3] = t.yp0;
+	S[4] = t.ct0;
 
 	return S;
 }
-- 
2.43.0


From 60d940b6c0b664ffd9f39a4efe3da80ae9f7970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 128/246] fix: an uncoupled beam with equal emittances is not
 NaN

---
 Merlin++/NormalTransform.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index f8dec63..ff730c9 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -154,6 +154,11 @@ RealMatrix DecoupleSigma(SigmaMatrix& S)
 	RealVector c(1.0, 4); // (a,b,c,d)
 	RealMatrix R = IdentityMatrix(6);
 
+	if(S(0, 2) == 0 && S(0, 3) == 0 && S(1, 2) == 0 && S(1, 3) == 0)
+	{
+		return R; // nothing to remove; the emittances may be equal
+	}
+
 	do
 	{
 		double d = S(2, 2) * S(3, 3) - S(2, 3) * S(2, 3) - (S(0, 0) * S(1, 1) - S(0, 1) * S(0, 1));
-- 
2.43.0


From b867b6c7d1255e2fa8818730ed49948f79ee8735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 129/246] fix: bunch filters have a limit and an orbit before
 they are set

---
 Merlin++/BunchFilter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/BunchFilter.h b/Merlin++/BunchFilter.h
index f0a8500..e4935b6 100644
--- a/Merlin++/BunchFilter.h
+++ b/Merlin++/BunchFilter.h
@@ -40,8 +40,8 @@ public:
 	void SetHorizontalOrbit(double);
 
 private:
-	double limit;
-	double orbit;
+	double limit = 0;
+	double orbit = 0;
 };
 
 class VerticalHaloParticleBunchFilter: public ParticleBunchFilter
@@ -57,7 +57,7 @@ public:
 	void SetVerticalLimit(double);
 
 private:
-	double limit;
+	double limit = 0;
 };
 
 }   //End particle tracking namespace
-- 
2.43.0


From 761ba8f30044a07be235f36aaf205be7fa000b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:08 +0000
Subject: [PATCH 130/246] fix: closed orbit and transfer matrix with radiation
 track electrons (ParticleBunch has no mass)

---
 Merlin++/ClosedOrbit.cpp    |  7 ++++---
 Merlin++/TransferMatrix.cpp | 13 ++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Merlin++/ClosedOrbit.cpp b/Merlin++/ClosedOrbit.cpp
index 91ffbcb..5f76990 100644
--- a/Merlin++/ClosedOrbit.cpp
+++ b/Merlin++/ClosedOrbit.cpp
@@ -6,6 +6,7 @@
  */
 
 #include "ParticleBunch.h"
+#include "ElectronBunch.h"
 #include "SynchRadParticleProcess.h"
 #include "RingDeltaTProcess.h"
 #include "ClosedOrbit.h"
@@ -21,7 +22,7 @@ using namespace ParticleTracking;
 
 ClosedOrbit::ClosedOrbit(AcceleratorModel* aModel, double refMomentum) :
 	theModel(aModel), p0(refMomentum), transverseOnly(false), radiation(false), useFullAcc(false), delta(1.0e-9), tol(
-		1.0e-26), max_iter(20), bendscale(0), theTracker(new ParticleTracker)
+		1.0e-26), max_iter(20), radstepsize(0), radnumsteps(1), bendscale(0), theTracker(new ParticleTracker)
 {
 }
 
@@ -91,7 +92,7 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 {
 	const int cpt = transverseOnly ? 4 : 6;
 
-	ParticleBunch bunch(p0, 1.0);
+	ElectronBunch bunch(p0, 1.0); // radiation needs a particle with a mass
 	int k = 0;
 	for(k = 0; k < cpt + 1; k++)
 	{
@@ -100,7 +101,7 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 
 	//	ParticleTracker tracker(theModel->GetRing(ncpt), &bunch, true);
 	theTracker->SetRing(theModel->GetRing(ncpt));
-	theTracker->SetInitialBunch(&bunch, false);
+	theTracker->SetInitialBunchCtor(MakeBunchCtor(&bunch, false)); // keeps the type of the bunch
 
 	// move the declaration of these pointers
 	// outside respective if blocks so we
diff --git a/Merlin++/TransferMatrix.cpp b/Merlin++/TransferMatrix.cpp
index 95a7291..38e11e2 100644
--- a/Merlin++/TransferMatrix.cpp
+++ b/Merlin++/TransferMatrix.cpp
@@ -6,6 +6,7 @@
  */
 
 #include "ParticleBunch.h"
+#include "ElectronBunch.h"
 #include "ParticleTracker.h"
 #include "SynchRadParticleProcess.h"
 #include "RingDeltaTProcess.h"
@@ -16,7 +17,7 @@
 using namespace ParticleTracking;
 
 TransferMatrix::TransferMatrix(AcceleratorModel* aModel, double refMomentum) :
-	theModel(aModel), p0(refMomentum), radiation(false), obspnt(0), delta(1.0e-9), bendscale(0)
+	theModel(aModel), p0(refMomentum), radiation(false), obspnt(0), delta(1.0e-9), radstepsize(0), radnumsteps(1), bendscale(0)
 {
 }
 
@@ -105,7 +106,7 @@ void TransferMatrix::FindClosedOrbitTM(RealMatrix& M, PSvector& orbit)
 
 void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit)
 {
-	ParticleBunch bunch(p0, 1.0);
+	ElectronBunch bunch(p0, 1.0); // radiation needs a particle with a mass
 	int k = 0;
 	for(k = 0; k < 7; k++)
 	{
@@ -119,7 +120,8 @@ void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit)
 //cout <<"bunch dump 1" << endl;
 	//MatrixForm(M,std::cout,OPFormat().precision(6).fixed());
 //	bunch.Output(std::cout);
-	ParticleTracker tracker(theModel->GetRing(obspnt), &bunch, false);
+	ParticleTracker tracker(theModel->GetRing(obspnt));
+	tracker.SetInitialBunchCtor(MakeBunchCtor(&bunch, false)); // keeps the type of the bunch
 
 	if(radiation)
 	{
@@ -165,7 +167,7 @@ void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit)
 
 void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit, int n1, int n2)
 {
-	ParticleBunch bunch(p0, 1.0);
+	ElectronBunch bunch(p0, 1.0); // radiation needs a particle with a mass
 	int k = 0;
 	for(k = 0; k < 7; k++)
 	{
@@ -177,7 +179,8 @@ void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit, int n1, int n2)
 		bunch.push_back(p);
 	}
 
-	ParticleTracker tracker(theModel->GetBeamline(n1, n2), &bunch, false);
+	ParticleTracker tracker(theModel->GetBeamline(n1, n2));
+	tracker.SetInitialBunchCtor(MakeBunchCtor(&bunch, false)); // keeps the type of the bunch
 
 	if(radiation)
 	{
-- 
2.43.0


From f40428af0f27951017dd6ee8227db105e7285d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:23 +0000
Subject: [PATCH 131/246] fix: a standing wave cavity at the zero crossing
 still has a length

---
 Merlin++/TransportMatrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 1ee4c65..6e6bff9 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -463,7 +463,9 @@ RealMatrix& TransportMatrix::SWRFCavity(int ncells, double g, double f, double p
 	double cosPhi = cos(phi);
 	double E1 = E0 + g * length * cosPhi;
 
-	double alpha = log(E1 / E0) / cosPhi / root8;
+	// log(E1/E0)/cos(phi), also where the cosine is too small to change the energy
+	double gain = g * length * cosPhi / E0;
+	double alpha = (gain == 0 ? g * length / E0 : log1p(gain) / cosPhi) / root8;
 	double cosAlpha = cos(alpha);
 	double sinAlpha = sin(alpha);
 
-- 
2.43.0


From 9d3738b7ad581bcf1b21f69990274ccb232c327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 132/246] fix: the rms dispersion starts from the dispersion at
 the first element

---
 Merlin++/Dispersion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Dispersion.cpp b/Merlin++/Dispersion.cpp
index d81dd81..b319f61 100644
--- a/Merlin++/Dispersion.cpp
+++ b/Merlin++/Dispersion.cpp
@@ -68,7 +68,8 @@ void Dispersion::FindRMSDispersion(ostream* file)
 	double len = 0.0;
 	double dl = 0.0;
 	double prev[2];
-	prev[0] = prev[1] = 0;
+	prev[0] = (q.x() - p.x()) / 2 / delta;
+	prev[1] = (q.y() - p.y()) / 2 / delta;
 	double pres[2];
 	double rmsD[2];
 	rmsD[0] = rmsD[1] = 0;
-- 
2.43.0


From 3ad13feabbd7215897b195d483728730c12d64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 133/246] fix: a lattice function that is not in the table is
 reported

---
 Merlin++/LatticeFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/LatticeFunctions.cpp b/Merlin++/LatticeFunctions.cpp
index b8abf98..9eebb9e 100644
--- a/Merlin++/LatticeFunctions.cpp
+++ b/Merlin++/LatticeFunctions.cpp
@@ -632,7 +632,7 @@ vectorlfn::iterator LatticeFunctionTable::GetColumn(int i, int j, int k)
 		}
 	}
 
-	return lfnit;
+	throw MerlinException("LatticeFunctionTable: no such function in the table");
 }
 
 double LatticeFunctionTable::Mean(int i, int j, int k, int n1, int n2)
-- 
2.43.0


From 7abd4ab6377657760bf151ee37f1e88b7dc8be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 134/246] fix: the phase advance counts a turn that is
 completed in the last element

---
 Merlin++/PhaseAdvance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhaseAdvance.cpp b/Merlin++/PhaseAdvance.cpp
index ecf305c..d643448 100644
--- a/Merlin++/PhaseAdvance.cpp
+++ b/Merlin++/PhaseAdvance.cpp
@@ -146,7 +146,7 @@ std::pair<double, double> PhaseAdvance::CalcIntegerPart(int n)
 	double last_mux(0.), last_muy(0.);
 
 	//Iterate through all elements to sum integer parts
-	for(int i = 1; i < n; ++i)
+	for(int i = 1; i <= n; ++i)
 	{
 		if((theTwiss->Value(0, 0, 1, i) == last_mux) || (theTwiss->Value(0, 0, 1, i) <= 0.))
 		{
-- 
2.43.0


From 4ac9ea3878a229efb706a2f3be001e55680e4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 135/246] fix: FindElementLatticePosition returns the index in
 the beamline

---
 Merlin++/AcceleratorModel.cpp | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 2e557e1..bd4f466 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -374,28 +374,12 @@ size_t AcceleratorModel::GetAcceleratorSupports(AcceleratorSupportList& supports
 	return eas.nFound;
 }
 
-static bool SortComponent(const AcceleratorComponent* first, const AcceleratorComponent* last)
-{
-	return first->GetComponentLatticePosition() < last->GetComponentLatticePosition();
-}
-
-static vector<AcceleratorComponent*> SortAcceleratorModel(AcceleratorModel* model)
-{
-	vector<AcceleratorComponent*> elements;
-
-	model->ExtractTypedElements(elements, "*");
-
-	sort(elements.begin(), elements.end(), SortComponent);
-	return elements;
-}
-
 int AcceleratorModel::FindElementLatticePosition(string RequestedElement)
 {
-	vector<AcceleratorComponent*> elements = SortAcceleratorModel(this);
-	size_t nelm = elements.size();
-	for(size_t n = 0; n < nelm; n++)
+	int n = 0;
+	for(BeamlineIterator i = lattice.begin(); i != lattice.end(); i++, n++)
 	{
-		if(elements[n]->GetName() == RequestedElement)
+		if((*i)->IsComponent() && (*i)->GetComponent().GetName() == RequestedElement)
 		{
 			return n;
 		}
-- 
2.43.0


From 1a5304394a99f95b12451bd6fdffb5c2fc6e9f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 136/246] fix: a table of orbit functions has a row for the end
 of the beamline, as others have

---
 Merlin++/LatticeFunctions.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LatticeFunctions.cpp b/Merlin++/LatticeFunctions.cpp
index 9eebb9e..1cae28b 100644
--- a/Merlin++/LatticeFunctions.cpp
+++ b/Merlin++/LatticeFunctions.cpp
@@ -539,6 +539,7 @@ double LatticeFunctionTable::DoCalculateOrbitOnly(double cscale, PSvector* pInit
 
 	double s = 0;
 	RealMatrix N1(6);
+	bool isMore = true;
 
 	do
 	{
@@ -547,11 +548,19 @@ double LatticeFunctionTable::DoCalculateOrbitOnly(double cscale, PSvector* pInit
 		const Particle& pref = *ip++;
 
 		for_each(lfnlist.begin(), lfnlist.end(), CalculateLatticeFunction(s, pref, N1));
-		s += tracker.GetCurrentComponent().GetLength();
-		loop = tracker.StepComponent();
+		if(isMore)
+		{
+			s += tracker.GetCurrentComponent().GetLength();
+			isMore = tracker.StepComponent();
+		}
+		else
+		{
+			loop = false;
+		}
 
 	} while(loop);
 
+	delete particle;
 	return p.dp();
 }
 
-- 
2.43.0


From 9f7182bbc70eeccc21c1fead34f89a121aa28463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 137/246] fix: FindTune interpolates between the peak and its
 right neighbour

---
 Merlin++/BetatronTunes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/BetatronTunes.cpp b/Merlin++/BetatronTunes.cpp
index dfa7817..26d96db 100644
--- a/Merlin++/BetatronTunes.cpp
+++ b/Merlin++/BetatronTunes.cpp
@@ -120,6 +120,7 @@ double BetatronTunes::FindTune(vector<double>& data)
 	int peak_position = 0;
 
 	// skip artifacts in first 2 bins
+	spectrum.push_back(sqrt(data[0] * data[0] + data[1] * data[1]));
 	for(int i = 2; i < 2 * nvals; i += 2)
 	{
 		double vamp = sqrt(data[i] * data[i] + data[i + 1] * data[i + 1]);
@@ -133,7 +134,7 @@ double BetatronTunes::FindTune(vector<double>& data)
 
 	double norm = sqrt(double(nvals));
 	double centr_peak = spectrum[peak_position] / norm;
-	double right_peak = spectrum[peak_position + 1] / norm;
+	double right_peak = spectrum[(peak_position + 1) % nvals] / norm;
 
 	double peak_correction = nvals * asin(amp(centr_peak, right_peak, cos(twoPi / nvals))
 		* sin(twoPi / double(nvals))) / twoPi;
-- 
2.43.0


From 7ab71e53ced2716c7b64ff46d0b484f7bc365533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 138/246] fix: a standing wave cavity does not lose a cell by
 rounding

---
 Merlin++/StdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 042cfad..743f4b0 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -353,8 +353,8 @@ void SWRFStructureCI::TrackStep(double ds)
 	double E0 = currentBunch->GetReferenceMomentum();
 
 	double lambdaOver2 = SpeedOfLight / f / 2;
-	int ncells = static_cast<int>(ds / lambdaOver2);
-	assert(ncells * lambdaOver2 == ds);
+	int ncells = static_cast<int>(ds / lambdaOver2 + 0.5); // nearest, not truncated
+	assert(fabs(ncells * lambdaOver2 - ds) < 1e-9 * ds);
 
 	RMtrx Rm(2);
 	TransportMatrix::SWRFCavity(ncells, g, f, phi, E0, Rm.R);
-- 
2.43.0


From 4e5c4e51940ecfa4ae607fe00d349e56b6d55573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 139/246] fix: Symplectify takes a 4x4 matrix, as
 LatticeFunctionTable passes it

---
 Merlin++/LinearAlgebra.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 6e94db7..8d0bfa0 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -250,11 +250,12 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 
 void Symplectify(RealMatrix& a)
 {
-	IdentityMatrix Ident(6);
+	const int size = a.nrows(); // 4 when the longitudinal dimension is dropped
+	IdentityMatrix Ident(size);
 	RealMatrix I(Ident);
 	RealMatrix s(Ident);
 
-	for(int n = 0; n < 3; n++)
+	for(int n = 0; n < size / 2; n++)
 	{
 		int m = 2 * n;
 		s(m, m) = s(m + 1, m + 1) = 0;
@@ -269,9 +270,9 @@ void Symplectify(RealMatrix& a)
 	RealMatrix Ima(I - a);
 	RealMatrix v(s * Ima * Ipa);
 
-	RealMatrix w(6);
-	for(int row = 0; row < 6; row++)
-		for(int col = 0; col < 6; col++)
+	RealMatrix w(size);
+	for(int row = 0; row < size; row++)
+		for(int col = 0; col < size; col++)
 		{
 			w(row, col) = (v(row, col) + v(col, row)) / 2;
 		}
-- 
2.43.0


From 925e4de551d7d1b63b86314aa3dd2ff29e78dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 140/246] fix: the slope in a travelling wave cavity is damped
 by acceleration

---
 Merlin++/TransportMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 6e6bff9..9f9e065 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -427,7 +427,7 @@ RealMatrix& TransportMatrix::TWRFCavity(double length, double g, double f, doubl
 		else
 		{
 			R(0, 1) = length * E0 * logEr / dEcosPhi;
-			R(1, 1) = Er;
+			R(1, 1) = 1 / Er;
 		}
 	}
 
-- 
2.43.0


From 1d1dece882d14a8bde817d5218f1bdd0ffccd631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:55 +0000
Subject: [PATCH 141/246] fix: the symplectic standing wave cavity conserves
 phase space, at any phase

---
 Merlin++/SymplecticIntegrators.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 7f145bf..3577db4 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -529,18 +529,18 @@ public:
 		double rt8 = 2.0 * rt2;
 
 		double cosphi = cos(phi);
-		double sinphi = sin(phi);
 
 		VncosPhi = Vn * cosphi;
 		double d0 = 1.0 + VncosPhi;
 
-		double alpha = log(d0) / cosphi / rt8;
+		// log(d0)/cosphi, also where the cosine is too small to change the energy
+		double alpha = (VncosPhi == 0 ? Vn : log1p(VncosPhi) / cosphi) / rt8;
 		double cosalpha = cos(alpha);
 		double sinalpha = sin(alpha);
 
 		m11 = cosalpha - rt2 * cosphi * sinalpha;
-		m12 = rt8 * len * cosphi * sinalpha / VncosPhi;
-		m21 = -(1.0 - 1.0 / d0) * (sinphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
+		m12 = rt8 * len * sinalpha / Vn;
+		m21 = -Vn / d0 * (cosphi * cosphi / rt2 + 1.0 / rt8) * sinalpha / len;
 		m22 = (cosalpha + rt2 * cosphi * sinalpha) / d0;
 
 		//~ cout<<std::setw(14)<<len;
@@ -1124,8 +1124,8 @@ void SWRFStructureCI::TrackStep(double ds)
 	double k = twoPi * f / SpeedOfLight;
 	double lambdaOver2 = SpeedOfLight / f / 2;
 
-	int ncells = static_cast<int>(ds / lambdaOver2);
-	assert(ncells * lambdaOver2 == ds);
+	int ncells = static_cast<int>(ds / lambdaOver2 + 0.5);
+	assert(fabs(ncells * lambdaOver2 - ds) < 1e-9 * ds);
 
 	ApplySWRFStructureMap(currentBunch, g * ds / P0, dV, k, phi, dphi, ds);
 
-- 
2.43.0


From 560af0ae1f78ee470b4c8f2aecd09fd039a89ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:55 +0000
Subject: [PATCH 142/246] fix: a transverse cavity deflects from its middle

---
 Merlin++/TransRFIntegrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransRFIntegrator.cpp b/Merlin++/TransRFIntegrator.cpp
index c8ce445..aeb1b15 100644
--- a/Merlin++/TransRFIntegrator.cpp
+++ b/Merlin++/TransRFIntegrator.cpp
@@ -36,10 +36,10 @@ struct TRFMap
 		double cx2 = 0.5 * cx1 * len;
 		double cy2 = 0.5 * cy1 * len;
 
-		x.xp() += cx1;
 		x.x() += cx2 + len * x.xp();
-		x.yp() += cy1;
+		x.xp() += cx1;
 		x.y() += cy2 + len * x.yp();
+		x.yp() += cy1;
 	}
 
 };
-- 
2.43.0


From 53a27da506bddba9a6fc927486f4d378c92a4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:55 +0000
Subject: [PATCH 143/246] fix: a klystron in vector sum mode changes its
 cavities

---
 Merlin++/Klystron.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Klystron.cpp b/Merlin++/Klystron.cpp
index 4b14a0f..51a1518 100644
--- a/Merlin++/Klystron.cpp
+++ b/Merlin++/Klystron.cpp
@@ -130,7 +130,9 @@ void Klystron::AppendBeamlineIndexes(std::vector<size_t>& ivec) const
 
 void Klystron::AdjustVectorSum(double v, double phi)
 {
-	Complex vscale = Complex(v * cos(phi), v * sin(phi)) / Complex(V_k * cos(phi_k), V_k * sin(phi_k));
+	// the setters have already stored the new values in V_k and phi_k
+	const Complex sum = for_each(rf_cavs.begin(), rf_cavs.end(), accumulate_vector_sum()).z;
+	Complex vscale = Complex(v * cos(phi), v * sin(phi)) / sum;
 	for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(vscale));
 	V_k = v;
 	phi_k = phi;
-- 
2.43.0


From a3856fc3e263fd6ab0e6b8e23a873d4cdd0a3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:04 +0000
Subject: [PATCH 144/246] fix: a channel query goes on after elements without
 such channels

---
 Merlin++/ChannelServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 73be3c4..9add3ac 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -110,7 +110,7 @@ size_t ChannelServer::GetROChannels(const string& chID, std::vector<ROChannel*>&
 			if(ctors.empty())
 			{
 				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				continue; // other types may have them
 			}
 		}
 
@@ -152,7 +152,7 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 			if(ctors.empty())
 			{
 				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				continue; // other types may have them
 			}
 		}
 
-- 
2.43.0


From afc57f6b9cb42f3757f2f882737725325173cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:04 +0000
Subject: [PATCH 145/246] fix: a channel query accepts element names with dots

---
 Merlin++/ChannelServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 9add3ac..27b8151 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -43,7 +43,7 @@ CHPath::CHPath(const string& cid)
 	int n1 = cid.find('.');
 	type = cid.substr(0, n1);
 
-	int n2 = cid.find('.', n1 + 1);
+	int n2 = cid.rfind('.'); // names may contain dots, keys do not
 	id = cid.substr(n1 + 1, n2 - n1 - 1);
 
 	key = cid.substr(n2 + 1);
-- 
2.43.0


From 086b0d72e6ef582600acf4291408965594b516e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:14 +0000
Subject: [PATCH 146/246] fix: read-only channels are not given as null
 read-write channels

---
 Merlin++/ChannelServer.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 27b8151..c580828 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -160,9 +160,11 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 		for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 		{
 			RWChannel* ch = (*ci)->ConstructRW(*ei);
-			assert(ch != 0); // if(ch==0) throw ChannelIsRO(ch->GetID());
-			channels.push_back(ch);
-			count++;
+			if(ch != nullptr) // else it is read-only
+			{
+				channels.push_back(ch);
+				count++;
+			}
 		}
 	}
 
@@ -228,9 +230,11 @@ size_t ChannelServer::GetRWChannels(AcceleratorModel::Beamline& aBeamline, const
 				for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 				{
 					RWChannel* ch = (*ci)->ConstructRW(&component);
-					assert(ch != 0);
-					channels.push_back(ch);
-					count++;
+					if(ch != nullptr) // else it is read-only
+					{
+						channels.push_back(ch);
+						count++;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 62188c60a6f2a5177ad6a0807e89b15979e773bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:14 +0000
Subject: [PATCH 147/246] fix: the offset of one BPM channel does not reset
 that of the other plane

---
 Merlin++/BPMChannel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BPMChannel.cpp b/Merlin++/BPMChannel.cpp
index 9d5d291..7083978 100644
--- a/Merlin++/BPMChannel.cpp
+++ b/Merlin++/BPMChannel.cpp
@@ -36,10 +36,10 @@ void BPMChannel::SetBPMOffset(double x)
 {
 	if(xy == 'X')
 	{
-		itsData->SetOffsets(x, 0);
+		itsData->SetOffsets(x, itsData->y_off);
 	}
 	else
 	{
-		itsData->SetOffsets(0, x);
+		itsData->SetOffsets(itsData->x_off, x);
 	}
 }
-- 
2.43.0


From 1dfbed1951dc8ed51214ec150e08b1bac18616f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 148/246] fix: setting one plane of a corrector winding does
 not reset the other

---
 Merlin++/CorrectorWinding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CorrectorWinding.cpp b/Merlin++/CorrectorWinding.cpp
index 6c71ff0..cecd76d 100644
--- a/Merlin++/CorrectorWinding.cpp
+++ b/Merlin++/CorrectorWinding.cpp
@@ -20,7 +20,7 @@ void CorrectorWinding::SetBx(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, 0, value / l);
+	(*magnet).GetField().SetComponent(0, (*magnet).GetField().GetComponent(0).real(), value / l);
 }
 
 void CorrectorWinding::SetBy(double value)
@@ -31,7 +31,7 @@ void CorrectorWinding::SetBy(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, value / l, 0);
+	(*magnet).GetField().SetComponent(0, value / l, (*magnet).GetField().GetComponent(0).imag());
 }
 
 double CorrectorWinding::GetBx() const
-- 
2.43.0


From 056207ed5df38e3d8bd8582d509d3d98b96ebeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 149/246] fix: a BPM made at the address of a deleted one does
 not inherit its data buffer

---
 Merlin++/BPMDataBufferServer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Merlin++/BPMDataBufferServer.cpp b/Merlin++/BPMDataBufferServer.cpp
index 58ad0ca..0bc9e52 100644
--- a/Merlin++/BPMDataBufferServer.cpp
+++ b/Merlin++/BPMDataBufferServer.cpp
@@ -13,7 +13,15 @@ BPMDataBuffer* BPMDataBufferServer::GetDataBuffer(BPM* bpm, bool create)
 
 	if(b != dataBuffers.end())
 	{
-		return &(b->second);
+		BPMDataBuffer* buf = &(b->second);
+		if(!bpm->RemoveBuffer(buf))
+		{
+			// not attached: this is another BPM, at the address of a deleted one
+			*buf = BPMDataBuffer();
+			buf->SetID(bpm->GetName());
+		}
+		bpm->AddBuffer(buf);
+		return buf;
 	}
 
 	if(!create)
-- 
2.43.0


From 07a49be0b7dcff1a8286f44ed5a7639f2627d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 150/246] fix: a new monitor is not reflected

---
 Merlin++/Monitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Monitor.cpp b/Merlin++/Monitor.cpp
index 811bb6a..c5f357b 100644
--- a/Merlin++/Monitor.cpp
+++ b/Merlin++/Monitor.cpp
@@ -13,7 +13,7 @@ bool Monitor::all_inactive = false;
 const int Monitor::ID = UniqueIndex();
 
 Monitor::Monitor(const string& id, double len, double mpt) :
-	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), active(true)
+	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), reflected(false), active(true)
 {
 }
 
-- 
2.43.0


From 54241c82f5c0d313707c7a9ca8329569a80e2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 151/246] fix: the angled size of a profile monitor is the size
 of the projection on its axis

---
 Merlin++/RMSProfileMonitor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/RMSProfileMonitor.cpp b/Merlin++/RMSProfileMonitor.cpp
index 5ed5645..50b8872 100644
--- a/Merlin++/RMSProfileMonitor.cpp
+++ b/Merlin++/RMSProfileMonitor.cpp
@@ -10,6 +10,7 @@
 #include "RMSProfileMonitor.h"
 #include "ComponentTracker.h"
 
+#include <algorithm>
 #include "utils.h"
 
 //#define _ADDNOISE(var) if((var).error!=0) (var).value+=RandomNG::normal(0.0,(var).error*(var).error)
@@ -61,7 +62,7 @@ void RMSProfileMonitor::MakeMeasurement(const Bunch& aBunch)
 			double cosu = cos(uangle);
 			double sinu = sin(uangle);
 			mdat.u0.value = cosu * profile.mean(0) - sinu * profile.mean(1);
-			mdat.urms.value = cosu * profile.std(0) - sinu * profile.std(1);
+			mdat.urms.value = sqrt(std::max(0.0, cosu * cosu * profile.var(0) + sinu * sinu * profile.var(1) - 2 * cosu * sinu * profile.sig(0, 1)));
 		}
 
 		mdat.u0.error = res_u;
-- 
2.43.0


From 2cb8fa3f7db763f5241108cafa4e4134c0875488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:27 +0000
Subject: [PATCH 152/246] fix: a monitor with its measurement point at the exit
 measures also when it is tracked in steps

---
 Merlin++/StdIntegrators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 743f4b0..5f60ab7 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -391,7 +391,7 @@ void MonitorCI::TrackStep(double ds)
 	{
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
 		// only in the step that reaches the measurement point
-		if((GetIntegratedLength() < mpt || AtEntrance()) && GetIntegratedLength() + ds >= mpt)
+		if((GetIntegratedLength() < mpt || AtEntrance()) && (GetIntegratedLength() + ds >= mpt || AtExit(ds)))
 		{
 			double s1 = mpt - GetIntegratedLength();
 			ApplyDrift(currentBunch->GetParticles(), s1);
-- 
2.43.0


From bc1ee82ec7105c67fbc482fc6402d7568cd5151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 153/246] fix: a multipole field rotated about the vertical
 axis is the field seen from behind

---
 Merlin++/MultipoleField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index 4b25f71..dd4d4c7 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -123,7 +123,7 @@ void MultipoleField::RotateY180()
 	//			bn		an
 	// n-odd	-		+
 	// n-even	+		-
-	bool even = false;
+	bool even = true;
 	for(size_t n = 0; n < expansion.size(); n++, even = !even)
 	{
 		Complex& z = expansion[n];
-- 
2.43.0


From 5b684eba9a2c428bc8ffc385e0b505951e3b21cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 154/246] fix: reading a coefficient of a multipole field does
 not change its expansion

---
 Merlin++/MultipoleField.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index dd4d4c7..dd63d33 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -169,12 +169,7 @@ Complex MultipoleField::GetComponent(size_t np, double r0) const
 
 Complex MultipoleField::GetCoefficient(size_t np, double r0) const
 {
-	if(np + 1 > expansion.size())
-	{
-		const_cast<MultipoleField&>(*this).expansion.resize(np + 1, Complex(0, 0));
-	}
-
-	return expansion[np] * pow(r0, np);
+	return np < expansion.size() ? expansion[np] * pow(r0, np) : Complex(0, 0);
 }
 
 void MultipoleField::SetCoefficient(size_t np, const Complex& b, double r0)
-- 
2.43.0


From 7b0074d353b1e5f81c559c89fea7c7561734d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:58 +0000
Subject: [PATCH 155/246] fix: a rectangular multipole knows its primary pole
 number

---
 Merlin++/RectMultipole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/RectMultipole.cpp b/Merlin++/RectMultipole.cpp
index 2e2d53a..721fdfe 100644
--- a/Merlin++/RectMultipole.cpp
+++ b/Merlin++/RectMultipole.cpp
@@ -12,13 +12,13 @@ const int RectMultipole::ID = UniqueIndex();
 
 RectMultipole::RectMultipole(const string& id, double length, int npole, double b, double r0, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(length),
-		new MultipoleField(npole, b, r0, skew))
+		new MultipoleField(npole, b, r0, skew)), np(npole)
 {
 }
 
 RectMultipole::RectMultipole(const string& id, double len, int np, double b, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(len),
-		new MultipoleField(np, b, skew))
+		new MultipoleField(np, b, skew)), np(np)
 {
 }
 
-- 
2.43.0


From 51da19ed9ca070637c26b715d1adde8468e8867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 156/246] fix: the lowest multipole of an empty expansion does
 not read past its end

---
 Merlin++/MultipoleField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MultipoleField.h b/Merlin++/MultipoleField.h
index c88635c..45e2ae1 100644
--- a/Merlin++/MultipoleField.h
+++ b/Merlin++/MultipoleField.h
@@ -220,7 +220,7 @@ inline int MultipoleField::HighestMultipole() const
 inline int MultipoleField::LowestMultipole() const
 {
 	size_t n = 0;
-	while(expansion[n++] == Complex(0.0))
+	while(n < expansion.size() && expansion[n++] == Complex(0.0))
 		;
 	return n - 1;
 }
-- 
2.43.0


From 760acae86eed8dc9983ceb511ad9b1fde2bf11f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 157/246] fix: a multipole of zero strength is not a field of
 NaN

---
 Merlin++/MultipoleField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index dd63d33..f5f9985 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -34,7 +34,7 @@ MultipoleField::MultipoleField(int np, double bn, double an, double r0) :
 {
 	Complex z(bn, an);
 	B0 = abs(z);
-	expansion[np] = z / B0;
+	expansion[np] = B0 == 0 ? z : z / B0;
 	B0 /= pow(r0, np);
 }
 
-- 
2.43.0


From b654e133e193f294f70c750d5e19c8e513370183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 158/246] fix: the pole faces and the tilt of a bend turn with
 it

---
 Merlin++/SectorBend.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Merlin++/SectorBend.cpp b/Merlin++/SectorBend.cpp
index 189ed0d..ee47fab 100644
--- a/Merlin++/SectorBend.cpp
+++ b/Merlin++/SectorBend.cpp
@@ -60,7 +60,19 @@ void SectorBend::RotateY180()
 	GetField().RotateY180();
 	double h = GetGeometry().GetCurvature();
 	GetGeometry().SetCurvature(-h);
+	GetGeometry().SetTilt(-GetGeometry().GetTilt());
+	// the faces change places, and their angles turn with the curvature
 	std::swap(pfInfo.entrance, pfInfo.exit);
+	if(pfInfo.entrance)
+	{
+		pfInfo.entrance->rot *= -1;
+		pfInfo.entrance->type = 1;
+	}
+	if(pfInfo.exit && pfInfo.exit != pfInfo.entrance)
+	{
+		pfInfo.exit->rot *= -1;
+		pfInfo.exit->type = 0;
+	}
 }
 
 void SectorBend::PrepareTracker(ComponentTracker& aTracker)
-- 
2.43.0


From 4ffcda2e8ac4d15844ffc856205322a6c187d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:14 +0000
Subject: [PATCH 159/246] fix: a wire scanner read from an optics table has the
 tabulated length

---
 Merlin++/MADInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8300ec7..8161ef5 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -626,7 +626,7 @@ vector<AcceleratorComponent*> MonitorComponent::GetInstance(DataTableRow& MADinp
 	double length = MADinputrow.Get_d("L");
 
 	if(name.substr(0, 2) == "WS")
-		return {new RMSProfileMonitor(name, length)};
+		return {new RMSProfileMonitor(name, pi / 4, length)};
 	else
 		return {new BPM(name, length)};
 }
-- 
2.43.0


From 7af9a86280a3870f54bf1fec92f410fb6a764628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:14 +0000
Subject: [PATCH 160/246] fix: a type that is to be treated as a drift is not
 overridden again

---
 Merlin++/MADInterface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8161ef5..22ec528 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -195,7 +195,10 @@ void MADInterface::TypeOverrides(DataTableRow& MADinputrow)
 {
 	string keyword = MADinputrow.Get_s("KEYWORD");
 	if(driftTypes.find(keyword) != driftTypes.end())
+	{
 		MADinputrow.Set_s("KEYWORD", "DRIFT");
+		return;
+	}
 	if(keyword == "LCAV")
 		MADinputrow.Set_s("KEYWORD", "RFCAVITY");
 	if(keyword == "RCOLLIMATOR" || keyword == "ECOLLIMATOR")
-- 
2.43.0


From 8e6403b657702492c57bca53062a30dc1ccbf36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:14 +0000
Subject: [PATCH 161/246] fix: a wire scanner read from a tape has the length
 given

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 965c22f..9613380 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -335,7 +335,7 @@ BPM* ConstructBPM(const Data& data)
 
 RMSProfileMonitor* ConstructProfileMonitor(const Data& data)
 {
-	return new RMSProfileMonitor(data.label, data[L]);
+	return new RMSProfileMonitor(data.label, pi / 4, data[L]);
 }
 
 Solenoid* ConstructSolenoid(const Data& data)
-- 
2.43.0


From d63eb1a1b257b52d0378b86d4e0cd83abdd8cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:14 +0000
Subject: [PATCH 162/246] fix: a rectangular collimator read from a tape has
 the half gaps given

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 9613380..1bbf203 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -495,7 +495,7 @@ void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 		c = mc->AppendComponent(ConstructDrift(dat));
 		if(incApertures)
 		{
-			c->SetAperture(new RectangularAperture(2 * dat[XGAP], 2 * dat[YGAP]));
+			c->SetAperture(new RectangularAperture(dat[XGAP], dat[YGAP]));
 		}
 	}
 	else if(dat.keywrd == "SROT")
-- 
2.43.0


From c3e9e3f84cda3038640264a14efa714198f3515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:46 +0000
Subject: [PATCH 163/246] fix: a model can be appended from several optics
 files

---
 Merlin++/MADInterface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 22ec528..d409399 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -184,9 +184,14 @@ AcceleratorModel* MADInterface::ConstructModel()
 		}
 	}
 
+	delete factory;
+	if(appendFlag)
+	{
+		return nullptr; // more files may follow before GetModel()
+	}
+
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
-	delete factory;
 	modelconstr = nullptr;
 	return theModel;
 }
@@ -333,6 +338,7 @@ AcceleratorModel* MADInterface::GetModel()
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
 	modelconstr = nullptr;
+	appendFlag = false;
 	return theModel;
 }
 
-- 
2.43.0


From 63b3b393a021f5196e27e5a59779f1800d4372b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:46 +0000
Subject: [PATCH 164/246] fix: the reference momentum given for a tape is used

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 1bbf203..fb451c2 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -616,7 +616,7 @@ pair<AcceleratorModel*, BeamData*> XTFFInterface::Parse(double P_ref)
 	}
 	beam0 = new BeamData();
 	int nelm = ParseHeader(beam0);
-	energy = P_ref;
+	beam0->p0 = P_ref;
 	Parse1(nelm, true);
 	return GetModel();
 }
-- 
2.43.0


From 9ce6ffc0132eb1e79afdeeedddd7353e77cf0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:46 +0000
Subject: [PATCH 165/246] fix: a missing tape to append is not freed twice

---
 Merlin++/XTFFInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index fb451c2..015b9e4 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -633,6 +633,7 @@ void XTFFInterface::AppendModel(const string& fname)
 	{
 		string msg = "cannot open file " + fname;
 		delete ifs;
+		ifs = nullptr;
 		throw runtime_error(msg);
 	}
 
-- 
2.43.0


From 113842d6fa480df467e8c4031e0252d599fe568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 166/246] fix: the kick of an electron lens points to its own
 axis

---
 Merlin++/HollowELensProcess.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index d1e296c..6d470a1 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -67,6 +67,8 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 
 	bool SimpleProfile = currentComponentHEL->SimpleProfile;
 	bool ACSet = currentComponentHEL->ACSet;
+	double XOffset = currentComponentHEL->XOffset;
+	double YOffset = currentComponentHEL->YOffset;
 
 	ParticleBunch* newbunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), currentBunch->GetTotalCharge()
 		/ currentBunch->size());
@@ -100,7 +102,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 
 			if(theta != 0)
 			{
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - YOffset, (*p).x() - XOffset);
 				//~ // Particle phase space angle and amplitude (radius)
 				(*p).xp() += theta * cos(ParticleAngle);
 				(*p).yp() += theta * sin(ParticleAngle);
@@ -147,7 +149,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					double Phi = Multiplier * (Turn * OpTune * 2 * pi);
 					theta *= 0.5 * (1 + cos(Phi));
 
-					ParticleAngle = atan2((*p).y(), (*p).x());
+					ParticleAngle = atan2((*p).y() - YOffset, (*p).x() - XOffset);
 					// Particle phase space angle and amplitude (radius)
 					(*p).xp() += theta * cos(ParticleAngle);
 					(*p).yp() += theta * sin(ParticleAngle);
@@ -178,7 +180,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - YOffset, (*p).x() - XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
@@ -212,7 +214,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - YOffset, (*p).x() - XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
-- 
2.43.0


From 60c0d5ae5a4fb1579d61869beb18af010c1cc7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 167/246] fix: an electron lens that is divided into steps
 kicks once per turn

---
 Merlin++/HollowELensProcess.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index 6d470a1..1042675 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -231,6 +231,9 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 	currentBunch->clear();
 	currentBunch->swap(*newbunch);
 	delete newbunch;
+
+	// one kick and one turn for each passage, also when other processes divide the component into steps
+	active = false;
 }
 
 double HollowELensProcess::GetMaxAllowedStepSize() const
-- 
2.43.0


From 3e8b8c766d8232909877dcbe28033155c003124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 168/246] fix: the profile of an electron lens starts at the
 minimum radius asked for

---
 Merlin++/HollowELensProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index 1042675..5accca3 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -443,7 +443,7 @@ void HollowELensProcess::OutputProfile(std::ostream* os, double E, double min, d
 	cout << " ElectronBeta = " << ElectronBeta << endl;
 	cout << " ProtonBeta = " << ProtonBeta << endl;
 
-	double r = 0;
+	double r = min * Sigma_x;
 	int points = 1000;
 
 	(*os) << "#r\tkick_radial\tkick_simple\t|kick_r|\t|kick_s|" << endl;
-- 
2.43.0


From 5f6d17c521bf6ee028e0e89ca4cd9264f0d1b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 169/246] fix: the proton velocity of the electron lens process
 is initialised

---
 Merlin++/HollowELensProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index 5accca3..1c7d5a9 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -22,7 +22,7 @@ namespace ParticleTracking
 {
 
 HollowELensProcess::HollowELensProcess(int priority) :
-	ParticleBunchProcess("HOLLOW ELECTRON LENS", priority), currentComponentHEL(nullptr)
+	ParticleBunchProcess("HOLLOW ELECTRON LENS", priority), currentComponentHEL(nullptr), ProtonBeta(0)
 {
 }
 
-- 
2.43.0


From fc5394eae4f834573fb5e57559595d96dc08cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 170/246] fix: a vanishing eigenvalue that is rounded below
 zero gives no ground motion instead of NaN

---
 Merlin++/ATL2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 8ee3b38..0b206f2 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -147,7 +147,7 @@ double ATL2D::DoStep(double dt)
 
 	for(size_t n = 0; n < theSupports.size(); n++)
 	{
-		if(at * evals[n])
+		if(at * evals[n] > 0)
 			yy(n) = normal_distribution<>{0, sqrt(at * evals[n])} (*rg);
 	}
 
-- 
2.43.0


From fdc01822de283b981e5944b585f5c45ef66bfa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 171/246] fix: supports in front of the origin get a ground
 motion instead of NaN

---
 Merlin++/SimpleATL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SimpleATL.cpp b/Merlin++/SimpleATL.cpp
index 6ced498..46ebd7c 100644
--- a/Merlin++/SimpleATL.cpp
+++ b/Merlin++/SimpleATL.cpp
@@ -39,7 +39,7 @@ struct ApplyATL
 	void operator()(AcceleratorSupport* s)
 	{
 		// Perform the random walk
-		double v = AT * (s->GetArcPosition() - z);
+		double v = AT * fabs(s->GetArcPosition() - z);
 		y += v != 0 ? normal_distribution<>{0, sqrt(v)} (*rng) : 0.0;
 		*yy += y;
 
-- 
2.43.0


From 5f21b0b858892540cd39a9b8a85ee1c326397bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:47 +0000
Subject: [PATCH 172/246] fix: all of the eigenvectors of the ground motion are
 written and read

---
 Merlin++/ATL2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 0b206f2..56b7280 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -103,10 +103,10 @@ ATL2D::ATL2D(double anA, const AcceleratorSupportList& supports, const Point2D r
 	{
 		double element;
 		for(row = 0; row < n; row++)
-			for(col = row; col < n; col++)
+			for(col = 0; col < n; col++)
 			{
 				(*evecTFile) >> element;
-				evecsT(row, col) = evecsT(col, row) = element;
+				evecsT(row, col) = element;
 			}
 
 		for(row = 0; row < n; row++)
@@ -224,7 +224,7 @@ void ATL2D::RecordEigenSystem(ofstream* evecTFile, ofstream* evalFile)
 
 	for(row = 0; row < n; row++)
 	{
-		for(col = row; col < n; col++)
+		for(col = 0; col < n; col++)
 		{
 			(*evecTFile) << std::setw(14) << evecsT(row, col);
 		}
-- 
2.43.0


From 8172981c35a2df227c83fe88734656b51c274140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 173/246] fix: the absolute ground motion is that of the time
 after the step

---
 Merlin++/ATL2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 56b7280..ca00101 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -143,7 +143,7 @@ double ATL2D::DoStep(double dt)
 {
 	RealVector yy(theSupports.size());
 
-	double at = (atlMode == increment) ? A * dt : A * t;
+	double at = (atlMode == increment) ? A * dt : A * (t + dt);
 
 	for(size_t n = 0; n < theSupports.size(); n++)
 	{
-- 
2.43.0


From 417ecc5746ca8798b0e1b40df25553fc72ecb86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:12 +0000
Subject: [PATCH 174/246] fix: errors with an rms below 15 nm or 15 nrad are
 applied

---
 Merlin++/AcceleratorErrors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/AcceleratorErrors.cpp b/Merlin++/AcceleratorErrors.cpp
index ccd18af..24e607a 100644
--- a/Merlin++/AcceleratorErrors.cpp
+++ b/Merlin++/AcceleratorErrors.cpp
@@ -37,9 +37,9 @@ public:
 				frame->ClearLocalFrameTransform();
 			}
 
-			double ex = fequal(vx, 0.0) ? mx : RandomNG::normal(mx, vx);
-			double ey = fequal(vy, 0.0) ? my : RandomNG::normal(my, vy);
-			double ez = fequal(vz, 0.0) ? mz : RandomNG::normal(mz, vz);
+			double ex = vx == 0.0 ? mx : RandomNG::normal(mx, vx);
+			double ey = vy == 0.0 ? my : RandomNG::normal(my, vy);
+			double ez = vz == 0.0 ? mz : RandomNG::normal(mz, vz);
 			if(t)
 			{
 				frame->Translate(ex, ey, ez);
-- 
2.43.0


From a8354233aa4c921cf951c8fb5a7e8076a85a0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:15 +0000
Subject: [PATCH 175/246] fix: construct the smoothing filter of the wakefield
 process (its pivots had no storage)

---
 Merlin++/WakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index dc76142..03b2402 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -460,7 +460,7 @@ void savgol(vector<double>& c, int nl, int nr, int ld, int m)
 			a(j, i) = sum;
 		}
 
-	vector<int> indx;
+	vector<int> indx(m + 1);
 	double d;
 	LUfactor(a, indx, d);
 
-- 
2.43.0


From 1c12fe3ec824201f3617eee7463e0c2cdabec0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:52 +0000
Subject: [PATCH 176/246] fix: CSR wakes are evaluated at the distance behind
 (the difference of the slices was unsigned)

---
 Merlin++/WakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index 03b2402..1dea169 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -353,7 +353,7 @@ void WakeFieldProcess::CalculateWakeL()
 		{
 			for(size_t j = 1; j < i; j++)
 			{
-				wake_z[i] += Qdp[j] * (currentWake->Wlong((j - i + 0.5) * dz)) / dz;
+				wake_z[i] += Qdp[j] * (currentWake->Wlong((double(j) - double(i) + 0.5) * dz)) / dz;
 			}
 			wake_z[i] *= a0;
 		}
-- 
2.43.0


From 87ae8a001618a8a2d5ef246a564d256e7cda2f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:02 +0000
Subject: [PATCH 177/246] fix: the sums for the smoothing filter do not
 overflow

---
 Merlin++/WakeFieldProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index 1dea169..2eb96f4 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -432,9 +432,9 @@ void WakeFieldProcess::InitialiseProcess(Bunch& bunch)
 // Adapted from Numerical Recipes in C
 // This routine need only be executed once,
 // when the WakeFieldProcess is initialized.
-int powi(int i, int j)
+double powi(int i, int j)
 {
-	int p = 1;
+	double p = 1;
 	for(int m = 0; m < j; m++)
 	{
 		p *= i;
-- 
2.43.0


From 3a8580bcd50c1ccbf827093cce3d0dc5547a7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:02 +0000
Subject: [PATCH 178/246] fix: longitudinal collimator wakes of both planes
 have the same sign

---
 Merlin++/CollimatorWakeProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index e62b2e9..ab608b6 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -217,7 +217,7 @@ void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 				wake_y *= a0;
 				double wzc = cos(currmode * theta) * (wake_cl[currmode][nslice] + g_cl * zz);
 				double wzs = sin(currmode * theta) * (wake_sl[currmode][nslice] + g_sl * zz);
-				wake_z = powd(r, currmode) * (wzc - wzs);
+				wake_z = powd(r, currmode) * (wzc + wzs);
 				wake_z *= a0;
 				double ddp = -wake_z / p0;
 				p->dp() += ddp;
-- 
2.43.0


From 0729d8aa55d7633bb9956dc2ecee45e0bdd92867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 179/246] fix: the collimator wake process has room for all of
 its slices

---
 Merlin++/CollimatorWakeProcess.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index ab608b6..ca08e19 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -61,12 +61,12 @@ CollimatorWakeProcess::CollimatorWakeProcess(int modes, int prio, size_t nb, dou
 	wake_sl = new double*[modes + 1];
 	for(int i = 0; i <= nmodes; i++)
 	{
-		Cm[i] = new double[1000];
-		Sm[i] = new double[1000];
-		wake_ct[i] = new double[1000];
-		wake_st[i] = new double[1000];
-		wake_cl[i] = new double[1000];
-		wake_sl[i] = new double[1000];
+		Cm[i] = new double[nb + 1]();
+		Sm[i] = new double[nb + 1]();
+		wake_ct[i] = new double[nb + 1]();
+		wake_st[i] = new double[nb + 1]();
+		wake_cl[i] = new double[nb + 1]();
+		wake_sl[i] = new double[nb + 1]();
 	}
 }
 
-- 
2.43.0


From 05233fb6efaae04b414f3ddf89f32386dfe269f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 180/246] fix: the collimator wake process frees all of its
 modes

---
 Merlin++/CollimatorWakeProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index ca08e19..c1f41f0 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -74,7 +74,7 @@ CollimatorWakeProcess::CollimatorWakeProcess(int modes, int prio, size_t nb, dou
 
 CollimatorWakeProcess::~CollimatorWakeProcess()
 {
-	for(int i = 0; i < nmodes; i++)
+	for(int i = 0; i <= nmodes; i++)
 	{
 		delete[] Cm[i];
 		delete[] Sm[i];
-- 
2.43.0


From 7796846a626372002660452430506fefef230d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 181/246] fix: the tails of a bunch are cut once per wakefield

---
 Merlin++/WakeFieldProcess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index 2eb96f4..7f4ae1c 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -311,10 +311,11 @@ void WakeFieldProcess::Init()
 {
 	double Qt = currentBunch->GetTotalCharge();
 
+	size_t nloss = CalculateQdist();
+
 	//keep track of bunch length to be aware of modifications
 	oldBunchLen = currentBunch->size();
 
-	size_t nloss = CalculateQdist();
 	if(nloss != 0)
 	{
 		// Even though we have truncated particles, we still keep the
-- 
2.43.0


From 1a6dc6985470a8710f8a039fc1ed427d43649987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 182/246] fix: the collimator wake process leaves wakes without
 modes to others

---
 Merlin++/CollimatorWakeProcess.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index c1f41f0..076e514 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -164,7 +164,12 @@ void CollimatorWakeProcess::CalculateWakeL(double dz, int currmode)
 
 void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 {
-	collimator_wake = (CollimatorWakePotentials *) currentWake;
+	// only wakes of collimators have modes
+	collimator_wake = dynamic_cast<CollimatorWakePotentials*>(currentWake);
+	if(collimator_wake == nullptr)
+	{
+		return;
+	}
 	for(int m = 1; m <= nmodes; m++)
 	{
 		for(size_t n = 0; n < nbins; n++)
-- 
2.43.0


From ebebd80ed9430b25e9fb4a1b6316c8e0e85b3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 183/246] fix: an empty bunch keeps its reference momentum when
 it radiates

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 2fec477..4926daf 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -55,7 +55,7 @@ struct ApplySR
 
 	double MeanEnergyLoss() const
 	{
-		return meanU / n;
+		return n > 0 ? meanU / n : 0;
 	}
 
 	void operator()(PSvector& v)
-- 
2.43.0


From c77aa10e8432a94880a8878d39a20fde07f8359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 184/246] fix: no step of synchrotron radiation is lost to
 rounding

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 4926daf..46e5813 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -167,7 +167,7 @@ void SynchRadParticleProcess::SetCurrentComponent(AcceleratorComponent& componen
 void SynchRadParticleProcess::DoProcess(double ds)
 {
 
-	if(fequal(intS += ds, (nk1 + 1) * dL))
+	if(fequal(intS += ds, (nk1 + 1) * dL, 1e-9 * dL))
 	{
 		double E0 = currentBunch->GetReferenceMomentum();
 		double meanU = for_each(
-- 
2.43.0


From c7939056c56aecad76b1a4d58e8e0f8f16635ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 185/246] fix: the photons follow the seed of the random
 numbers

---
 Merlin++/PhotonSpectrumGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhotonSpectrumGen.cpp b/Merlin++/PhotonSpectrumGen.cpp
index 882b8e2..26a20c4 100644
--- a/Merlin++/PhotonSpectrumGen.cpp
+++ b/Merlin++/PhotonSpectrumGen.cpp
@@ -37,7 +37,7 @@ namespace
 
 double Ran1()
 {
-	static auto gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
+	auto& gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
 	static auto dist = std::uniform_real_distribution<>{0.0, 1.0};
 	return dist(gen);
 }
-- 
2.43.0


From e8ef341ab26f4075d6350bf1e33f4d38d08677d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 186/246] fix: clearing a bunch clears its spins

---
 Merlin++/ParticleBunch.h         | 2 +-
 Merlin++/SpinParticleProcess.cpp | 6 ++++++
 Merlin++/SpinParticleProcess.h   | 1 +
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunch.h b/Merlin++/ParticleBunch.h
index fef59a9..1a8e99f 100644
--- a/Merlin++/ParticleBunch.h
+++ b/Merlin++/ParticleBunch.h
@@ -179,7 +179,7 @@ public:
 	/**
 	 * Removes all particles from the bunch
 	 */
-	void clear();
+	virtual void clear();
 
 	/**
 	 * Swaps particles with another ParticleBunch
diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 22309eb..782f855 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -83,6 +83,12 @@ void SpinParticleBunch::push_back(const Particle& p)
 	AddParticle(p);
 }
 
+void SpinParticleBunch::clear()
+{
+	spinArray.clear();
+	ParticleBunch::clear();
+}
+
 void SpinParticleBunch::SortByCT()
 {
 	// Not yet fully implemented!
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index a981761..18d9fcf 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -40,6 +40,7 @@ public:
 	virtual size_t AddParticle(const Particle& p);
 	size_t AddParticle(const Particle& p, const SpinVector& spin);
 	virtual void push_back(const Particle& p);
+	virtual void clear();
 	virtual void SortByCT();
 	SpinVectorArray::iterator beginSpinArray();
 	SpinVectorArray::iterator endSpinArray();
-- 
2.43.0


From c04b893878d8a19ac2de18885a2edbd31c5971c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:44 +0000
Subject: [PATCH 187/246] fix: spin tracking advances when a component is
 divided into steps

---
 Merlin++/SpinParticleProcess.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 782f855..b270a3e 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -395,7 +395,10 @@ void SpinParticleProcess::DoProcess(double ds)
 	}
 
 	intS += ds;
-
+	if(fequal(intS, (nk1 + 1) * dL, 1e-9 * dL))
+	{
+		nk1++;
+	}
 }
 
 double SpinParticleProcess::GetMaxAllowedStepSize() const
-- 
2.43.0


From c8444e071bc979ef49fe4fac06466c88d5a0da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:44 +0000
Subject: [PATCH 188/246] fix: the spins of negative particles turn the other
 way

---
 Merlin++/SpinParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index b270a3e..56f3676 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -293,7 +293,7 @@ void SpinParticleProcess::SetSpinMomentum(double p_spin)
 void SpinParticleProcess::DoProcess(double ds)
 {
 	double P0 = currentBunch->GetReferenceMomentum();
-	double brho = P0 / eV / SpeedOfLight;
+	double brho = currentBunch->GetChargeSign() * P0 / eV / SpeedOfLight;
 	bool isBend = sbend ? true : false;
 	bool isSolenoid = solnd ? true : false;
 
-- 
2.43.0


From bae1e2a292e2eb15af8818aafc7271e88a4a8840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:21 +0000
Subject: [PATCH 189/246] fix: in a bend spins turn relative to the curved
 frame, also off momentum

---
 Merlin++/SpinParticleProcess.cpp | 37 +++++++++++---------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 56f3676..c8400c1 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -226,34 +226,18 @@ void SpinParticleProcess::SetCurrentComponent(AcceleratorComponent& component)
 
 struct RotateSpinVector
 {
-private:
-	bool isBend;
-
 public:
-	RotateSpinVector(bool bend) :
-		isBend(bend)
-	{
-	}
-
-	void RotateSpin(const Vector3D& bnorm, double ds, SpinVector& spin, double gamma)
+	// h is the curvature of the reference frame
+	void RotateSpin(const Vector3D& bnorm, double ds, SpinVector& spin, double gamma, double h = 0)
 	{
 		double& spinx = spin.x();
 		double& spiny = spin.y();
 		double& spinz = spin.z();
 
 		Vector3D w;
-		if(isBend)     // Arc geometry
-		{
-			w.x = -(1 + ElectronGe * gamma) * bnorm.x;
-			w.y = -(ElectronGe * gamma) * bnorm.y;
-			w.z = -(1 + ElectronGe) * bnorm.z;
-		}
-		else        // Rectangular geometry
-		{
-			w.x = -(1 + ElectronGe * gamma) * bnorm.x;
-			w.y = -(1 + ElectronGe * gamma) * bnorm.y;
-			w.z = -(1 + ElectronGe) * bnorm.z;
-		}
+		w.x = -(1 + ElectronGe * gamma) * bnorm.x;
+		w.y = -(1 + ElectronGe * gamma) * bnorm.y + h * SpeedOfLight;
+		w.z = -(1 + ElectronGe) * bnorm.z;
 
 		// Calculate Cross Products
 		double pX_crossproduct = w.y * spinz - w.z * spiny;
@@ -266,6 +250,10 @@ public:
 		// Calculate and apply spin rotation
 		double w2 = w.x * w.x + w.y * w.y + w.z * w.z;
 		double omega = sqrt(w2);
+		if(omega == 0)
+		{
+			return;
+		}
 
 		double dt = ds / SpeedOfLight;
 		double cosOmegaT = cos(dt * omega);
@@ -302,7 +290,8 @@ void SpinParticleProcess::DoProcess(double ds)
 		P0 = pspin;
 	}
 
-	RotateSpinVector rot(isBend);
+	RotateSpinVector rot;
+	const double h = isBend ? sbend->GetGeometry().GetCurvature() : 0;
 
 	Vector3D b;
 
@@ -351,12 +340,12 @@ void SpinParticleProcess::DoProcess(double ds)
 		// Apply spin rotation from body of magnet
 		b = currentField->GetBFieldAt(Point3D(p->x(), p->y(), 0));
 
-		if(b.x != 0 || b.y != 0 || b.z != 0)
+		if(b.x != 0 || b.y != 0 || b.z != 0 || h != 0)
 		{
 			b.x *= norm;
 			b.y *= norm;
 			b.z *= norm;
-			rot.RotateSpin(b, ds, *spin, gamma);
+			rot.RotateSpin(b, ds, *spin, gamma, h);
 		}
 
 		if(fequal(intS + ds, clength))
-- 
2.43.0


From e9d50b403425cd6e79d1e5d005bb08cdc6ff3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:35 +0000
Subject: [PATCH 190/246] fix: the fringe fields of the bends that turn the
 spin are those that deflect the particle

---
 Merlin++/SpinParticleProcess.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index c8400c1..6d811c1 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -310,10 +310,10 @@ void SpinParticleProcess::DoProcess(double ds)
 			{
 				SectorBend::PoleFace* pf = sbend->GetPoleFaceInfo().entrance;
 				double theta = pf ? pf->rot : 0;
-				double intbz = 0.5 * sbend->GetB0() * p->y() * norm;
-				b.x = sin(theta) * intbz;
+				double intbz = sbend->GetB0() * p->y() * norm;
+				b.x = -tan(theta) * intbz;
 				b.y = 0;
-				b.z = cos(theta) * intbz;
+				b.z = intbz;
 				if(b.x != 0 || b.z != 0)
 				{
 					rot.RotateSpin(b, 1.0, *spin, gamma);
@@ -356,10 +356,10 @@ void SpinParticleProcess::DoProcess(double ds)
 			{
 				SectorBend::PoleFace* pf = sbend->GetPoleFaceInfo().exit;
 				double theta = pf ? pf->rot : 0;
-				double intbz = 0.5 * sbend->GetB0() * p->y() * norm;
-				b.x = sin(theta) * intbz;
+				double intbz = sbend->GetB0() * p->y() * norm;
+				b.x = -tan(theta) * intbz;
 				b.y = 0;
-				b.z = -cos(theta) * intbz;
+				b.z = -intbz;
 				if(b.x != 0 || b.z != 0)
 				{
 					rot.RotateSpin(b, 1.0, *spin, gamma);
-- 
2.43.0


From 3f23c1c4a5683b2d2abc6015c69b478ac4817d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:47 +0000
Subject: [PATCH 191/246] fix: the fringe fields of a solenoid turn the spin by
 their integral over the rigidity

---
 Merlin++/SpinParticleProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 6d811c1..1372511 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -326,7 +326,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			// is pointing in the direction of the beam.
 			if(isSolenoid)
 			{
-				double bz = solnd->GetBz();
+				double bz = 0.5 * solnd->GetBz() * norm;
 				b.x = -bz*p->x();
 				b.y = -bz*p->y();
 				b.z = 0.0;
@@ -370,7 +370,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			// We use a hard-edged model for the fringe field
 			if(isSolenoid)
 			{
-				double bz = solnd->GetBz();
+				double bz = 0.5 * solnd->GetBz() * norm;
 				b.x = bz * p->x();
 				b.y = bz * p->y();
 				b.z = 0.0;
-- 
2.43.0


From d0f381e9060654aa95ef9bc9910349330b02309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:49 +0000
Subject: [PATCH 192/246] fix: the entrance field turns the spin once, also if
 the first step is empty

---
 Merlin++/SpinParticleProcess.cpp | 4 +++-
 Merlin++/SpinParticleProcess.h   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 1372511..9eee5d9 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -197,6 +197,7 @@ void SpinParticleProcess::SetCurrentComponent(AcceleratorComponent& component)
 {
 	nk1 = 0;
 	intS = 0;
+	entrance = true;
 
 	//Get current field of current component
 	currentField = component.GetEMField();
@@ -302,7 +303,7 @@ void SpinParticleProcess::DoProcess(double ds)
 		double norm = SpeedOfLight / brho / (1.0 + p->dp());
 		double gamma = P0 * (1.0 + p->dp()) / (ElectronMassMeV * MeV);
 
-		if(intS == 0)
+		if(entrance)
 		{
 
 			// Apply spin rotation from dipole entrance fringe field
@@ -383,6 +384,7 @@ void SpinParticleProcess::DoProcess(double ds)
 
 	}
 
+	entrance = false;
 	intS += ds;
 	if(fequal(intS, (nk1 + 1) * dL, 1e-9 * dL))
 	{
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index 18d9fcf..4bb1a03 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -89,6 +89,7 @@ private:
 	int nk1;
 	double dL;
 	double intS;
+	bool entrance;
 	const SectorBend* sbend;
 	const Solenoid* solnd;
 	const EMField* currentField;
-- 
2.43.0


From c265af12ec553785b630e0b392dd93d6d4633dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:43 +0000
Subject: [PATCH 193/246] fix: a rotation of slices about the axis keeps their
 time and momentum

---
 Merlin++/TransportRMaps.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index d7ee41d..1df9044 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -29,6 +29,8 @@ void SROT(double cosphi, double sinphi, RMap& R)
 	R.AddTerm(2, 4, -sinphi);
 	R.AddTerm(3, 1, sinphi);
 	R.AddTerm(4, 2, sinphi);
+	R.AddTerm(5, 5, 1.0);
+	R.AddTerm(6, 6, 1.0);
 }
 
 void QR2(double length, double K1, int offset, RMap& R)
-- 
2.43.0


From dc26c977ca26ea8c76a33fe763767550a48b778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 194/246] fix: the solenoid map of slices is symplectic, has a
 length without field and keeps time and momentum

---
 Merlin++/TransportRMaps.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 1df9044..794bbbc 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -136,28 +136,29 @@ void SolR(double l, double ks, RMap& rs)
 	rs.AddTerm(3, 3) = c2;
 	rs.AddTerm(4, 4) = c2;
 
-	if(!fequal(theta, 0.))
-	{
-		rs.AddTerm(1, 2) = 2. * sc / ks;
-		rs.AddTerm(3, 4) = 2. * sc / ks;
-	}
+	// sin(2 theta)/ks and 2 sin(theta)^2/ks
+	double r12 = fequal(theta, 0.) ? l : 2. * sc / ks;
+	double r14 = fequal(theta, 0.) ? 0 : 2. * s2 / ks;
+
+	rs.AddTerm(1, 2) = r12;
+	rs.AddTerm(3, 4) = r12;
 
 	rs.AddTerm(1, 3) = sc;
 	rs.AddTerm(2, 4) = sc;
 	rs.AddTerm(3, 1) = -sc;
 	rs.AddTerm(4, 2) = -sc;
 
-	if(!fequal(theta, 0))
-	{
-		rs.AddTerm(1, 4) = 2. * s2 / ks;
-		rs.AddTerm(4, 2) = -2. * s2 / ks;
-	}
+	rs.AddTerm(1, 4) = r14;
+	rs.AddTerm(3, 2) = -r14;
 
 	rs.AddTerm(2, 1) = -ks * sc / 2;
 	rs.AddTerm(4, 3) = -ks * sc / 2;
 
 	rs.AddTerm(2, 3) = -ks * s2 / 2;
 	rs.AddTerm(4, 1) = ks * s2 / 2;
+
+	rs.AddTerm(5, 5) = 1.0;
+	rs.AddTerm(6, 6) = 1.0;
 }
 
 // Class Utility TransportRMap
-- 
2.43.0


From 249afd21981450c85c0a172baa8240b29abd75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 195/246] fix: the pole faces of a tilted bend are tilted for
 slices too

---
 Merlin++/SMPStdIntegrators.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 7eac49a..a7b7350 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -236,12 +236,6 @@ void SectorBendCI::TrackStep(double ds)
 	}
 
 	double h = (currentComponent->GetGeometry()).GetCurvature();
-	double tilt = (currentComponent->GetGeometry()).GetTilt();
-
-	if(tilt != 0)
-	{
-		RotateBunchAboutZ(*currentBunch, tilt);
-	}
 
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
@@ -270,16 +264,16 @@ void SectorBendCI::TrackStep(double ds)
 		ApplyMap(M, *currentBunch);
 	}
 
-	if(tilt != 0)
-	{
-		RotateBunchAboutZ(*currentBunch, -tilt);
-	}
-
 	return;
 }
 
 void SectorBendCI::TrackEntrance()
 {
+	double tilt = (currentComponent->GetGeometry()).GetTilt();
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, tilt);
+	}
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
@@ -296,6 +290,11 @@ void SectorBendCI::TrackExit()
 		double h = (currentComponent->GetGeometry()).GetCurvature();
 		ApplyPoleFaceRotation(h, *pfi.exit);
 	}
+	double tilt = (currentComponent->GetGeometry()).GetTilt();
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, -tilt);
+	}
 }
 
 void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& pf)
-- 
2.43.0


From adabf368e020b1fb7644567be21c8071f5ce703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:41 +0000
Subject: [PATCH 196/246] fix: slices follow a tilted bend to the same side as
 particles

---
 Merlin++/SMPStdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index a7b7350..4e8dfee 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -272,7 +272,7 @@ void SectorBendCI::TrackEntrance()
 	double tilt = (currentComponent->GetGeometry()).GetTilt();
 	if(tilt != 0)
 	{
-		RotateBunchAboutZ(*currentBunch, tilt);
+		RotateBunchAboutZ(*currentBunch, -tilt);
 	}
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
@@ -293,7 +293,7 @@ void SectorBendCI::TrackExit()
 	double tilt = (currentComponent->GetGeometry()).GetTilt();
 	if(tilt != 0)
 	{
-		RotateBunchAboutZ(*currentBunch, -tilt);
+		RotateBunchAboutZ(*currentBunch, tilt);
 	}
 }
 
-- 
2.43.0


From f5fe88e27ed45aebee89247bec07cbfc9fb148af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 197/246] fix: slices follow a skew quadrupole and its dipole
 field like particles

---
 Merlin++/SMPStdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 4e8dfee..70c424d 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -347,7 +347,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		phi = arg(cK1) / 2.0;
 	}
 
-	double tilt = /*Component().GetGeometry().GetTilt()*/ -phi;
+	double tilt = phi;
 
 	if(tilt != 0)
 	{
@@ -355,7 +355,7 @@ void RectMultipoleCI::TrackStep(double ds)
 	}
 	if(phi != 0)
 	{
-		cK0 *= -cK1 / abs(cK1);    // rotate dipole kick back
+		cK0 *= Complex(cos(phi), -sin(phi));    // rotate dipole kick back
 	}
 
 	if(currentComponent->GetLength() == 0 && ds == 0 && !field.IsNullField())
-- 
2.43.0


From 97977b21270155569655a917c9b0d9837640314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 198/246] fix: adjusting the reference momentum of slices keeps
 their momenta

---
 Merlin++/SMPBunch.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 07868b5..e582c3e 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -153,10 +153,11 @@ double SMPBunch::AdjustRefMomentumToMean()
 	{
 		dp0 += (cp->dp()) * (cp->Q());
 	}
-	double ddp = dp0 / Qt + 1.0;
+	dp0 /= Qt;
+	double ddp = dp0 + 1.0;
 	for(iterator p = begin(); p != end(); p++)
 	{
-		p->dp() /= ddp;
+		p->dp() = (p->dp() - dp0) / ddp;
 	}
 	SetReferenceMomentum(GetReferenceMomentum() * ddp);
 	return GetReferenceMomentum();
-- 
2.43.0


From 27dc357ad1984e0185539836034bfffda2afc05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 199/246] fix: a thin quadrupole focuses slices like particles

---
 Merlin++/SMPStdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 70c424d..8740092 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -99,8 +99,8 @@ struct ThinLensKick
 			double k = dpp * k1;
 			RMap M;
 			MakeIdentity(M);
-			M.AddTerm(2, 1) = k;
-			M.AddTerm(4, 3) = -k;
+			M.AddTerm(2, 1) = -k;
+			M.AddTerm(4, 3) = k;
 			M.Apply(p);
 		}
 	}
-- 
2.43.0


From 7cabd41aad756c5fd0ef28938cc2ce687f4a2736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 200/246] fix: small rolls turn slices too

---
 Merlin++/RMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index ab94b73..b108ce7 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -239,7 +239,7 @@ public:
 
 	bool IsIdentity() const
 	{
-		return fequal(r11, 1.0, 1.0e-6) && fequal(r22, 1.0, 1.0e-6);
+		return fequal(r11, 1.0, 1.0e-6) && fequal(r22, 1.0, 1.0e-6) && r12 == 0 && r21 == 0;
 	}
 
 	// matrix elements
-- 
2.43.0


From 40037eae923db7fbdda4b4f8c422e19f841b31f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 201/246] fix: adjusting the reference time of slices keeps
 their arrival times

---
 Merlin++/SMPBunch.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index e582c3e..b3b47fc 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -170,7 +170,12 @@ double SMPBunch::AdjustRefTimeToMean()
 	{
 		ct += (p->ct()) * (p->Q());
 	}
-	IncrReferenceTime(ct / Qt);
+	ct /= Qt;
+	for(iterator p = begin(); p != end(); p++)
+	{
+		p->ct() -= ct;
+	}
+	SetReferenceTime(GetReferenceTime() - ct);
 	return GetReferenceTime();
 }
 
-- 
2.43.0


From f8fb8aa90e59c216eb3bfca61378a1c62171d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 202/246] fix: the moments of slices do not depend on what was
 in the result before

---
 Merlin++/SMPBunch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index b3b47fc..df155db 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -79,6 +79,7 @@ double SMPBunch::GetTotalCharge() const
 PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	int i, j;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
@@ -104,6 +105,8 @@ PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 
 PSmoments2D& SMPBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
+	sigma[0] = sigma[1] = 0;
+	sigma.Zero();
 	for(const_iterator p = begin(); p != end(); p++)
 	{
 		const SliceMacroParticle& x = (*p);
-- 
2.43.0


From 1e6b82bff416d6505fd1ee6dc991acb80c394a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 203/246] fix: a monitor of finite length measures slices once

---
 Merlin++/SMPStdIntegrators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 8740092..3ba7be9 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -405,7 +405,8 @@ void MonitorCI::TrackStep(double ds)
 	else
 	{
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		// only in the step that reaches the measurement point
+		if((GetIntegratedLength() < mpt || AtEntrance()) && (GetIntegratedLength() + ds >= mpt || AtExit(ds)))
 		{
 			double s1 = mpt - GetIntegratedLength();
 			ApplyDrift(s1, *currentBunch);
-- 
2.43.0


From 1465e005b04102e89876352a349f484ff09e39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:03 +0000
Subject: [PATCH 204/246] fix: the map of a bend for slices keeps its
 dispersion where its gradient cancels the focusing

---
 Merlin++/TransportRMaps.cpp | 40 ++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 794bbbc..1ccea02 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -85,34 +85,38 @@ void SBR(double length, double h, double Kx, RMap& R)
 	// vertical plane
 	QR2(length, Ky, 2, R);
 
-	if(h && Kx)
+	if(h)
 	{
-		if(Kx > 0)
+		// sin(phi)/k, (1-cos(phi))/k^2 and (phi-sin(phi))/k^3, also without focusing
+		double phi2 = Kx * length * length;
+		double d1, d2, d3;
+		if(fabs(phi2) < 1.0e-3)
+		{
+			d1 = length * (1 - phi2 / 6 * (1 - phi2 / 20 * (1 - phi2 / 42)));
+			d2 = length * length / 2 * (1 - phi2 / 12 * (1 - phi2 / 30 * (1 - phi2 / 56)));
+			d3 = length * length * length / 6 * (1 - phi2 / 20 * (1 - phi2 / 42 * (1 - phi2 / 72)));
+		}
+		else if(Kx > 0)
 		{
 			double k = sqrt(Kx);
 			double phi = k * length;
-			double cosPhi = cos(phi);
-			double sinPhi = sin(phi);
-
-			R.AddTerm(1, 6) = h * (1 - cosPhi) / Kx;
-			R.AddTerm(2, 6) = h * sinPhi / k;
-			R.AddTerm(5, 6) = -h * h * (phi - sinPhi) / (Kx * k);
-			R.AddTerm(5, 1) = -h * sinPhi / k;
-			R.AddTerm(5, 2) = -h * (1 - cosPhi) / Kx;
+			d1 = sin(phi) / k;
+			d2 = (1 - cos(phi)) / Kx;
+			d3 = (phi - sin(phi)) / (Kx * k);
 		}
 		else
 		{
 			double k = sqrt(-Kx);
 			double phi = k * length;
-			double coshPhi = cosh(phi);
-			double sinhPhi = sinh(phi);
-
-			R.AddTerm(1, 6) = h * (1 - coshPhi) / Kx;
-			R.AddTerm(2, 6) = h * sinhPhi / k;
-			R.AddTerm(5, 6) = -h * h * (phi - sinhPhi) / (Kx * k);
-			R.AddTerm(5, 1) = -h * sinhPhi / k;
-			R.AddTerm(5, 2) = -h * (1 - coshPhi) / Kx;
+			d1 = sinh(phi) / k;
+			d2 = (1 - cosh(phi)) / Kx;
+			d3 = (phi - sinh(phi)) / (Kx * k);
 		}
+		R.AddTerm(1, 6) = h * d2;
+		R.AddTerm(2, 6) = h * d1;
+		R.AddTerm(5, 6) = -h * h * d3;
+		R.AddTerm(5, 1) = -h * d1;
+		R.AddTerm(5, 2) = -h * d2;
 	}
 
 	R.AddTerm(5, 5) = 1.0;
-- 
2.43.0


From 1e4bcf4c41e74a51c8136c4914214d05e3512c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 205/246] fix: a bend whose gradient cancels its focusing does
 not turn particles into NaN

---
 Merlin++/BasicTransportMaps.cpp | 43 +++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 7a08f74..542386b 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -232,16 +232,16 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 
 	RealMatrix R(IdentityMatrix(6));
 	TransportMatrix::SectorBend(s, h, K1, R);
-	double cx = rtMap(1, 1) = R(0, 0);
-	double sx = rtMap(1, 2) = R(0, 1);
-	double dx = rtMap(1, 6) = R(0, 5);
-	double cxp = rtMap(2, 1) = R(1, 0);
-	double sxp = rtMap(2, 2) = R(1, 1);
-	double dxp = rtMap(2, 6) = R(1, 5);
-	double cy = rtMap(3, 3) = R(2, 2);
-	double sy = rtMap(3, 4) = R(2, 3);
-	double cyp = rtMap(4, 3) = R(3, 2);
-	double syp = rtMap(4, 4) = R(3, 3);
+	rtMap(1, 1) = R(0, 0);
+	rtMap(1, 2) = R(0, 1);
+	rtMap(1, 6) = R(0, 5);
+	rtMap(2, 1) = R(1, 0);
+	rtMap(2, 2) = R(1, 1);
+	rtMap(2, 6) = R(1, 5);
+	rtMap(3, 3) = R(2, 2);
+	rtMap(3, 4) = R(2, 3);
+	rtMap(4, 3) = R(3, 2);
+	rtMap(4, 4) = R(3, 3);
 
 	rtMap(5, 1) = R(4, 0);
 	rtMap(5, 2) = R(4, 1);
@@ -249,6 +249,29 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	rtMap(5, 6) = R(4, 5);
 	rtMap(6, 6) = 1;
 
+	// The second order terms are smooth functions of K1, but the expressions
+	// below divide by K1+h^2 and by 5*K1+h^2. They are evaluated beside these zeros.
+	const double away = 1.0e-5 / (s * s);
+	if(fabs(K1 + h * h) < away)
+	{
+		K1 = -h * h + away;
+	}
+	if(fabs(5 * K1 + h * h) < away)
+	{
+		K1 = (-h * h + away) / 5;
+	}
+	TransportMatrix::SectorBend(s, h, K1, R);
+	double cx = R(0, 0);
+	double sx = R(0, 1);
+	double dx = R(0, 5);
+	double cxp = R(1, 0);
+	double sxp = R(1, 1);
+	double dxp = R(1, 5);
+	double cy = R(2, 2);
+	double sy = R(2, 3);
+	double cyp = R(3, 2);
+	double syp = R(3, 3);
+
 	// Code generated by Mathematica
 	// -----------------------------
 
-- 
2.43.0


From 23803b7374df22e8b4e833105ef02e72040d65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:31 +0000
Subject: [PATCH 206/246] fix: the second-order map of a bend is precise around
 the gradients that cancel its focusing

---
 Merlin++/BasicTransportMaps.cpp | 25 ++++++++++++++++++-------
 Merlin++/RTMap.h                | 12 ++++++++++++
 Merlin++/TransportMatrix.cpp    | 22 +++++++++++++---------
 3 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 542386b..fbca534 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -250,17 +250,28 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	rtMap(6, 6) = 1;
 
 	// The second order terms are smooth functions of K1, but the expressions
-	// below divide by K1+h^2 and by 5*K1+h^2. They are evaluated beside these zeros.
-	const double away = 1.0e-5 / (s * s);
-	if(fabs(K1 + h * h) < away)
+	// below divide by K1+h^2 and by 5*K1+h^2. Around these zeros the terms are
+	// interpolated.
+	const double width = 1.0e-4 * h * h;
+	double zero = -h * h;
+	if(fabs(K1 - zero) > width)
 	{
-		K1 = -h * h + away;
+		zero /= 5;
 	}
-	if(fabs(5 * K1 + h * h) < away)
+	if(fabs(K1 - zero) <= width)
 	{
-		K1 = (-h * h + away) / 5;
+		const double lower = zero - 1.5 * width;
+		const double upper = zero + 1.5 * width;
+		const double w = (K1 - lower) / (upper - lower);
+		RTMap* m = GenSectorBendTM(s, h, lower, K2);
+		rtMap.AddNonLinearTerms(*m, 1 - w);
+		delete m;
+		m = GenSectorBendTM(s, h, upper, K2);
+		rtMap.AddNonLinearTerms(*m, w);
+		delete m;
+		return rtm;
 	}
-	TransportMatrix::SectorBend(s, h, K1, R);
+
 	double cx = R(0, 0);
 	double sx = R(0, 1);
 	double dx = R(0, 5);
diff --git a/Merlin++/RTMap.h b/Merlin++/RTMap.h
index 63b29c6..9cd8568 100644
--- a/Merlin++/RTMap.h
+++ b/Merlin++/RTMap.h
@@ -74,6 +74,18 @@ public:
 		return RMap::operator()(i, j);
 	}
 
+	/**
+	 * Adds the second-order terms of another map, multiplied by a factor
+	 */
+	void AddNonLinearTerms(const RTMap& m, double factor)
+	{
+		for(const_itor t = m.tterms.begin(); t != m.tterms.end(); t++)
+		{
+			tterms.push_back(*t);
+			tterms.back().val *= factor;
+		}
+	}
+
 	/**
 	 * Operating on a PSvector
 	 */
diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 9f9e065..0da3aa3 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -111,12 +111,12 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 	{
 		if(h)
 		{
-			// (the expressions below lose all their digits when Kx is due to rounding)
-			if(fabs(Kx) * length * length < 1.0e-9)
+			// (half angles and the expansion of R56 keep their digits when Kx is small)
+			const double phi2 = Kx * length * length;
+			if(Kx == 0)
 			{
 				R(0, 5) = h * length * length / 2;
 				R(1, 5) = h * length;
-				R(4, 5) = -h * h * length * length * length / 6;
 				R(4, 0) = -h * length;
 				R(4, 1) = -h * length * length / 2;
 			}
@@ -124,27 +124,31 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 			{
 				double k = sqrt(Kx);
 				double phi = k * length;
-				double cosPhi = cos(phi);
 				double sinPhi = sin(phi);
+				double sinHalf = sin(phi / 2);
 
-				R(0, 5) = h * (1 - cosPhi) / Kx;
+				R(0, 5) = 2 * h * sinHalf * sinHalf / Kx;
 				R(1, 5) = h * sinPhi / k;
 				R(4, 5) = -h * h * (phi - sinPhi) / (Kx * k);
 				R(4, 0) = -h * sinPhi / k;
-				R(4, 1) = -h * (1 - cosPhi) / Kx;
+				R(4, 1) = -2 * h * sinHalf * sinHalf / Kx;
 			}
 			else
 			{
 				double k = sqrt(-Kx);
 				double phi = k * length;
-				double coshPhi = cosh(phi);
 				double sinhPhi = sinh(phi);
+				double sinhHalf = sinh(phi / 2);
 
-				R(0, 5) = h * (1 - coshPhi) / Kx;
+				R(0, 5) = -2 * h * sinhHalf * sinhHalf / Kx;
 				R(1, 5) = h * sinhPhi / k;
 				R(4, 5) = -h * h * (phi - sinhPhi) / (Kx * k);
 				R(4, 0) = -h * sinhPhi / k;
-				R(4, 1) = -h * (1 - coshPhi) / Kx;
+				R(4, 1) = 2 * h * sinhHalf * sinhHalf / Kx;
+			}
+			if(fabs(phi2) < 1.0e-4)
+			{
+				R(4, 5) = -h * h * length * length * length / 6 * (1 - phi2 / 20);
 			}
 		}
 	}
-- 
2.43.0


From 3adc393765b66c192044f5a92e9a1f9873ca6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:34 +0000
Subject: [PATCH 207/246] fix: the slices of a beam are made around its arrival
 time

---
 Merlin++/SMPBunchConstructor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPBunchConstructor.cpp b/Merlin++/SMPBunchConstructor.cpp
index 0712a4f..259316b 100644
--- a/Merlin++/SMPBunchConstructor.cpp
+++ b/Merlin++/SMPBunchConstructor.cpp
@@ -67,7 +67,7 @@ Bunch* SMPBunchConstructor::ConstructBunch(int) const
 	double dz = 2 * nSigZ * beamdat.sig_z / ns;
 	double ddp = 2 * nSigDP * beamdat.sig_dp / np;
 
-	double z = -nSigZ * beamdat.sig_z + dz / 2;
+	double z = beamdat.ct0 - nSigZ * beamdat.sig_z + dz / 2;
 	for(size_t nSlice = 0; nSlice < ns; nSlice++, z += dz)
 	{
 		double dp = -nSigDP * beamdat.sig_dp + ddp / 2.0;
-- 
2.43.0


From 90cb41580956ee8dc7ce1633193829ef6bf8b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:07 +0000
Subject: [PATCH 208/246] fix: slices are sorted before they are binned for the
 wakefield

---
 Merlin++/SMPWakeFieldProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 06935e2..89b928c 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -245,6 +245,7 @@ void WakeFieldProcess::PrepSlices()
 	tz.reserve(32);
 	tq.reserve(32);
 
+	currentBunch->SortByCT();
 	SMPBunch::iterator p = currentBunch->begin();
 	sb.push_back(p);
 
-- 
2.43.0


From 05aa2b64b9f101c28512c6b8a8f5c07756f390b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:07 +0000
Subject: [PATCH 209/246] fix: the first slice counts once in the wakefield

---
 Merlin++/SMPWakeFieldProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 89b928c..e55ebf7 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -250,8 +250,8 @@ void WakeFieldProcess::PrepSlices()
 	sb.push_back(p);
 
 	double z = p->ct() + dz;
-	double zavg = (p->ct()) * (p->Q());
-	double qt = p->Q();
+	double zavg = 0;
+	double qt = 0;
 
 	for(; p != currentBunch->end(); p++)
 	{
-- 
2.43.0


From f6b2d2f26185c105c8927ecdbe67b4b7f6ff909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:07 +0000
Subject: [PATCH 210/246] fix: the wakefield scales the covariance of xp and y
 of slices too

---
 Merlin++/SMPWakeFieldProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index e55ebf7..f327db4 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -74,6 +74,7 @@ struct AWK
 		p(0, 1) *= Er;
 		p(0, 3) *= Er;
 		p(1, 1) *= Er2;
+		p(1, 2) *= Er;
 		p(1, 3) *= Er2;
 		p(2, 3) *= Er;
 		p(3, 3) *= Er2;
-- 
2.43.0


From b87ec582b64bad1961bf6c3535f60c43e283824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:08 +0000
Subject: [PATCH 211/246] fix: an empty bunch of slices passes a wakefield

---
 Merlin++/SMPWakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index f327db4..2dd0f9e 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -108,7 +108,7 @@ void WakeFieldProcess::SetCurrentComponent(AcceleratorComponent& component)
 		wake = nullptr;
 	}
 
-	if(currentBunch != nullptr && wake != nullptr)
+	if(currentBunch != nullptr && currentBunch->Size() != 0 && wake != nullptr)
 	{
 		clen = component.GetLength();
 		switch(imploc)
-- 
2.43.0


From e3cffb338a23b92fa2ab4dc164f05d6affaa92e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:08 +0000
Subject: [PATCH 212/246] fix: negatively charged slices lose energy in a
 wakefield like positive ones

---
 Merlin++/SMPWakeFieldProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 2dd0f9e..32fe002 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -262,13 +262,13 @@ void WakeFieldProcess::PrepSlices()
 			tz.push_back(zavg / qt);
 			tq.push_back(qt);
 			z = p->ct() + dz;
-			zavg = (p->ct()) * (p->Q());
-			qt = p->Q();
+			zavg = (p->ct()) * fabs(p->Q());
+			qt = fabs(p->Q());
 		}
 		else
 		{
-			zavg += (p->ct()) * (p->Q());
-			qt += p->Q();
+			zavg += (p->ct()) * fabs(p->Q());
+			qt += fabs(p->Q());
 		}
 	}
 
-- 
2.43.0


From abcf054c7a5d1bc7f6e31b0c9425932d68229123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:08 +0000
Subject: [PATCH 213/246] fix: the last slice is smeared by its distance to the
 one before

---
 Merlin++/SMPBunchConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPBunchConverter.cpp b/Merlin++/SMPBunchConverter.cpp
index bfab34c..62603d4 100644
--- a/Merlin++/SMPBunchConverter.cpp
+++ b/Merlin++/SMPBunchConverter.cpp
@@ -78,7 +78,7 @@ ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, si
 			itPlus = set_ct.upper_bound(x.ct());
 			if(itPlus == set_ct.end())
 			{
-				sct = fabs(*--set_ct.rbegin() - x.ct()) / 2;
+				sct = fabs(*++set_ct.rbegin() - x.ct()) / 2;
 			}
 			else
 			{
@@ -95,7 +95,7 @@ ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, si
 			itPlus = set_dp.upper_bound(x.dp());
 			if(itPlus == set_dp.end())
 			{
-				sdp = fabs(*--set_dp.rbegin() - x.dp()) / 2;
+				sdp = fabs(*++set_dp.rbegin() - x.dp()) / 2;
 			}
 			else
 			{
-- 
2.43.0


From 8696947d62afb0d21b6edec995b76ffb9751acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:08 +0000
Subject: [PATCH 214/246] fix: a multivariate normal distribution may have
 directions without variance

---
 Merlin++/MultiNormal.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MultiNormal.h b/Merlin++/MultiNormal.h
index 45bf2f7..9e8ec09 100644
--- a/Merlin++/MultiNormal.h
+++ b/Merlin++/MultiNormal.h
@@ -140,13 +140,16 @@ void MultiNormal<N>::CholeskyDecomp()// uses Cholesky-Banachiewicz algorithm fro
 			if (i==j) 
 			{
 				double x=L(i,j)-stot;
+				// (rounding, if some combination of the variables has no variance)
+				if(fabs(x)<=1e-14*L(i,j)) x=0;
 				if(x<0) throw MerlinException("Negative square root in CholeskyDecomp");
 				L(i,j)=sqrt(x);
 
 			} 
 			else
 			{
-				L(i,j)=(L(j,i)-stot)/L(j,j);
+				// a combination without variance has no covariances
+				L(i,j)=L(j,j)!=0 ? (L(j,i)-stot)/L(j,j) : 0;
 			}
 		}
 	}
-- 
2.43.0


From ee8e6848907e553fb471d7d1028d4775f876e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:04 +0000
Subject: [PATCH 215/246] fix: the decomposition of a covariance allows for
 rounding

---
 Merlin++/MultiNormal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MultiNormal.h b/Merlin++/MultiNormal.h
index 9e8ec09..0e6d6ea 100644
--- a/Merlin++/MultiNormal.h
+++ b/Merlin++/MultiNormal.h
@@ -141,7 +141,7 @@ void MultiNormal<N>::CholeskyDecomp()// uses Cholesky-Banachiewicz algorithm fro
 			{
 				double x=L(i,j)-stot;
 				// (rounding, if some combination of the variables has no variance)
-				if(fabs(x)<=1e-14*L(i,j)) x=0;
+				if(x<=1e-14*L(i,j) && x>=-1e-8*L(i,j)) x=0;
 				if(x<0) throw MerlinException("Negative square root in CholeskyDecomp");
 				L(i,j)=sqrt(x);
 
-- 
2.43.0


From 9b985e070aed1d3863cff9d05852a80ccced8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:28 +0000
Subject: [PATCH 216/246] fix: material constants of energy loss and straggling
 follow the material given

---
 Merlin++/ScatteringModel.cpp | 85 +++++++++++++++---------------------
 1 file changed, 34 insertions(+), 51 deletions(-)

diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index 93b1321..dd90aac 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -138,54 +138,45 @@ void ScatteringModel::EnergyLossSimple(PSvector& p, double x, MaterialProperties
 //Advanced energy loss
 void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties* mat, double E0)
 {
-	static MaterialProperties* oldmat = 0;
 	static const double xi1 = 2.0 * pi * pow(ElectronRadius, 2) * ElectronMass * pow(SpeedOfLight, 2);
-	static double C, C0, C1, I, edensity, xi0, plasmaEnergy;
-	if(mat != oldmat)      // new material so do the sums, otherwise they persist
+	double I = 10 * mat->Z; // I is in eV
+	if(mat->HaveExtra("MeanExcitationEnergy"))
 	{
-		cout << " New Material for energy loss full calculation";
-		if(mat->HaveExtra("MeanExcitationEnergy")) {
-                   I = mat->GetExtra("MeanExcitationEnergy") / eV;
-                   } else {
-                  I=10*mat->Z; // I is in eV
-}
-                cout<<" Excitation energy "<<I;
-		edensity = (mat->Z) * Avogadro * (mat->density) / (mat->A);
-		xi0 = xi1 *  edensity; //  mat->GetExtra("ElectronDensity");
-		plasmaEnergy = 28.816 * sqrt((mat->density) * 0.001 * (mat->Z) / (mat->A)); // from 33.1 of the PDG
-		cout << " plasma energy is " << plasmaEnergy << endl;
-		C = 1 + 2 * log(I / plasmaEnergy); 
-		C1 = 0;
-		C0 = 0;
-
-		if((I / eV) < 100)
+		I = mat->GetExtra("MeanExcitationEnergy") / eV;
+	}
+	double edensity = (mat->Z) * Avogadro * (mat->density) / (mat->A);
+	double xi0 = xi1 *  edensity; //  mat->GetExtra("ElectronDensity");
+	double plasmaEnergy = 28.816 * sqrt((mat->density) * 0.001 * (mat->Z) / (mat->A)); // from 33.1 of the PDG
+	double C = 1 + 2 * log(I / plasmaEnergy);
+	double C1 = 0;
+	double C0 = 0;
+
+	if((I / eV) < 100)
+	{
+		if(C <= 3.681)
 		{
-			if(C <= 3.681)
-			{
-				C0 = 0.2;
-				C1 = 2.0;
-			}
-			else
-			{
-				C0 = 0.326 * C - 1.0;
-				C1 = 2.0;
-			}
+			C0 = 0.2;
+			C1 = 2.0;
 		}
-		else //I >= 100eV
+		else
 		{
-			if(C <= 5.215)
-			{
-				C0 = 0.2;
-				C1 = 3.0;
-			}
-			else
-			{
-				C0 = 0.326 * C - 1.5;
-				C1 = 3.0;
-			}
+			C0 = 0.326 * C - 1.0;
+			C1 = 2.0;
+		}
+	}
+	else //I >= 100eV
+	{
+		if(C <= 5.215)
+		{
+			C0 = 0.2;
+			C1 = 3.0;
 		}
-		oldmat = mat;
-	}       // end of material setup stuff
+		else
+		{
+			C0 = 0.326 * C - 1.5;
+			C1 = 3.0;
+		}
+	}
 
 	double E1 = E0 * (1 + p.dp());
 	double gamma = E1 / (ProtonMassMeV * MeV);
@@ -239,16 +230,8 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 //HR 29Aug13
 void ScatteringModel::Straggle(PSvector& p, double x, MaterialProperties* mat, double E1, double E2)
 {
-	static MaterialProperties* oldmat = 0;
-	static double X;     // radiation length in metres
 	static const double root12 = sqrt(12.0);
-	if(mat != oldmat)
-	{
-		X = centimeter * mat->X0 / (mat->density / (gram / cc));
-		cout << " New material in Straggle: radiation length "
-                   << setw(12) << setprecision(5) << X << " metres" << endl;
-		oldmat = mat;
-	}
+	const double X = centimeter * mat->X0 / (mat->density / (gram / cc)); // radiation length in metres
 	double scaledx = x / X;
 	double Eav = (E1 + E2) / 2.0;
 	double theta0 = 13.6 * MeV * sqrt(scaledx) * (1.0 + 0.038 * log(scaledx)) / Eav;
-- 
2.43.0


From 2bd530f04b1913a352a2716a3a5721115ca02425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 217/246] fix: the units and the sign of the most probable
 energy loss

---
 Merlin++/ScatteringModel.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index dd90aac..262625b 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -151,7 +151,7 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 	double C1 = 0;
 	double C0 = 0;
 
-	if((I / eV) < 100)
+	if(I < 100)
 	{
 		if(C <= 3.681)
 		{
@@ -221,9 +221,14 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 	double L2 = -yL2 * yL2 * L2sum;
 
 	double F = G - S + 2 * (L1 + L2);
-	double deltaE = xi * (log(2 * ElectronMassMeV * beta * beta * gamma * gamma * xi / pow(I / MeV, 2)) - (beta
-		* beta) - delta + F + 0.20);
-	double dp = ((xi * land) - deltaE); 
+	// xi is in GeV and I in eV, the argument of the logarithm is dimensionless
+	double deltaE = xi * (log(2 * ElectronMassMeV * beta * beta * gamma * gamma * (xi / MeV) / pow(I * eV / MeV, 2))
+		- (beta * beta) - delta + F + 0.20);
+	double dp = ((xi * land) + deltaE);
+	if(dp < 0) // the expansion does not hold for very thin layers: energy is never gained
+	{
+		dp = 0;
+	}
 	p.dp() = ((E1 - dp) - E0) / E0;
 }
 
-- 
2.43.0


From 2585cc4f0bc68b100070830257bef757a005fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 218/246] fix: the slope of single diffraction is continuous in
 the mass

---
 Merlin++/ScatteringProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ScatteringProcess.cpp b/Merlin++/ScatteringProcess.cpp
index 4c74736..037aba3 100644
--- a/Merlin++/ScatteringProcess.cpp
+++ b/Merlin++/ScatteringProcess.cpp
@@ -311,7 +311,7 @@ bool SixTrackSingleDiffractive::Scatter(PSvector& p, double E) const
 	}
 	else if(2.0 <= xm2 && xm2 <= 5.0)
 	{
-		b = (106.0 - 17.0 * xm2) * b_pp / 26.0;
+		b = (106.0 - 17.0 * xm2) * b_pp / 36.0;
 	}
 	else if(xm2 > 5.0)
 	{
-- 
2.43.0


From b0ccce0c509ab22fa27763701e90526f563348cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 219/246] fix: the SixTrack models use their energy loss before
 the first interaction too

---
 Merlin++/ScatteringModelsMerlin.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/ScatteringModelsMerlin.h b/Merlin++/ScatteringModelsMerlin.h
index fcaef52..739025b 100644
--- a/Merlin++/ScatteringModelsMerlin.h
+++ b/Merlin++/ScatteringModelsMerlin.h
@@ -45,6 +45,7 @@ public:
 	ScatteringModelSixTrack() :
 		ScatteringModel()
 	{
+		energy_loss_mode = SimpleEnergyLoss;
 	}
 	void Configure(MaterialProperties *, double Energy) override;
 };
@@ -71,6 +72,7 @@ public:
 	ScatteringModelSixTrackElastic() :
 		ScatteringModel()
 	{
+		energy_loss_mode = SimpleEnergyLoss;
 	}
 	void Configure(MaterialProperties *, double Energy) override;
 };
@@ -84,6 +86,7 @@ public:
 	ScatteringModelSixTrackSD() :
 		ScatteringModel()
 	{
+		energy_loss_mode = SimpleEnergyLoss;
 	}
 	void Configure(MaterialProperties *, double Energy) override;
 };
-- 
2.43.0


From e330d8e432c2a7d42efa3d0243b4e336e2fac4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 220/246] fix: interactions in a collimator take the energy the
 momentum deviation refers to

---
 Merlin++/CollimateProtonProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 502daee..4c1b2cf 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -174,11 +174,11 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 			return ScatterOutcome::survived;
 		}
 
-		//Scattering - use E2
+		//Scattering - dp is relative to E0
 
 		if(interacted)
 		{
-			if(!scattermodel->ParticleScatter(p, C->GetMaterialProperties(), E2))
+			if(!scattermodel->ParticleScatter(p, C->GetMaterialProperties(), E0))
 			{ // lost
 				p.ct() = z;
 
-- 
2.43.0


From 2edec675ef6d148fe0cf8895b29287be73ce7d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:22 +0000
Subject: [PATCH 221/246] fix: diffractive momentum transfers are not below the
 limit of their table

---
 Merlin++/DiffractiveScatter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Merlin++/DiffractiveScatter.cpp b/Merlin++/DiffractiveScatter.cpp
index df22170..f040a0e 100644
--- a/Merlin++/DiffractiveScatter.cpp
+++ b/Merlin++/DiffractiveScatter.cpp
@@ -178,8 +178,8 @@ void FAST_MATH ppDiffractiveScatter::GenerateDsigDtDxi(const double
 	std::cout << "t_max" << "\t" << t_max << "\t" << "t_min" << "\t" << t_min << std::endl;
 	std::cout << "xi_max" << "\t" << xi_max << "\t" << "xi_min" << "\t" << xi_min << std::endl;
 	std::cout << "xi_step" << "\t" << xi_step << "\t" << "t_step" << "\t" << t_step << std::endl;
-	double xdist[NN] = {0};
-	double tdist[NN] = {0};
+	double xdist[NN + 1] = {0}; // element i is the content below the lower edge of bin i
+	double tdist[NN + 1] = {0};
 
 	double sum = 0;
 
@@ -191,8 +191,8 @@ void FAST_MATH ppDiffractiveScatter::GenerateDsigDtDxi(const double
 			const double x = xi_min + j * xi_step;
 			const double ds = PomeronScatter(t, x, s);
 			sum = sum + ds;
-			tdist[i] += ds;
-			xdist[j] += ds;
+			tdist[i + 1] += ds;
+			xdist[j + 1] += ds;
 		}
 	}
 
@@ -200,17 +200,17 @@ void FAST_MATH ppDiffractiveScatter::GenerateDsigDtDxi(const double
 
 	// convert histograms to normalised cumulants
 	// Running total
-	for(int i = 1; i < NN; i++)
+	for(int i = 1; i <= NN; i++)
 	{
 		xdist[i] += xdist[i - 1];
 		tdist[i] += tdist[i - 1];
 	}
 
 	//Normalized
-	for(int i = 0; i < NN; i++)
+	for(int i = 0; i <= NN; i++)
 	{
-		xdist[i] /= xdist[NN - 1];
-		tdist[i] /= tdist[NN - 1];
+		xdist[i] /= xdist[NN];
+		tdist[i] /= tdist[NN];
 	}
 
 	// convert to lookup tables
-- 
2.43.0


From 2373df1ea7429131e5b23a06b0586ba16c39255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:33 +0000
Subject: [PATCH 222/246] fix: CollimatorDatabase: the offsets of the gap file
 were read but the jaws were centred on the axis

---
 Merlin++/CollimatorDatabase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index 535d05c..ae92d8d 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -130,13 +130,13 @@ void CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model)
 			MaterialProperties* collimator_material = CollData[n].JawMaterial;
 			//Create an aperture for the collimator jaws
 			CollimatorAperture* app = new CollimatorAperture(CollData[n].x_gap, CollData[n].y_gap, CollData[n].tilt,
-				(CMapit->second)->GetLength(), 0, 0);
+				(CMapit->second)->GetLength(), CollData[n].x_offset, CollData[n].y_offset);
 
 			{
 				app->SetExitWidth(CollData[n].x_gap);      //Horizontal
 				app->SetExitHeight(CollData[n].y_gap);    //Vertical
-				app->SetExitXOffset(0); //Horizontal
-				app->SetExitYOffset(0); //Vertical
+				app->SetExitXOffset(CollData[n].x_offset); //Horizontal
+				app->SetExitYOffset(CollData[n].y_offset); //Vertical
 			}
 			(CMapit->second)->SetAperture(app);
 			(CMapit->second)->SetMaterialProperties(collimator_material);
-- 
2.43.0


From 6e160a04f1b62a199db4dff196970e9145afeb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:33 +0000
Subject: [PATCH 223/246] fix: CollimatorDatabase: the opening across the
 collimation plane was scaled by the beam size in the collimation plane

---
 Merlin++/CollimatorDatabase.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index ae92d8d..df19c4b 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -216,7 +216,11 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 							+ (beta_y * emittance_y * sin(collimator_aperture_tilt) * sin(collimator_aperture_tilt)));
 
 						double collimator_aperture_width_entrance = CollData[i].sigma_x * sigma_entrance * 2;
-						double collimator_aperture_height_entrance = CollData[i].sigma_y * sigma_entrance * 2;
+						//The height is in units of the beam size orthogonal to the collimation plane
+						double sigma_entrance_orth = sqrt((beta_x * emittance_x * sin(collimator_aperture_tilt) * sin(
+								collimator_aperture_tilt))
+							+ (beta_y * emittance_y * cos(collimator_aperture_tilt) * cos(collimator_aperture_tilt)));
+						double collimator_aperture_height_entrance = CollData[i].sigma_y * sigma_entrance_orth * 2;
 
 						//And the exit parameters
 						double sigma_exit = sqrt((beta_x_exit * emittance_x * cos(collimator_aperture_tilt) * cos(
@@ -225,7 +229,11 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 								collimator_aperture_tilt)));
 
 						double collimator_aperture_width_exit = CollData[i].sigma_x * sigma_exit * 2;
-						double collimator_aperture_height_exit = CollData[i].sigma_y * sigma_exit * 2;
+						double sigma_exit_orth = sqrt((beta_x_exit * emittance_x * sin(collimator_aperture_tilt) * sin(
+								collimator_aperture_tilt))
+							+ (beta_y_exit * emittance_y * cos(collimator_aperture_tilt) * cos(
+								collimator_aperture_tilt)));
+						double collimator_aperture_height_exit = CollData[i].sigma_y * sigma_exit_orth * 2;
 
 						//Get the length
 						double length = (CMapit->second)->GetLength();
-- 
2.43.0


From 51d05bad25f2c7d34953e4ad307ba71ba42ee12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:33 +0000
Subject: [PATCH 224/246] fix: CollimatorDatabase: an unknown material was
 accepted, gave a null pointer that crashed later and was added to the
 material data

---
 Merlin++/CollimatorDatabase.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index df19c4b..87d0a81 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -17,6 +17,7 @@
 #include "Collimator.h"
 
 #include "CollimatorDatabase.h"
+#include "MerlinException.h"
 #include "ResistiveWakePotentials.h"
 
 #include "PhysicalUnits.h"
@@ -90,7 +91,12 @@ CollimatorDatabase::CollimatorDatabase(string input_file, MaterialData* db, bool
 		}
 		//buf contains the material name, must search the material database and check that the appropriate material exists, then adjust the material pointer.
 //		CollData[i].JawMaterial = db->FindMaterial(buf);
-		CollData[i].JawMaterial = db->property[buf];
+		auto material = db->property.find(buf);
+		if(material == db->property.end())
+		{
+			throw MerlinException("CollimatorDatabase: unknown material " + buf + " for collimator " + CollData[i].name);
+		}
+		CollData[i].JawMaterial = material->second;
 	}
 
 	input->clear();
-- 
2.43.0


From 97b4095f4f14b9320651907c646673fd42781edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 225/246] fix: Interpolation: the constructor from arrays
 filled a temporary and left the object empty

---
 Merlin++/Interpolation.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index f3e4b34..d9f925f 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -162,11 +162,8 @@ ArbSpacedData::ArbSpacedData(const vector<double>& xvals, const vector<double>&
 	 */
 }
 ArbSpacedData::ArbSpacedData(const double* xvals, const double* yvals, int n, int order) :
-	itsData()
+	ArbSpacedData(vector<double>(xvals, xvals + n), vector<double>(yvals, yvals + n), order)
 { // version for old style arrays
-	vector<double> X(xvals, xvals + n);
-	vector<double> Y(yvals, yvals + n);
-	ArbSpacedData(X, Y, order);
 }
 
 double ArbSpacedData::ValueAt(double x, double* err)
-- 
2.43.0


From 4560f4574562891172682a829b753d187d02f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 226/246] fix: Interpolation: equally spaced data were read
 past the end at the upper end of the range

---
 Merlin++/Interpolation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index d9f925f..cff2f43 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -235,7 +235,8 @@ double EqualSpacedData::ValueAt(double x, double* err)
 	}
 	else
 	{
-		n = (x - xmin) / dx;
+		// the last point belongs to the last interval
+		n = min(static_cast<size_t>((x - xmin) / dx), yvals.size() - 2);
 	}
 
 	double m = (yvals[n + 1] - yvals[n]) / dx;
-- 
2.43.0


From d303f76022d127de6f65071aaa31297289a7ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 227/246] fix: Interpolation: polynomials of order n - 1 read
 outside their table, and the end points of the data were not reproduced

---
 Merlin++/Interpolation.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index cff2f43..003c0a0 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -184,15 +184,11 @@ double ArbSpacedData::ValueAt(double x, double* err)
 			lastseenat += 1;
 		while(x < itsData[lastseenat].x)
 			lastseenat -= 1;
-		int lo = max(0, lastseenat - itsOrder);
-		int Qsize = Q.size();
-		int hi = min(lastseenat, Qsize - 1);
-		int iwant = max(0, lastseenat - (itsOrder + 1) / 2 - 1);
-		iwant = min(iwant, Qsize - 2);
-		// cout<<" lastseen lo hi iwant "<<lastseenat<<" "<<lo<<" "<<hi<<" "<<iwant<<endl;
-		//for(int i=lo;i<=hi;i++) cout<<i<<" "<<evaluatepoly(x,Q[i])<<endl;
-		double v1 = evaluatepoly(x, Q[iwant]);
-		double v2 = evaluatepoly(x, Q[iwant + 1]);
+		int Qlast = Q.size() - 1;
+		int iwant = lastseenat - (itsOrder + 1) / 2 - 1;
+		// near the ends there is only one polynomial through the neighbouring points
+		double v1 = evaluatepoly(x, Q[min(max(0, iwant), Qlast)]);
+		double v2 = evaluatepoly(x, Q[min(max(0, iwant + 1), Qlast)]);
 		//cout<<" is "<<v1 <<" "<<v2<<endl;
 		if(err)
 			*err = abs(v1 - v2);  // give an error estimate iff one is asked for
-- 
2.43.0


From 67f56ab116967c8cb8e1a7bb69c161f127226f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:05 +0000
Subject: [PATCH 228/246] fix: EquilibriumDistribution: the Romberg integration
 asked an interpolation for a value outside its range, which threw or read
 outside its table

---
 Merlin++/EquilibriumDistribution.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/Merlin++/EquilibriumDistribution.cpp b/Merlin++/EquilibriumDistribution.cpp
index 412bf3e..75da731 100644
--- a/Merlin++/EquilibriumDistribution.cpp
+++ b/Merlin++/EquilibriumDistribution.cpp
@@ -14,7 +14,6 @@
 #include "PhysicalConstants.h"
 #include "PhysicalUnits.h"
 #include "MatrixPrinter.h"
-#include "Interpolation.h"
 
 // The following constants specify the integration precision
 #define EPS 1.0e-8
@@ -100,8 +99,23 @@ double IntegrateEigenvector::romberg(double a, double b)
 		s[j] = trapezium(a, b, j);
 		if(j >= K)
 		{
-			Interpolation I(h + j - K, s + j - K, K, K);
-			value = I.itsMethod->ValueAt(0.0, &error);
+			// extrapolate the last K values to zero step size by Neville's scheme
+			double c[K];
+			for(int i = 0; i < K; i++)
+			{
+				c[i] = s[j - K + 1 + i];
+			}
+			for(int m = 1; m < K; m++)
+			{
+				value = c[K - m - 1];
+				for(int i = 0; i < K - m; i++)
+				{
+					double h0 = h[j - K + 1 + i], hm = h[j - K + 1 + i + m];
+					c[i] = (h0 * c[i + 1] - hm * c[i]) / (h0 - hm);
+				}
+			}
+			error = c[0] - value;
+			value = c[0];
 			if(fabs(error) <= EPS * fabs(value))
 			{
 				return value;
-- 
2.43.0


From 9fbb0bea0bb3723acb3b2945c80eabc6cfc6ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:05 +0000
Subject: [PATCH 229/246] fix: EquilibriumDistribution: CalculateEmittance
 threw as it assigned the eigenvector to an empty vector

---
 Merlin++/EquilibriumDistribution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/EquilibriumDistribution.cpp b/Merlin++/EquilibriumDistribution.cpp
index 75da731..ad05436 100644
--- a/Merlin++/EquilibriumDistribution.cpp
+++ b/Merlin++/EquilibriumDistribution.cpp
@@ -128,7 +128,7 @@ double IntegrateEigenvector::romberg(double a, double b)
 
 double IntegrateEigenvector::Integral(ComplexVector& Ek, SectorBend* sb, double p0)
 {
-	ek = Ek;
+	ek.copy(Ek);
 	h = sb->GetB0() * eV * SpeedOfLight / p0;
 	k = sqrt(Complex(sb->GetB1() * eV * SpeedOfLight / p0, 0));
 
-- 
2.43.0


From feb09e5cc6cb6d43e6898b8605ed3a743394c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:24 +0000
Subject: [PATCH 230/246] fix: a linear map can be applied to a single vector

---
 Merlin++/RMap.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Merlin++/RMap.cpp b/Merlin++/RMap.cpp
index ac39724..bc999ab 100644
--- a/Merlin++/RMap.cpp
+++ b/Merlin++/RMap.cpp
@@ -36,14 +36,14 @@ void RMap::MatrixForm(std::ostream& os) const
 	ToMatrix(R, false);
 	::MatrixForm(R, os);
 }
-/*
-   PSvector& RMap::Apply(PSvector& X) const
-   {
-    PSvector Y(0);
-    Apply(X,Y);
-    return X=Y;
-   }
- */
+PSvector& RMap::Apply(PSvector& X) const
+{
+	PSvector Y(0);
+	Apply(X, Y);
+	Y.id() = X.id();
+	return X = Y;
+}
+
 void RMap::Apply(const PSvector& orig, PSvector& result) const
 {
 	for(const_itor r = rterms.begin(); r != rterms.end(); r++)
-- 
2.43.0


From fd2a292a70e84309e0bed791e3ab9a33b0bb044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:24 +0000
Subject: [PATCH 231/246] fix: copies of a linear map have terms of their own

---
 Merlin++/RMap.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index b108ce7..0c3a0d9 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -68,6 +68,15 @@ public:
 		{
 			last = array;
 		}
+		LinearTermArray(const LinearTermArray& rhs)
+		{
+			*this = rhs;
+		}
+		LinearTermArray& operator=(const LinearTermArray& rhs)
+		{
+			last = std::copy(rhs.begin(), rhs.end(), array);
+			return *this;
+		}
 		void push_back(const Rij& r)
 		{
 			*last = r;
-- 
2.43.0


From a444dacf1272fe6b852a1e37e95bcc2205d3e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:42 +0000
Subject: [PATCH 232/246] fix: the sparse map of a travelling wave cavity off
 crest is that of its planes, with time and momentum

---
 Merlin++/TransportRMaps.cpp | 61 ++++++++++---------------------------
 1 file changed, 16 insertions(+), 45 deletions(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 1ccea02..0573e74 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -7,6 +7,7 @@
 
 #include <cmath>
 #include "PhysicalConstants.h"
+#include "NumericalConstants.h"
 #include "MatrixPrinter.h"
 #include "utils.h"
 #include "TransportRMap.h"
@@ -208,53 +209,23 @@ void Solenoid(double length, double K0, double K1, bool entrFringe, bool exitFri
 	SolR(length, K0, R);
 }
 
-void TWRFCavity(double length, double g, double f, double phi, double E0, bool entr_field, bool exit_field, RMap& R)
+// A cavity with the map M of both transverse planes and a gain of dE (E0 to E1) at phase phi
+void CavityR(const R2Map& M, double f, double phi, double dE, double E0, double E1, RMap& R)
 {
+	R.AddTerm(1, 1) = R.AddTerm(3, 3) = M.r11;
+	R.AddTerm(1, 2) = R.AddTerm(3, 4) = M.r12;
+	R.AddTerm(2, 1) = R.AddTerm(4, 3) = M.r21;
+	R.AddTerm(2, 2) = R.AddTerm(4, 4) = M.r22;
+	R.AddTerm(5, 5) = 1.0;
+	R.AddTerm(6, 5) = twoPi * f / PhysicalConstants::SpeedOfLight * dE * sin(phi) / E1;
+	R.AddTerm(6, 6) = E0 / E1;
+}
 
-	using namespace PhysicalConstants;
-
-	const double dE = length * g;
-	const double cosphi = cos(phi);
-	const double dEcosPhi = dE * cosphi;
-	const double E1 = E0 + dEcosPhi;
-	const double Er = E0 / E1;
-	const double logEr = LogOnePlusX(dEcosPhi / E0);
-
-	if(dEcosPhi == 0)
-	{
-		MakeIdentity(R);
-		R.AddTerm(1, 2) = R.AddTerm(3, 4) = length;
-	}
-	else
-	{
-		if(entr_field && !exit_field)
-		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
-			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.5 * g / E1;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er;
-		}
-		else if(!entr_field && exit_field)
-		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1;
-			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = 0.5 * g * cosphi / E1;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
-		}
-		else if(entr_field && exit_field)
-		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
-			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.25 * g * logEr / E1 / cosphi;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
-		}
-		else   //no fringe fields
-		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1.0;
-			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er;
-		}
-	}
+void TWRFCavity(double length, double g, double f, double phi, double E0, bool entr_field, bool exit_field, RMap& R)
+{
+	R2Map M;
+	TWRFCavity(length, g, f, phi, E0, entr_field, exit_field, M);
+	CavityR(M, f, phi, g * length, E0, E0 + g * length * cos(phi), R);
 }
 
 void SWRFCavity(int ncells, double g, double f, double phi, double E0, RMap& R)
-- 
2.43.0


From 61a52703ba52e88d7a2ff5465f6f94597006ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:42 +0000
Subject: [PATCH 233/246] fix: the sparse map of a standing wave cavity keeps
 time and momentum, also without gain

---
 Merlin++/TransportRMaps.cpp | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 0573e74..5e27aaf 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -230,26 +230,10 @@ void TWRFCavity(double length, double g, double f, double phi, double E0, bool e
 
 void SWRFCavity(int ncells, double g, double f, double phi, double E0, RMap& R)
 {
-
-	using namespace PhysicalConstants;
-
-	double root2 = sqrt(2.0);
-	double root8 = sqrt(8.0);
-
-	double lambda = SpeedOfLight / f;
-	double length = ncells * lambda / 2;
-
-	double cosPhi = cos(phi);
-	double E1 = E0 + g * length * cosPhi;
-
-	double alpha = log(E1 / E0) / cosPhi / root8;
-	double cosAlpha = cos(alpha);
-	double sinAlpha = sin(alpha);
-
-	R.AddTerm(1, 1) = R.AddTerm(3, 3) = cosAlpha - root2 * cosPhi * sinAlpha;
-	R.AddTerm(1, 2) = R.AddTerm(3, 4) = root8 * E0 * sinAlpha / g;
-	R.AddTerm(2, 1) = R.AddTerm(4, 3) = -g * (2 + cos(2 * phi)) * sinAlpha / E1 / root8;
-	R.AddTerm(2, 2) = R.AddTerm(4, 4) = E0 * (cosAlpha + root2 * cosPhi * sinAlpha) / E1;
+	const double dE = g * ncells * PhysicalConstants::SpeedOfLight / f / 2;
+	R2Map M;
+	SWRFCavity(ncells, g, f, phi, E0, M);
+	CavityR(M, f, phi, dE, E0, E0 + dE * cos(phi), R);
 }
 
 // functions returning R2Map objects
@@ -351,7 +335,15 @@ void SWRFCavity(int ncells, double g, double f, double phi, double E0, R2Map& R)
 	double cosPhi = cos(phi);
 	double E1 = E0 + g * length * cosPhi;
 
-	double alpha = log(E1 / E0) / cosPhi / root8;
+	if(g == 0)
+	{
+		Drift(length, R);
+		return;
+	}
+
+	// log(E1/E0)/cos(phi), also where the cosine is too small to change the energy
+	double gain = g * length * cosPhi / E0;
+	double alpha = (gain == 0 ? g * length / E0 : log1p(gain) / cosPhi) / root8;
 	double cosAlpha = cos(alpha);
 	double sinAlpha = sin(alpha);
 
-- 
2.43.0


From 416ae0718901a4e354caed079383f495be863617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 234/246] fix: a tilt or skew gradient below 2e-16 made the map
 of a magnet zero

---
 Merlin++/TransportMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.h b/Merlin++/TransportMatrix.h
index bb4bcac..a5ba7ea 100644
--- a/Merlin++/TransportMatrix.h
+++ b/Merlin++/TransportMatrix.h
@@ -80,12 +80,12 @@ inline RealMatrix& TransportMatrix::Quadrupole(double length, double Kx, RealMat
 
 inline RealMatrix& TransportMatrix::Srot(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : Srot(cos(phi), sin(phi), R);
+	return Srot(cos(phi), sin(phi), R);
 }
 
 inline RealMatrix& TransportMatrix::SrotR4(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : SrotR4(cos(phi), sin(phi), R);
+	return SrotR4(cos(phi), sin(phi), R);
 }
 
 #endif
-- 
2.43.0


From b94a26847333cd342dc812a3c9d32bd0a49cecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:22 +0000
Subject: [PATCH 235/246] fix: a pulse delay no longer switches the actuators
 of a feedback off for the first pulses

---
 Merlin++/LinearFBSystem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LinearFBSystem.cpp b/Merlin++/LinearFBSystem.cpp
index abbb515..dbc7e22 100644
--- a/Merlin++/LinearFBSystem.cpp
+++ b/Merlin++/LinearFBSystem.cpp
@@ -164,9 +164,11 @@ void LinearFBSystem::SetPulseDelay(int n)
 
 	actuatorQueue = new std::queue<RealVector>();
 
-	RealVector zeros(0.0, actuators.Size());
+	// until the first correction arrives the actuators keep their settings
+	RealVector current(0.0, actuators.Size());
+	actuators.ReadAll(current);
 	while((--n) > 0)
 	{
-		actuatorQueue->push(zeros);
+		actuatorQueue->push(current);
 	}
 }
-- 
2.43.0


From 8cd393c15ac274b8b72b02a24a6f786857f19c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 236/246] fix: the conversion of slices to particles can be
 linked as declared

---
 Merlin++/BunchConverter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/BunchConverter.h b/Merlin++/BunchConverter.h
index b4be06d..25edc32 100644
--- a/Merlin++/BunchConverter.h
+++ b/Merlin++/BunchConverter.h
@@ -22,7 +22,7 @@
  * adjust==true: force means(ParticleBunch)=means(SMPBunch)
  *
  */
-ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, int N, bool adjust = true);
+ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, size_t N, bool adjust = true);
 
 /**
  * Given a ParticleBunch we construct a SMPBunch with n_ct x n_dp particles
-- 
2.43.0


From e3c57a944872c55f14f0bfbbca7f1625c6d7fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 237/246] fix: slices of a particle bunch span the values of
 its particles, also when zero is not among them

---
 Merlin++/ParticleBunchConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunchConverter.cpp b/Merlin++/ParticleBunchConverter.cpp
index e46c46d..30408c1 100644
--- a/Merlin++/ParticleBunchConverter.cpp
+++ b/Merlin++/ParticleBunchConverter.cpp
@@ -35,8 +35,8 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 	double sig_z  = PSM.std(4);
 
 	// min,max is either min,max(PB) or n*sigmma
-	double min_ct(0), max_ct(0);
-	double min_dp(0), max_dp(0);
+	double min_ct(PSM.mean(4)), max_ct(PSM.mean(4));
+	double min_dp(PSM.mean(5)), max_dp(PSM.mean(5));
 	if(nSigZ == 0 || nSigDP == 0)
 		for(ParticleBunch::const_iterator ipb = PB->begin(); ipb != PB->end(); ipb++)
 		{
-- 
2.43.0


From 4db19c11f205e34aaab6adb5177bab82f2a7655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 238/246] fix: sliced particles are scanned over sigmas about
 their mean

---
 Merlin++/ParticleBunchConverter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ParticleBunchConverter.cpp b/Merlin++/ParticleBunchConverter.cpp
index 30408c1..085c5bb 100644
--- a/Merlin++/ParticleBunchConverter.cpp
+++ b/Merlin++/ParticleBunchConverter.cpp
@@ -61,13 +61,13 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 		}
 	if(nSigZ != 0)
 	{
-		max_ct = nSigZ * sig_z;
-		min_ct = -max_ct;
+		max_ct = PSM.mean(4) + nSigZ * sig_z;
+		min_ct = PSM.mean(4) - nSigZ * sig_z;
 	}
 	if(nSigDP != 0)
 	{
-		max_dp = nSigDP * sig_dp;
-		min_dp = -max_dp;
+		max_dp = PSM.mean(5) + nSigDP * sig_dp;
+		min_dp = PSM.mean(5) - nSigDP * sig_dp;
 	}
 
 	double dct = (max_ct - min_ct) / n_ct;
-- 
2.43.0


From c6b74a47bad428f77d65e1f2b92382dfcf463a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 239/246] fix: sliced particles are in the slice around them
 and all of their charge is kept

---
 Merlin++/ParticleBunchConverter.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/Merlin++/ParticleBunchConverter.cpp b/Merlin++/ParticleBunchConverter.cpp
index 085c5bb..6b8a9e3 100644
--- a/Merlin++/ParticleBunchConverter.cpp
+++ b/Merlin++/ParticleBunchConverter.cpp
@@ -16,6 +16,18 @@
 using namespace SMPTracking;
 using namespace ParticleTracking;
 
+namespace
+{
+
+// bin of n with the given width that v is in; values out of range are in the first or last bin
+int BinOf(double v, double min, double width, int n)
+{
+	double bin = width > 0 ? (v - min) / width : 0;
+	return bin < 1 ? 0 : bin < n ? int(bin) : n - 1;
+}
+
+}
+
 // given an ParticleBunch we construct a SMPBunch with n_ct x n_dp particles
 // adjust==true: force means(ParticleBunch)=means(SMPBunch)
 // nSigZ,nSigDP number of sigmas to scann
@@ -75,17 +87,10 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 
 	// a histogram to integrate
 	std::vector<std::vector<int> > h(n_ct, std::vector<int>(n_dp, 0));
-	double scale_ct = (n_ct - 1) / (max_ct - min_ct);
-	double scale_dp = (n_dp - 1) / (max_dp - min_dp);
 	for(ParticleBunch::const_iterator ipb = PB->begin(); ipb != PB->end(); ipb++)
 	{
-		int bin_ct = (ipb->ct() - min_ct) * scale_ct;
-		int bin_dp = (ipb->dp() - min_dp) * scale_dp;
 		// we assume a constant charge for all particles in a ParticleBunch !!
-		if(bin_ct >= 0 && bin_dp >= 0 && bin_ct < n_ct && bin_dp < n_dp)
-		{
-			h[bin_ct][bin_dp]++;
-		}
+		h[BinOf(ipb->ct(), min_ct, dct, n_ct)][BinOf(ipb->dp(), min_dp, ddp, n_dp)]++;
 	}
 
 	SMPTracking::SMPBunch* bunch = new SMPTracking::SMPBunch(beamenergy, Qtot);
-- 
2.43.0


From c90ec03eeac8a01420b6feee207dd70067ea37ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 240/246] fix: sliced particles keep their centroid when asked
 to

---
 Merlin++/ParticleBunchConverter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Merlin++/ParticleBunchConverter.cpp b/Merlin++/ParticleBunchConverter.cpp
index 6b8a9e3..ae5cd34 100644
--- a/Merlin++/ParticleBunchConverter.cpp
+++ b/Merlin++/ParticleBunchConverter.cpp
@@ -109,6 +109,15 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 		}
 	}
 
+	if(adjust)
+	{
+		PSvector mean, centroid;
+		PB->GetCentroid(mean);
+		bunch->GetCentroid(centroid);
+		mean -= centroid;
+		bunch->AdjustCentroid(mean);
+	}
+
 	return bunch;
 
 }
-- 
2.43.0


From 7da051a88ccfa6a261d05b1b496340d38c8d8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 241/246] fix: sliced particles keep their reference time

---
 Merlin++/ParticleBunchConverter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ParticleBunchConverter.cpp b/Merlin++/ParticleBunchConverter.cpp
index ae5cd34..1c2847e 100644
--- a/Merlin++/ParticleBunchConverter.cpp
+++ b/Merlin++/ParticleBunchConverter.cpp
@@ -94,6 +94,7 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 	}
 
 	SMPTracking::SMPBunch* bunch = new SMPTracking::SMPBunch(beamenergy, Qtot);
+	bunch->SetReferenceTime(PB->GetReferenceTime());
 
 	double q0 = Qtot / PB->size();
 
-- 
2.43.0


From 70feb7951f0bd2086f6431fbe3bd859f195b74fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:20 +0000
Subject: [PATCH 242/246] fix: the NaN check removes every particle that is not
 finite, also of an identity it has reported before

---
 Merlin++/NANCheckProcess.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index a3a7ea1..3bc70fc 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -37,20 +37,16 @@ void NANCheckProcess::DoProcess(const double ds)
 	bool do_cull = 0;
 	for(auto &p : *currentBunch)
 	{
-		if(reported.count(p.id()))
+		if(!is_good(p) && cull)
 		{
-			continue;
+			do_cull = 1;
 		}
-		if(!is_good(p))
+		if(!is_good(p) && !reported.count(p.id()))
 		{
 			std::cout << "NAN entry found in currentBunch[" << count << "], p.id = " << p.id() << ", at "
 					  << currentComponent->GetQualifiedName() << std::endl;
 			Report(p.id());
 			reported.insert(p.id());
-			if(cull)
-			{
-				do_cull = 1;
-			}
 			if(halt)
 			{
 				std::cout << "Halting on NAN coordinate" << std::endl;
-- 
2.43.0


From 00bd9dc67df893b6dd6cb0e9b976c31755432187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:20 +0000
Subject: [PATCH 243/246] fix: the detailed NaN check has no coordinates to
 print for a particle that was not there at the start

---
 Merlin++/NANCheckProcess.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index 3bc70fc..387e499 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -77,7 +77,10 @@ void NANCheckProcess::Report(int id) const
 		{
 			std::cout << "prev     " << *p_prev << std::endl;
 		}
-		std::cout << "start    " << *p_start << std::endl;
+		if(p_start != start_coords.end())
+		{
+			std::cout << "start    " << *p_start << std::endl;
+		}
 	}
 
 	auto p_cur = find_if(currentBunch->begin(), currentBunch->end(), [&id](const PSvector p)
-- 
2.43.0


From d69c3f3e4f50669eb2e8ffdb1b2ca61bd87d1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:52 +0000
Subject: [PATCH 244/246] fix: lattice functions of an accelerating line on an
 orbit that is not zero

---
 Merlin++/LatticeFunctions.cpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/Merlin++/LatticeFunctions.cpp b/Merlin++/LatticeFunctions.cpp
index 1cae28b..f0091fb 100644
--- a/Merlin++/LatticeFunctions.cpp
+++ b/Merlin++/LatticeFunctions.cpp
@@ -438,7 +438,7 @@ double LatticeFunctionTable::DoCalculate(double cscale, PSvector* pInit, RealMat
 	RealMatrix M2(Nsize);
 	RealMatrix M21(Nsize);
 
-	double e0 = particle->GetReferenceMomentum();
+	const double e0 = particle->GetReferenceMomentum();
 	double e1 = e0;
 	double s  = 0;
 
@@ -451,29 +451,17 @@ double LatticeFunctionTable::DoCalculate(double cscale, PSvector* pInit, RealMat
 
 		e1 = tracker.GetTrackedBunch().GetReferenceMomentum();
 
-		if(e1 != e0)
-			for(int row = 0; row < Nsize; row++)
-			{
-				pref2[row] *= sqrt(e1 / e0);
-			}
+		// acceleration damps the motion
+		const double scale = sqrt(e1 / e0);
 
 		for(int col = 0; col < Nsize; col++, ip++)
 		{
-
-			if(e1 != e0)
-				for(int row = 0; row < Nsize; row++)
-				{
-					(*ip)[row] *= sqrt(e1 / e0);
-				}
-
 			for(int row = 0; row < Nsize; row++)
 			{
-				M2(row, col) = ((*ip)[row] - pref2[row]) / delta;
+				M2(row, col) = scale * ((*ip)[row] - pref2[row]) / delta;
 			}
 		}
 
-		e0 = e1;
-
 		M21 = M2 * M1;
 		M1  = M2;
 		Invert(M1);
-- 
2.43.0


From c2881d5988f58ae064cabce105fc687bdbc3f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:17 +0000
Subject: [PATCH 245/246] fix: EigenSystem finds the eigenvalue where a
 diagonal block alone looks unstable

---
 Merlin++/LinearAlgebra.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 8d0bfa0..bbfd518 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -162,6 +162,27 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 
 			while(prox > 1.0e-16 && iter < maxiter)
 			{
+				// a real start stays real: if it leads nowhere look for a complex eigenvalue
+				if(iter == maxiter / 2 && imag(lambda) == 0)
+				{
+					double residual = 0;
+					for(row = 0; row < 6; row++)
+					{
+						Complex sum = -lambda * b(row);
+						for(Subscript col = 0; col < 6; col++)
+						{
+							sum += m(row, col) * b(col);
+						}
+						residual += norm(sum);
+					}
+					if(!(residual < 1.0e-12))
+					{
+						lambda = Complex(real(cos_mu) > 0 ? 1 : -1, 0.1);
+						b = Complex(0);
+						b(2 * pln) = b(2 * pln + 1) = Complex(1 / sqrt(2.0));
+					}
+				}
+
 				for(n = 0; n < 6; n++)
 				{
 					mp(n, n) = m(n, n) - lambda;
-- 
2.43.0


From b8f8513810b581547fb58051712699485b8b2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:29 +0000
Subject: [PATCH 246/246] fix: sorting a bunch by ct takes the spins along

---
 Merlin++/SpinParticleProcess.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 9eee5d9..a8587c5 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -5,6 +5,8 @@
  * This file is derived from software bearing the copyright notice: (c) 2004 Daniel A. Bates (LBNL) -- All Rights Reserved --
  */
 
+#include <algorithm>
+#include <numeric>
 #include "SpinParticleProcess.h"
 #include "SectorBend.h"
 #include "Solenoid.h"
@@ -91,11 +93,25 @@ void SpinParticleBunch::clear()
 
 void SpinParticleBunch::SortByCT()
 {
-	// Not yet fully implemented!
-	// At present, only the list of phase space vectors is sorted;
-	// the correlation with the list of spin vectors is lost.
-
-	ParticleBunch::SortByCT();
+	// the spins move with their particles
+	vector<size_t> order(size());
+	iota(order.begin(), order.end(), 0);
+	stable_sort(order.begin(), order.end(), [this](size_t a, size_t b)
+		{
+			return pArray[a].ct() < pArray[b].ct();
+		});
+
+	PSvectorArray particles;
+	SpinVectorArray spins;
+	particles.reserve(size());
+	spins.reserve(size());
+	for(size_t n : order)
+	{
+		particles.push_back(pArray[n]);
+		spins.push_back(spinArray[n]);
+	}
+	pArray.swap(particles);
+	spinArray.swap(spins);
 }
 
 void SpinParticleBunch::Output(std::ostream& os) const
-- 
2.43.0

