From ef189c7e663306b6a73e17b64ab74658449fab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 1/7] fix: take the time step from the particles in use only

DetermineDt looked at disabled particles too, and dereferenced the end
iterator when there is no particle.
---
 src/OpenMps/Computer.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 3fa81f8..43bb963 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -760,15 +760,17 @@ namespace { namespace OpenMps
 		{
 			namespace ublas = boost::numeric::ublas;
 
-			// 最大速度を取得
-			const auto maxUParticle = *std::max_element(particles.cbegin(), particles.cend(),
-				[](const Particle& base, const Particle& target)
+			// 最大速度を取得（無効粒子は除く）
+			double maxU2 = 0;
+			for (const auto& particle : particles)
 			{
-				const auto& baseU = base.U();
-				const auto& targetU = target.U();
-				return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));
-			});
-			const auto maxU = ublas::norm_2(maxUParticle.U());
+				if (particle.TYPE() != Particle::Type::Disabled)
+				{
+					const auto& u = particle.U();
+					maxU2 = std::max(maxU2, ublas::inner_prod(u, u));
+				}
+			}
+			const auto maxU = std::sqrt(maxU2);
 
 
 			// CFL条件より時間刻みを決定する
-- 
2.43.0


From d383454d54379ef21d70485c914a31d09caf0cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 2/7] fix: report any computation error instead of terminating

The error of the grid (too many particles in a block) is not a
Computer::Exception and left main uncaught.
---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 4769219..172bbdf 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -384,7 +384,7 @@ int main(const int argc, const char* const argv[])
 			printTime(tComputer, iteration, outputCount + outputIterationOffset, count);
 		}
 		// 計算で例外があったら
-		catch(decltype(computer)::Exception ex)
+		catch(const std::exception& ex)
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-- 
2.43.0


From c8ced8dc1adb911df37d15b8344c3e1b7f175ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 3/7] fix: reject input csv without a header or with short rows

Both read past the end of a vector.
---
 src/OpenMps/Main.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 172bbdf..b4c55ef 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -76,7 +76,11 @@ namespace
 
 		// 先頭の空行は飛ばす
 		auto itr = input.cbegin();
-		for (; itr->size() == 0; ++itr) {}
+		for (; (itr != input.cend()) && (itr->size() == 0); ++itr) {}
+		if (itr == input.cend())
+		{
+			throw std::runtime_error("No header in input csv");
+		}
 
 		// 行をカンマ区切りで分割する関数
 		const auto GetItems = [](std::string str)
@@ -150,27 +154,27 @@ namespace
 			const auto data = GetItems(line);
 			if (data.size() > 0) // 空行は飛ばす
 			{
-				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
+				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data.at(header["Type"]))));
 
 				// 位置ベクトル
-				particle.X()[OpenMps::AXIS_X] = stov<double>(data[header["x"]]);
+				particle.X()[OpenMps::AXIS_X] = stov<double>(data.at(header["x"]));
 #ifdef DIM3
-				particle.X()[OpenMps::AXIS_Y] = stov<double>(data[header["y"]]);
+				particle.X()[OpenMps::AXIS_Y] = stov<double>(data.at(header["y"]));
 #endif
-				particle.X()[OpenMps::AXIS_Z] = stov<double>(data[header["z"]]);
+				particle.X()[OpenMps::AXIS_Z] = stov<double>(data.at(header["z"]));
 
 				// 速度ベクトル
-				particle.U()[OpenMps::AXIS_X] = stov<double>(data[header["u"]]);
+				particle.U()[OpenMps::AXIS_X] = stov<double>(data.at(header["u"]));
 #ifdef DIM3
-				particle.U()[OpenMps::AXIS_Y] = stov<double>(data[header["v"]]);
+				particle.U()[OpenMps::AXIS_Y] = stov<double>(data.at(header["v"]));
 #endif
-				particle.U()[OpenMps::AXIS_Z] = stov<double>(data[header["w"]]);
+				particle.U()[OpenMps::AXIS_Z] = stov<double>(data.at(header["w"]));
 
 				// 圧力
-				particle.P() = stov<double>(data[header["p"]]);
+				particle.P() = stov<double>(data.at(header["p"]));
 
 				// 粒子数密度
-				particle.N() = stov<double>(data[header["n"]]);
+				particle.N() = stov<double>(data.at(header["n"]));
 
 				particles.push_back(std::move(particle));
 			}
-- 
2.43.0


From 8e0d07d9a2114fe393a15215d5fb219bb9deab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 4/7] fix: throw when the particle data type is missing

get() of the empty optional is an assertion failure.
---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index b4c55ef..da5c63f 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -190,7 +190,7 @@ namespace
 	inline decltype(auto) LoadParticles(const boost::property_tree::ptree& xml)
 	{
 		// 粒子データの読み込み
-		const auto type = xml.get_optional<std::string>("openmps.particles.<xmlattr>.type").get();
+		const auto type = xml.get<std::string>("openmps.particles.<xmlattr>.type");
 		if (type == "csv")
 		{
 			auto&& txt = xml.get<std::string>("openmps.particles");
-- 
2.43.0


From 701fe52f3c59deb1793ab3c1d2ddc7e43d6be840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 5/7] fix: allow particles to be added after a step

viennacl cannot assign matrices and vectors of different sizes, so the
change of the size of the pressure equation was an assertion failure.
---
 src/OpenMps/Computer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 43bb963..baa90e6 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1164,12 +1164,12 @@ namespace { namespace OpenMps
 			if (n != ppe.b.size())
 			{
 				// サイズを変えて作り直し
-				ppe.A = typename Ppe::Matrix {n, n};
-				ppe.x = typename Ppe::LongVector(n);
-				ppe.b = typename Ppe::LongVector(n);
-				ppe.cg.r = typename Ppe::LongVector(n);
-				ppe.cg.p = typename Ppe::LongVector(n);
-				ppe.cg.Ap = typename Ppe::LongVector(n);
+				ppe.A.resize(n, n, false);
+				ppe.x.resize(n, false);
+				ppe.b.resize(n, false);
+				ppe.cg.r.resize(n, false);
+				ppe.cg.p.resize(n, false);
+				ppe.cg.Ap.resize(n, false);
 
 #ifdef USE_VIENNACL
 				ppe.tempA = typename Ppe::TempMatrix(n, n);
-- 
2.43.0


From 465337aa9da8fbde3caf2ad048505f632bdddd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 6/7] fix: use the grid size in y for the loops in y (DIM3)

---
 src/OpenMps/Grid.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 1ea3925..462e2a5 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -166,7 +166,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -195,7 +195,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -229,7 +229,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
-- 
2.43.0


From 095d01d8406aa41a417c372ba7ae98fd0b86da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 7/7] fix: transpose the cofactors of the 3x3 inverse (MPS_GC,
 DIM3)

---
 src/OpenMps/Computer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index baa90e6..e6a03e9 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -412,9 +412,9 @@ namespace { namespace OpenMps
 							a00, a01,
 							a10, a11);
 
-						mat(0, 0) = +A00 / det; mat(0, 1) = -A01 / det; mat(0, 2) = +A02 / det;
-						mat(1, 0) = -A10 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A12 / det;
-						mat(2, 0) = +A20 / det; mat(2, 1) = -A21 / det; mat(2, 2) = +A22 / det;
+						mat(0, 0) = +A00 / det; mat(0, 1) = -A10 / det; mat(0, 2) = +A20 / det;
+						mat(1, 0) = -A01 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A21 / det;
+						mat(2, 0) = +A02 / det; mat(2, 1) = -A12 / det; mat(2, 2) = +A22 / det;
 
 						return mat;
 					}
-- 
2.43.0

