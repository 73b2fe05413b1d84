From a039793cb0b08b438cdaeac7d49c876ddcb66312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 01/13] fix: Grid loops over the depth axis must run to ny, not
 nx (3D)

With ny > nx blocks kept stale particles after Clear(); with ny < nx it
wrote out of bounds.
---
 src/OpenMps/Grid.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 1ea3925..462e2a5 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -166,7 +166,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -195,7 +195,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -229,7 +229,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
-- 
2.43.0


From bde655ebd25686a356fa71bd9a8b425e377267f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 02/13] fix: DetermineDt must ignore disabled particles and
 accept an empty list

max_element on an empty list returned end(), which was dereferenced, and a
disabled particle (whose velocity is the jump to its wall position) made the
time step of everybody else needlessly small.
---
 src/OpenMps/Computer.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 3fa81f8..7c51db5 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -760,16 +760,16 @@ namespace { namespace OpenMps
 		{
 			namespace ublas = boost::numeric::ublas;
 
-			// 最大速度を取得
-			const auto maxUParticle = *std::max_element(particles.cbegin(), particles.cend(),
-				[](const Particle& base, const Particle& target)
+			// 最大速度を取得（無効粒子は除く）
+			auto maxU = 0.0;
+			for(const auto& particle : particles)
 			{
-				const auto& baseU = base.U();
-				const auto& targetU = target.U();
-				return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));
-			});
-			const auto maxU = ublas::norm_2(maxUParticle.U());
-
+				if(particle.TYPE() != Particle::Type::Disabled)
+				{
+					const double u = ublas::norm_2(particle.U());
+					maxU = std::max(maxU, u);
+				}
+			}
 
 			// CFL条件より時間刻みを決定する
 			const auto dt = (maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt));
-- 
2.43.0


From 0596cbc144cad2a3acdc27a6345bf46932b9159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 03/13] fix: 3x3 InvertMatrix must transpose the cofactor
 matrix

---
 src/OpenMps/Computer.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 7c51db5..2814bcd 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -412,9 +412,10 @@ namespace { namespace OpenMps
 							a00, a01,
 							a10, a11);
 
-						mat(0, 0) = +A00 / det; mat(0, 1) = -A01 / det; mat(0, 2) = +A02 / det;
-						mat(1, 0) = -A10 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A12 / det;
-						mat(2, 0) = +A20 / det; mat(2, 1) = -A21 / det; mat(2, 2) = +A22 / det;
+						// 逆行列は余因子行列の転置
+						mat(0, 0) = +A00 / det; mat(0, 1) = -A10 / det; mat(0, 2) = +A20 / det;
+						mat(1, 0) = -A01 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A21 / det;
+						mat(2, 0) = +A02 / det; mat(2, 1) = -A12 / det; mat(2, 2) = +A22 / det;
 
 						return mat;
 					}
-- 
2.43.0


From a52544d9eb6c9c04795a12e518ce0faaf52d29a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 04/13] fix: report every computation error, not only those of
 the pressure solver

Grid::Exception (too many particles in a block) is thrown by the same step but
was not caught, so the program was terminated without the error report.
---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 4769219..7caa337 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -384,7 +384,7 @@ int main(const int argc, const char* const argv[])
 			printTime(tComputer, iteration, outputCount + outputIterationOffset, count);
 		}
 		// 計算で例外があったら
-		catch(decltype(computer)::Exception ex)
+		catch(const std::runtime_error& ex)
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-- 
2.43.0


From b6b4ffd7c8784c99ac0bea957d33c03b14cdf5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 05/13] fix: error report of a continued run must include the
 start time

The progress lines and the frame number of the same report already do.
---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 7caa337..55613cf 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -388,7 +388,7 @@ int main(const int argc, const char* const argv[])
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-				<< boost::format("#%3%: t=%1% (%2%)") % tComputer % iteration % (outputCount + outputIterationOffset) << std::endl
+				<< boost::format("#%3%: t=%1% (%2%)") % (tComputer + condition.StartTime) % iteration % (outputCount + outputIterationOffset) << std::endl
 				<< ex.what() << std::endl;
 			break;
 		}
-- 
2.43.0


From 48f0aa793699e9bf81898acc8c5276d593d0be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 06/13] fix: an empty particle table must be rejected instead
 of read past its end

---
 src/OpenMps/Main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 55613cf..351b2f9 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -76,7 +76,11 @@ namespace
 
 		// 先頭の空行は飛ばす
 		auto itr = input.cbegin();
-		for (; itr->size() == 0; ++itr) {}
+		for (; (itr != input.cend()) && (itr->size() == 0); ++itr) {}
+		if (itr == input.cend())
+		{
+			throw std::runtime_error("Input csv is empty");
+		}
 
 		// 行をカンマ区切りで分割する関数
 		const auto GetItems = [](std::string str)
-- 
2.43.0


From 05f9bde355047854a009dc02051d65911b61ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 07/13] fix: a CSV row with too few columns must be rejected
 instead of read past its end

---
 src/OpenMps/Main.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 351b2f9..4bf7e23 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -154,27 +154,27 @@ namespace
 			const auto data = GetItems(line);
 			if (data.size() > 0) // 空行は飛ばす
 			{
-				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
+				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data.at(header["Type"]))));
 
 				// 位置ベクトル
-				particle.X()[OpenMps::AXIS_X] = stov<double>(data[header["x"]]);
+				particle.X()[OpenMps::AXIS_X] = stov<double>(data.at(header["x"]));
 #ifdef DIM3
-				particle.X()[OpenMps::AXIS_Y] = stov<double>(data[header["y"]]);
+				particle.X()[OpenMps::AXIS_Y] = stov<double>(data.at(header["y"]));
 #endif
-				particle.X()[OpenMps::AXIS_Z] = stov<double>(data[header["z"]]);
+				particle.X()[OpenMps::AXIS_Z] = stov<double>(data.at(header["z"]));
 
 				// 速度ベクトル
-				particle.U()[OpenMps::AXIS_X] = stov<double>(data[header["u"]]);
+				particle.U()[OpenMps::AXIS_X] = stov<double>(data.at(header["u"]));
 #ifdef DIM3
-				particle.U()[OpenMps::AXIS_Y] = stov<double>(data[header["v"]]);
+				particle.U()[OpenMps::AXIS_Y] = stov<double>(data.at(header["v"]));
 #endif
-				particle.U()[OpenMps::AXIS_Z] = stov<double>(data[header["w"]]);
+				particle.U()[OpenMps::AXIS_Z] = stov<double>(data.at(header["w"]));
 
 				// 圧力
-				particle.P() = stov<double>(data[header["p"]]);
+				particle.P() = stov<double>(data.at(header["p"]));
 
 				// 粒子数密度
-				particle.N() = stov<double>(data[header["n"]]);
+				particle.N() = stov<double>(data.at(header["n"]));
 
 				particles.push_back(std::move(particle));
 			}
-- 
2.43.0


From 4c65da78cac54911b5f120e16181428605490ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 08/13] fix: block number of NaN or huge coordinates was
 undefined behaviour

---
 src/OpenMps/Grid.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 462e2a5..61a364c 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -3,6 +3,8 @@
 
 #include <iterator>
 #include <array>
+#include <cmath>
+#include <limits>
 #include <boost/multi_array.hpp>
 
 #include "Vector.hpp"
@@ -88,7 +90,10 @@ namespace { namespace OpenMps
 		}
 		static auto Floor(const double a, const double b)
 		{
-			return static_cast<Index>(std::floor(a / b));
+			// 整数で表せない値（NaNも含む）の変換は未定義動作なので、領域外のブロック番号にする
+			const auto v = std::floor(a / b);
+			const auto isValid = (std::abs(v) < static_cast<double>(std::numeric_limits<Index>::max()));
+			return isValid ? static_cast<Index>(v) : Index{-1};
 		}
 
 		// 最大ブロック数
-- 
2.43.0


From def807360310af696a1ae388a96d982483ec9897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 09/13] fix: frame count and number must not be one too high by
 rounding

E.g. 0.07/0.01 is 7.000000000000001 and was counted as 8 intervals.
---
 src/OpenMps/Main.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 4bf7e23..2b4920e 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -1,5 +1,6 @@
 ﻿#include <iostream>
 #include <fstream>
+#include <cmath>
 #include <ctime>
 #include <type_traits>
 #include <sstream>
@@ -337,7 +338,16 @@ int main(const int argc, const char* const argv[])
 	timer.Start();
 	boost::format timeFormat("#%3$05d: t=%1$8.4lf (%2$05d), %10$12d particles, @ %4$02d/%5$02d %6$02d:%7$02d:%8$02d (%9$8.2lf)");
 
-	const auto outputIterationOffset = static_cast<std::size_t>(std::ceil(condition.StartTime / condition.OutputInterval));
+	// 出力間隔の何回分かを数える（割り切れる時間を丸め誤差で1回多く数えないように）
+	const auto countInterval = [&condition](const double time)
+	{
+		const auto count = time / condition.OutputInterval;
+		const auto nearest = std::round(count);
+		const auto isMultiple = (std::abs(count - nearest) <= 1e-9 * std::max(1.0, nearest));
+		return static_cast<std::size_t>(isMultiple ? nearest : std::ceil(count));
+	};
+
+	const auto outputIterationOffset = countInterval(condition.StartTime);
 
 	// 開始時間を画面表示
 	const auto printTime = [&timeFormat, &timer](const auto tComputer, const auto iteration, const auto outputCount, const auto count)
@@ -363,7 +373,7 @@ int main(const int argc, const char* const argv[])
 	// 計算が終了するまで
 	double nextOutputT = 0;
 	std::size_t iteration = 0;
-	const auto endCount = static_cast<std::size_t>(std::ceil((condition.EndTime - condition.StartTime) / condition.OutputInterval));
+	const auto endCount = countInterval(condition.EndTime - condition.StartTime);
 	for(auto outputCount = decltype(endCount){1}; outputCount <= endCount; outputCount++)
 	{
 		double tComputer = computer.GetEnvironment().T();
-- 
2.43.0


From c5f02cb7cccd6ce4cbe1a06c2315a42ca80b62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 10/13] fix: converting a negative interval count to an
 unsigned integer was undefined

An end time before the start time ran (practically) for ever.
---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 2b4920e..f959203 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -341,7 +341,7 @@ int main(const int argc, const char* const argv[])
 	// 出力間隔の何回分かを数える（割り切れる時間を丸め誤差で1回多く数えないように）
 	const auto countInterval = [&condition](const double time)
 	{
-		const auto count = time / condition.OutputInterval;
+		const auto count = std::max(0.0, time / condition.OutputInterval); // 負数は符号なし整数に変換できない
 		const auto nearest = std::round(count);
 		const auto isMultiple = (std::abs(count - nearest) <= 1e-9 * std::max(1.0, nearest));
 		return static_cast<std::size_t>(isMultiple ? nearest : std::ceil(count));
-- 
2.43.0


From c98d1953b26fdca112919b8004da5d865343e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 11/13] fix: a step without any particle must not set up a
 pressure equation

ViennaCL throws on vectors of size zero, which terminated the program.
---
 src/OpenMps/Computer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 2814bcd..e7acc0a 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1067,6 +1067,12 @@ namespace { namespace OpenMps
 				particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);
 			}
 #else
+			// 粒子がなければ方程式もない
+			if(n == 0)
+			{
+				return;
+			}
+
 			// 圧力方程式を設定
 			SetPressurePoissonEquation();
 
-- 
2.43.0


From 5286c95192b7b0cfd18bdc5591ed00ba1e6ef0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 12/13] fix: adding particles after a step must resize the
 pressure equation instead of assigning another size

---
 src/OpenMps/Computer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index e7acc0a..bb3f133 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1169,12 +1169,12 @@ namespace { namespace OpenMps
 			if (n != ppe.b.size())
 			{
 				// サイズを変えて作り直し
-				ppe.A = typename Ppe::Matrix {n, n};
-				ppe.x = typename Ppe::LongVector(n);
-				ppe.b = typename Ppe::LongVector(n);
-				ppe.cg.r = typename Ppe::LongVector(n);
-				ppe.cg.p = typename Ppe::LongVector(n);
-				ppe.cg.Ap = typename Ppe::LongVector(n);
+				ppe.A.resize(n, n, false);
+				ppe.x.resize(n, false);
+				ppe.b.resize(n, false);
+				ppe.cg.r.resize(n, false);
+				ppe.cg.p.resize(n, false);
+				ppe.cg.Ap.resize(n, false);
 
 #ifdef USE_VIENNACL
 				ppe.tempA = typename Ppe::TempMatrix(n, n);
-- 
2.43.0


From d798411bc464886f76bf87b1950395a7592f8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 13/13] fix: a frame holding a subnormal number must be
 readable as input again

---
 src/OpenMps/stov.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/stov.hpp b/src/OpenMps/stov.hpp
index 23d64ce..a6d45a8 100644
--- a/src/OpenMps/stov.hpp
+++ b/src/OpenMps/stov.hpp
@@ -1,6 +1,10 @@
 ﻿#ifndef STOV_INCLUDED
 #define STOV_INCLUDED
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 
@@ -42,10 +46,22 @@ namespace
 		return std::stof(std::forward<ARGS>(args)...);
 	}
 
-	template<typename T, typename... ARGS>
-	inline std::enable_if_t<std::is_same<std::remove_const_t<std::remove_reference_t<T>>, double>::value, double> stov(ARGS&&... args)
+	// std::stodは非正規化数も範囲外として拒否するが、計算結果として出力されることがあるので受け付ける
+	template<typename T>
+	inline std::enable_if_t<std::is_same<std::remove_const_t<std::remove_reference_t<T>>, double>::value, double> stov(const std::string& str)
 	{
-		return std::stod(std::forward<ARGS>(args)...);
+		char* end = nullptr;
+		errno = 0;
+		const auto value = std::strtod(str.c_str(), &end);
+		if (end == str.c_str())
+		{
+			throw std::invalid_argument("stov: no conversion");
+		}
+		if ((errno == ERANGE) && (std::abs(value) > 1))
+		{
+			throw std::out_of_range("stov: out of range");
+		}
+		return value;
 	}
 
 	template<typename T, typename... ARGS>
-- 
2.43.0

