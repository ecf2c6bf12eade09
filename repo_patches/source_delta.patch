From c59f3920d89c0c02cb9ca9a9d394d07f185ca609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:20 +0000
Subject: [PATCH 01/25] fix: VolumePriceTrend no longer panics on an empty
 candle list

---
 volume/VolumePriceTrend.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index 932ea4f..344a40f 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -48,6 +48,10 @@ func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
 
+	if len(closing) == 0 {
+		return e
+	}
+
 	previousClosing := ta.ShiftRightAndFillBy(period, closing[0], closing)
 	vpt := ta.Multiply(volume, ta.Divide(ta.Subtract(closing, previousClosing), previousClosing))
 	vals := ta.Sum(len(vpt), vpt)
-- 
2.43.0


From ff1f285cfd8d43b09729cd2dd859e058cfaffeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 02/25] fix: linear regressions return zeros instead of
 panicking on a series shorter than the period

---
 utils/ta/ta.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6f6fffc..0d570af 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -13,6 +13,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -52,6 +56,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -90,6 +98,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -128,6 +140,10 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
-- 
2.43.0


From 357fdea725ba9c7faaa6ae1e05da5d27c7e2b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 03/25] fix: ta.Variance and ta.StdDev return zeros instead of
 panicking on a series shorter than the period

---
 utils/ta/ta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 0d570af..248fac4 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -1017,6 +1017,10 @@ func TrueRange(inHigh, inLow, inClose []float64) []float64 {
 func Variance(inReal []float64, inTimePeriod int) []float64 {
 	outReal := make([]float64, len(inReal))
 
+	if inTimePeriod < 1 || len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	nbInitialElementNeeded := inTimePeriod - 1
 	startIdx := nbInitialElementNeeded
 	periodTotal1 := 0.0
-- 
2.43.0


From d02a68eead4706b894aecc3a6efd624543da585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 04/25] fix: ta.Atr returns zeros instead of panicking when
 there are no more bars than the period

---
 utils/ta/ta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 248fac4..0910a7c 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -467,6 +467,10 @@ func Atr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int)
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	outIdx := inTimePeriod
 	today := inTimePeriod + 1
 
-- 
2.43.0


From befe43a9ea06a863da84b8191bfb9c97b7f8e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 05/25] fix: ta.Natr no longer panics on short series and
 zeroes the bar with a zero close, not bar 0

---
 utils/ta/ta.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 0910a7c..70b4cb6 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -503,6 +503,10 @@ func Natr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	outIdx := inTimePeriod
 	today := inTimePeriod
@@ -527,7 +531,7 @@ func Natr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int
 		if tempValue != 0.0 {
 			outReal[outIdx] = (prevATR / tempValue) * 100.0
 		} else {
-			outReal[0] = 0.0
+			outReal[outIdx] = 0.0
 		}
 	}
 
-- 
2.43.0


From 8dfe2bedf8966f02bd4b2d7123f52de550c0d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 06/25] fix: ta.Wma returns zeros instead of panicking on a
 series shorter than the period

---
 utils/ta/ta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 70b4cb6..2006d2c 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -366,6 +366,9 @@ func Wma(period int, values []float64) []float64 {
 		copy(result, values)
 		return result
 	}
+	if period < 1 || len(values) < period {
+		return result
+	}
 	divider := (period * (period + 1)) >> 1
 	outIdx := period - 1
 	trailingIdx := startIdx - lookbackTotal
-- 
2.43.0


From 576eb82b089f90e4f9c0c9703229ae1335567e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 07/25] fix: ta.SD of an empty series is 0, not NaN

---
 utils/ta/ta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 2006d2c..fa05421 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -216,6 +216,9 @@ func Stochastic(closing, highs, lows []float64, period int) (k, d []float64) {
 
 // StdDev - 标准差
 func SD(values []float64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
 	// 首先计算收盘价的平均值
 	sum := 0.0
 	for _, k := range values {
-- 
2.43.0


From cb524897946deba369ea669cb430696c8f7f9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 08/25] fix: ta.CCI is 0 on a flat window instead of NaN

---
 utils/ta/ta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index fa05421..4fe1c5d 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -425,6 +425,9 @@ func CCI(hlc3 []float64, period, smaPeriod int) []float64 {
 
 	// 计算CCI值
 	for i := period - 1; i < len(hlc3); i++ {
+		if md[i] == 0 {
+			continue
+		}
 		typicalPrice := typicalPrices[i]
 		cci := (typicalPrice - ma[i]) / (0.015 * md[i])
 		ccis[i] = cci
-- 
2.43.0


From de8da056ccc265ef9512e9ea59f7c59f407782f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:12 +0000
Subject: [PATCH 09/25] fix: trend.Atr true range takes the absolute distance
 from the previous close to the low

---
 trend/Atr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Atr.go b/trend/Atr.go
index 56d4b84..3729665 100644
--- a/trend/Atr.go
+++ b/trend/Atr.go
@@ -56,7 +56,7 @@ func (e *Atr) Calculation() *Atr {
 		if i != 0 {
 			prevClose = closes[i-1]
 		}
-		tr[i] = math.Max(highs[i]-lows[i], math.Max(highs[i]-prevClose, lows[i]-prevClose))
+		tr[i] = math.Max(highs[i]-lows[i], math.Max(math.Abs(highs[i]-prevClose), math.Abs(lows[i]-prevClose)))
 		AtrPointStruct.Time = time.Unix(e.kline.Candles[i].TimeUnix, 0)
 	}
 	var atr = ta.Rma(e.Period, tr)
-- 
2.43.0


From 23006f4a1325db26636237ed2eb327d2fdff8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:12 +0000
Subject: [PATCH 10/25] fix: trend.Rma returns one record per candle instead of
 two

---
 trend/Rma.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rma.go b/trend/Rma.go
index 220e058..dd99b34 100644
--- a/trend/Rma.go
+++ b/trend/Rma.go
@@ -40,7 +40,7 @@ func (e *Rma) Calculation() *Rma {
 
 	var rma = ta.Rma(e.Period, e.kline.GetOHLC().Close)
 
-	e.data = make([]RmaData, len(rma))
+	e.data = make([]RmaData, 0, len(rma))
 	for i, value := range rma {
 
 		e.data = append(e.data, RmaData{
-- 
2.43.0


From 2bd96127e882a34c5c456c05b20fcd01938e300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:12 +0000
Subject: [PATCH 11/25] fix: Boll deviation is 0 instead of NaN when rounding
 makes the variance negative

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index ec3a1ad..602ff3e 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -83,7 +83,7 @@ func (e *Boll) dma(sma []float64) []float64 {
 		if i < period-1 {
 			result[i] = 0.0
 		} else {
-			result[i] = math.Sqrt(sum2/float64(period) - sma[i]*sma[i])
+			result[i] = math.Sqrt(math.Max(0, sum2/float64(period)-sma[i]*sma[i]))
 			w := e.kline.Candles[i-(period-1)].Close
 			sum2 -= w * w
 		}
-- 
2.43.0


From abd50e66d1698f2da72437e410c06043a61b3c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:12 +0000
Subject: [PATCH 12/25] fix: Boll sell signal compares the previous price with
 the previous lower band

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 602ff3e..f6c14b1 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -139,7 +139,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 		if price > v.Upper && prevPrice < prevItem.Upper {
 			sides[i] = utils.Buy
-		} else if price < v.Lower && prevPrice > prevPrice {
+		} else if price < v.Lower && prevPrice > prevItem.Lower {
 			sides[i] = utils.Sell
 		} else {
 			sides[i] = utils.Hold
-- 
2.43.0


From 7c2e0b4e423f93d9a056bc54921788cfa59b11aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:12 +0000
Subject: [PATCH 13/25] fix: Boll bands are PeriodK deviations wide

---
 channel/Boll.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index f6c14b1..498fbbb 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -100,8 +100,9 @@ func (e *Boll) Calculation() *Boll {
 
 	var middle = trend.NewSma(e.kline, e.PeriodN).GetValues()
 	var md = e.dma(middle)
-	var upper = ta.Add(middle, md)
-	var lower = ta.Subtract(middle, md)
+	var width = ta.MultiplyBy(md, float64(e.PeriodK))
+	var upper = ta.Add(middle, width)
+	var lower = ta.Subtract(middle, width)
 
 	for i := range middle {
 		e.data[i] = BollData{
-- 
2.43.0


From 18cece817eff4b0a75423b442648284f0320aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:31 +0000
Subject: [PATCH 14/25] fix: AnalysisSide holds on the first bars, where there
 is no signal, instead of reporting Buy

---
 channel/Boll.go                         | 1 +
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 oscillator/AbsolutePriceOscillator.go   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/EMAVegas.go                       | 2 ++
 trend/Kdj.go                            | 1 +
 trend/Macd.go                           | 1 +
 trend/PivotPointSuperTrend.go           | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/SuperTrend.go                     | 1 +
 trend/UTBot.go                          | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 23 files changed, 24 insertions(+)

diff --git a/channel/Boll.go b/channel/Boll.go
index 498fbbb..7801c4d 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -131,6 +131,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 8337214..9b7c55a 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -84,6 +84,7 @@ func (e *DonchianChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f2246ed..f0312ba 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -89,6 +89,7 @@ func (e *KeltnerChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AbsolutePriceOscillator.go b/oscillator/AbsolutePriceOscillator.go
index 78b2196..0820641 100644
--- a/oscillator/AbsolutePriceOscillator.go
+++ b/oscillator/AbsolutePriceOscillator.go
@@ -60,6 +60,7 @@ func (e *AbsolutePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 30ab85d..24d7489 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -63,6 +63,7 @@ func (e *AwesomeOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index dc363c8..35c36fa 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -78,6 +78,7 @@ func (e *ChaikinOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 7219c7a..9bb8273 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -119,6 +119,7 @@ func (e *IchimokuCloud) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < e.ConversionPeriod {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 6216947..472135d 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -90,6 +90,7 @@ func (e *PercentagePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index ca8b2e5..83dd3f0 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -87,6 +87,7 @@ func (e *ProjectionOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 013c3eb..b1684f6 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -94,6 +94,7 @@ func (e *StochasticOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 369ec03..ceab412 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -84,6 +84,7 @@ func (e *WilliamsR) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e8731b5..e71d628 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -85,6 +85,7 @@ func (e *AiCoinCCI) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Cci.go b/trend/Cci.go
index 2218832..e91e053 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -156,6 +156,7 @@ func (e *Cci) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/EMAVegas.go b/trend/EMAVegas.go
index 45c7886..98bfaf7 100644
--- a/trend/EMAVegas.go
+++ b/trend/EMAVegas.go
@@ -108,6 +108,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 
 	for i := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var item = e.data[i]
@@ -115,6 +116,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 		var t1, d1 bool
 
 		if (i - 10 - 1) < 0 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4d3a58a..7e8c536 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -75,6 +75,7 @@ func (e *Kdj) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Macd.go b/trend/Macd.go
index 66ca477..39875a5 100644
--- a/trend/Macd.go
+++ b/trend/Macd.go
@@ -96,6 +96,7 @@ func (e *Macd) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a559b46..a5d6fea 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -159,6 +159,7 @@ func (e *PivotPointSuperTrend) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 1e6367e..f3a2ed7 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -61,6 +61,7 @@ func (e *Rsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index 8fb30e8..ba78ad8 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -76,6 +76,7 @@ func (e *StochRsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 47df486..46d0009 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -189,6 +189,7 @@ func (e *StochasticHeat) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 025eeed..1086142 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -177,6 +177,7 @@ func (e *SuperTrend) AnalysisSide() utils.SideData {
 	sides := make([]utils.Side, len(e.data))
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/UTBot.go b/trend/UTBot.go
index b015316..07d2c39 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -110,6 +110,7 @@ func (e *UTBot) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var close = v.Close
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index a3b45d8..0216a38 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -98,6 +98,7 @@ func (e *MoneyFlowIndex) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
-- 
2.43.0


From 8429b847af56b2acf845d9994c38c8b8d1303e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 15/25] fix: IchimokuCloud conversion line takes high and low
 over the same period

---
 oscillator/IchimokuCloud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 9bb8273..20c70f6 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -69,7 +69,7 @@ func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 	var closing = ohlc.Close
 
 	// 转换线
-	conversionLine := ta.DivideBy(ta.Add(ta.Max(9, high), ta.Min(conversionPeriod, low)), float64(2))
+	conversionLine := ta.DivideBy(ta.Add(ta.Max(conversionPeriod, high), ta.Min(conversionPeriod, low)), float64(2))
 	// 基线
 	baseLine := ta.DivideBy(ta.Add(ta.Max(26, high), ta.Min(26, low)), float64(2))
 	// 先行带A（Senkou Span A）：通过转换线和基线的移动平均值预计未来26日内趋势
-- 
2.43.0


From 5beadb3c977ba632328c808a3e9b8bc3ac6a6898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 16/25] fix: WilliamsR is 0 on a flat window instead of NaN

---
 oscillator/WilliamsR.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index ceab412..7f7b390 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -60,7 +60,9 @@ func (e *WilliamsR) Calculation() *WilliamsR {
 	result := make([]float64, len(closing))
 
 	for i := 0; i < len(closing); i++ {
-		result[i] = (highestHigh[i] - closing[i]) / (highestHigh[i] - lowestLow[i]) * float64(-100)
+		if width := highestHigh[i] - lowestLow[i]; width != 0 {
+			result[i] = (highestHigh[i] - closing[i]) / width * float64(-100)
+		}
 	}
 
 	for i := 0; i < len(result); i++ {
-- 
2.43.0


From a96b245996bc0ca3cfec32d7c2c85550689e9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 17/25] fix: AwesomeOscillator uses simple averages as
 documented

---
 oscillator/AwesomeOscillator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 24d7489..1e26278 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -40,8 +40,8 @@ func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
 	var low = ohlc.Low
 
 	medianPrice := ta.DivideBy(ta.Add(low, high), float64(2))
-	sma5 := ta.Ema(5, medianPrice)
-	sma34 := ta.Ema(34, medianPrice)
+	sma5 := ta.Sma(5, medianPrice)
+	sma34 := ta.Sma(34, medianPrice)
 	ao := ta.Subtract(sma5, sma34)
 
 	for i := 0; i < len(ao); i++ {
-- 
2.43.0


From d33f4a8018a6c07beee2c7cf691210a39eadc57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 18/25] fix: UlcerIndex averages the squared drawdowns with a
 simple average as documented

---
 channel/UlcerIndex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 018053f..cdd1ff0 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -53,7 +53,7 @@ func (e *UlcerIndex) Calculation() *UlcerIndex {
 
 	highClosing := ta.Max(period, closing)
 	percentageDrawdown := ta.MultiplyBy(ta.Divide(ta.Subtract(closing, highClosing), highClosing), 100)
-	squaredAverage := ta.Ema(period, ta.Multiply(percentageDrawdown, percentageDrawdown))
+	squaredAverage := ta.Sma(period, ta.Multiply(percentageDrawdown, percentageDrawdown))
 
 	ui := ta.Sqrt(squaredAverage)
 
-- 
2.43.0


From 04a5a2276503c2b4fc8f5ccb65195a39d2907204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 19/25] fix: least squares over a single point have slope 0
 instead of NaN

---
 utils/regression.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/regression.go b/utils/regression.go
index 6154ef0..8fd1b8f 100644
--- a/utils/regression.go
+++ b/utils/regression.go
@@ -20,7 +20,10 @@ func LeastSquare(x, y []float64) (float64, float64) {
 	}
 
 	n := float64(len(x))
-	m := ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
+	m := 0.0
+	if d := (n * sumX2) - (sumX * sumX); d != 0 {
+		m = ((n * sumXY) - (sumX * sumY)) / d
+	}
 	b := (sumY - (m * sumX)) / n
 
 	return m, b
@@ -57,7 +60,9 @@ func MovingLeastSquare(period int, x, y []float64) ([]float64, []float64) {
 			n = float64(period)
 		}
 
-		m[i] = ((n * sumXY) - (sumX * sumY)) / ((n * sumX2) - (sumX * sumX))
+		if d := (n * sumX2) - (sumX * sumX); d != 0 {
+			m[i] = ((n * sumXY) - (sumX * sumY)) / d
+		}
 		b[i] = (sumY - (m[i] * sumX)) / n
 	}
 
-- 
2.43.0


From b7f4058ba41dd7104e86f8cc931a9c651d011db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:07 +0000
Subject: [PATCH 20/25] fix: Rsi panicked on a series exactly one period long

---
 trend/Rsi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index f3a2ed7..9688132 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -105,7 +105,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
-	if len(inReal) < inTimePeriod {
+	if len(inReal) <= inTimePeriod {
 		return outReal
 	}
 
-- 
2.43.0


From 12ac480e76ad66d9103f0a8ddcefdee3d309694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:21 +0000
Subject: [PATCH 21/25] fix: ulcer index of a recovered price is 0, not NaN

---
 channel/UlcerIndex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index cdd1ff0..20be734 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -2,6 +2,7 @@ package channel
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/idoall/stockindicator/utils/klines"
@@ -55,6 +56,11 @@ func (e *UlcerIndex) Calculation() *UlcerIndex {
 	percentageDrawdown := ta.MultiplyBy(ta.Divide(ta.Subtract(closing, highClosing), highClosing), 100)
 	squaredAverage := ta.Sma(period, ta.Multiply(percentageDrawdown, percentageDrawdown))
 
+	// the running average of squares can come out a rounding error below zero
+	for i := range squaredAverage {
+		squaredAverage[i] = math.Max(squaredAverage[i], 0)
+	}
+
 	ui := ta.Sqrt(squaredAverage)
 
 	for i := 0; i < len(ui); i++ {
-- 
2.43.0


From 7800ff29efaea62db39104abd21011a934940546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:21 +0000
Subject: [PATCH 22/25] fix: vortex of a motionless price is 0, not NaN

---
 trend/Vortex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index de3fc7b..9e9eb12 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -75,8 +75,10 @@ func (e *Vortex) Calculation() *Vortex {
 		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
 		trSum += tr[j]
 
-		plusVi[i] = plusVmSum / trSum
-		minusVi[i] = minusVmSum / trSum
+		if trSum != 0 {
+			plusVi[i] = plusVmSum / trSum
+			minusVi[i] = minusVmSum / trSum
+		}
 	}
 
 	for i := 0; i < len(plusVi); i++ {
-- 
2.43.0


From 6f33a0130dc050b1cab382a975a5a1247fc28108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:21 +0000
Subject: [PATCH 23/25] fix: directional index of a motionless price is 0, not
 NaN

---
 trend/AverageDirectionalIndex.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trend/AverageDirectionalIndex.go b/trend/AverageDirectionalIndex.go
index 7eef250..23469c8 100644
--- a/trend/AverageDirectionalIndex.go
+++ b/trend/AverageDirectionalIndex.go
@@ -122,9 +122,13 @@ func (e *AverageDirectionalIndex) Calculation() *AverageDirectionalIndex {
 	dx := make([]float64, len(close))
 
 	for i := e.Period - 1; i < len(close); i++ {
-		plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
-		minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
-		dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / (plusDI[i] + minusDI[i]))
+		if smoothedTR[i] != 0 {
+			plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
+			minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
+		}
+		if sum := plusDI[i] + minusDI[i]; sum != 0 {
+			dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / sum)
+		}
 	}
 
 	// 对 DX 进行平滑处理
-- 
2.43.0


From b9140f36ccddc17156da84b60147b93bc92c4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:21 +0000
Subject: [PATCH 24/25] fix: stochastic lines of period 1 start from 50 instead
 of panicking

---
 trend/Kdj.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 7e8c536..2ea6115 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -165,8 +165,12 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
 			}
 
-			k[i] = (2.0/3)*k[i-1] + 1.0/3*rsv[i]
-			d[i] = (2.0/3)*d[i-1] + 1.0/3*k[i]
+			prevK, prevD := 50.0, 50.0
+			if i > 0 {
+				prevK, prevD = k[i-1], d[i-1]
+			}
+			k[i] = (2.0/3)*prevK + 1.0/3*rsv[i]
+			d[i] = (2.0/3)*prevD + 1.0/3*k[i]
 			// remove first value in array.
 			periodLowArr = periodLowArr[1:]
 			periodHighArr = periodHighArr[1:]
-- 
2.43.0


From 12c3afc7da9bd4f00f53145941fa128cd0b896fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:17 +0000
Subject: [PATCH 25/25] fix: Heikin-Ashi low is the lowest, not the highest, of
 low, open and close

---
 utils/klines/technical_analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index 8874c74..218817d 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -59,7 +59,7 @@ func (e *Item) ToHeikinAshi() *Item {
 			Open:     open,
 			Close:    (candle.Open + candle.High + candle.Low + candle.Close) / 4,
 			High:     math.Max(candle.High, math.Max(open, candle.Close)),
-			Low:      math.Max(candle.Low, math.Min(open, candle.Close)),
+			Low:      math.Min(candle.Low, math.Min(open, candle.Close)),
 			TimeUnix: candle.TimeUnix,
 		}
 
-- 
2.43.0

