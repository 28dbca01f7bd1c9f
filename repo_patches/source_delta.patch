From 183f42051fe60113b9ec74495dd8d5660520fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 01/17] fix: read the difficulty name from the Version key of
 [Metadata]

---
 beatmap/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 7d394c3..507abb8 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -55,6 +55,8 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 		beatMap.ArtistUnicode = line[1]
 	case "Creator":
 		beatMap.Creator = line[1]
+	case "Version":
+		beatMap.Version = line[1]
 	case "FileVersion":
 		beatMap.Version = line[1]
 	case "Source":
-- 
2.43.0


From b8173f420eadeb24011f946f017d45daa96b44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 02/17] fix: return read errors instead of a silently truncated
 beatmap

---
 beatmap/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 507abb8..2ed453d 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -218,6 +218,10 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	beatMap.FinalizePoints()
 
 	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {
-- 
2.43.0


From 8fc98148f63aae3fe478f08bdd0e8b044b8e5139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 03/17] fix: do not panic in ParseMods on strings of odd length

---
 beatmap/difficulty/mods.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beatmap/difficulty/mods.go b/beatmap/difficulty/mods.go
index 229656a..65f6283 100644
--- a/beatmap/difficulty/mods.go
+++ b/beatmap/difficulty/mods.go
@@ -211,6 +211,7 @@ func (mods Modifier) StringFull() (s []string) {
 
 func ParseMods(mods string) (m Modifier) {
 	modsSl := make([]string, len(mods)/2)
+	modsSl = append(modsSl, "") // room for an incomplete trailing acronym
 	for n, modPart := range mods {
 		modsSl[n/2] += string(modPart)
 	}
-- 
2.43.0


From b741e7eab75dc410ef26fb4c6e1e442d8775daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 04/17] fix: binomial coefficient lost precision to integer
 division

---
 math/curves/bezier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/curves/bezier.go b/math/curves/bezier.go
index dc70393..ce1d08f 100644
--- a/math/curves/bezier.go
+++ b/math/curves/bezier.go
@@ -90,7 +90,7 @@ func BinomialCoefficient(n, k int64) int64 {
 
 	c := int64(1)
 	for i := int64(1); i <= k; i++ {
-		c *= (n + 1 - i) / (i)
+		c = c * (n + 1 - i) / i
 	}
 
 	return c
-- 
2.43.0


From 0c8d5b87ece739638b4f096f268367b0370e185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 05/17] fix: do not panic when rating a beatmap without hit
 objects

---
 performance/osu/difficulty.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index e551640..0c2269c 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -155,6 +155,10 @@ func addObjectToAttribs(o objects.IHitObject, attr *Attributes) {
 }
 
 func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty) (Attributes, *skills.AimSkill, *skills.SpeedSkill, *skills.Flashlight) {
+	if len(objects) == 0 {
+		return Attributes{}, skills.NewAimSkill(diff, true), skills.NewSpeedSkill(diff), nil
+	}
+
 	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)
 
 	aimSkill := skills.NewAimSkill(diff, true)
@@ -200,6 +204,10 @@ func CalculateSingleWithPeaks(objects []objects.IHitObject, diff *difficulty.Dif
 }
 
 func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([]Attributes, *skills.AimSkill, *skills.SpeedSkill, *skills.Flashlight) {
+	if len(objects) == 0 {
+		return nil, skills.NewAimSkill(diff, true), skills.NewSpeedSkill(diff), nil
+	}
+
 	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)
 
 	aimSkill := skills.NewAimSkill(diff, true)
-- 
2.43.0


From b1fae8463703d1d72269189e38147c8c10172d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 06/17] fix: rate the first step like the one-object map it
 stands for

---
 performance/osu/difficulty.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index 0c2269c..c24e920 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -222,6 +222,7 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 	stars := make([]Attributes, 1, len(objects))
 
 	addObjectToAttribs(objects[0], &stars[0])
+	stars[0] = getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, stars[0])
 
 	for i, o := range diffObjects {
 		attr := stars[i]
-- 
2.43.0


From 651ab96424540b014b403d9551e6a714e8ae4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 07/17] fix: keep the path of very short circular arcs, bound
 very long ones

---
 math/curves/approximation.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/math/curves/approximation.go b/math/curves/approximation.go
index 79ad53e..9af736e 100644
--- a/math/curves/approximation.go
+++ b/math/curves/approximation.go
@@ -4,6 +4,8 @@ import (
 	"github.com/Wieku/gosu-pp/math/vector"
 )
 
+const maxArcSegments = 1 << 20
+
 func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Linear {
 	arc := NewCirArc(pt1, pt2, pt3)
 
@@ -11,8 +13,16 @@ func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Lin
 		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
 	}
 
+	if !(arc.r*arc.totalAngle*detail < maxArcSegments) { // radius overflows for almost collinear points
+		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
+	}
+
 	segments := int(arc.r * arc.totalAngle * detail)
 
+	if segments < 1 { // arc shorter than 1/detail still needs to have a path
+		segments = 1
+	}
+
 	lines := make([]Linear, segments)
 
 	for i := 0; i < segments; i++ {
-- 
2.43.0


From e2942ff9db6324364a8e3b77e9a51948bedae066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 08/17] fix: do not panic on sliders without spans or with
 surplus edge sounds

---
 beatmap/objects/slider.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 0513d24..7e0b22c 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -46,6 +46,10 @@ func NewSlider(data []string) *Slider {
 	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
 
+	if slider.RepeatCount < 1 { // slider always has at least one span
+		slider.RepeatCount = 1
+	}
+
 	list := strings.Split(data[5], "|")
 	points := []vector.Vector2f{slider.StartPosRaw}
 
@@ -72,6 +76,10 @@ func NewSlider(data []string) *Slider {
 	if len(data) > 8 {
 		subData := strings.Split(data[8], "|")
 		for i, v := range subData {
+			if i >= len(slider.sounds) {
+				break
+			}
+
 			sound, _ := strconv.Atoi(v)
 			slider.sounds[i] = audio.HitSound(sound)
 		}
-- 
2.43.0


From cac219bb425910c731ad0ced6c2fefce9383371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 09/17] fix: clamp and default slider multiplier and tick rate
 like osu! does

A zero tick distance made slider parsing loop forever, and a file without
the keys gave sliders NaN velocity.
---
 beatmap/beatmap.go       | 2 ++
 beatmap/parser.go        | 2 ++
 beatmap/timing/timing.go | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 78c5a7f..8a3b59f 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -64,6 +64,8 @@ func NewBeatMap() *BeatMap {
 
 		MinBPM: math.Inf(0),
 		MaxBPM: 0,
+
+		SliderMultiplier: 1.4,
 	}
 }
 
diff --git a/beatmap/parser.go b/beatmap/parser.go
index 2ed453d..023c7e3 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -74,6 +74,7 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
 		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
+		beatMap.SliderMultiplier = mutils.ClampF64(beatMap.SliderMultiplier, 0.4, 3.6)
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
@@ -84,6 +85,7 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 		beatMap.Difficulty.SetCS(mutils.ClampF64(parsed, 0, 10))
 	case "SliderTickRate":
 		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
+		beatMap.Timings.TickRate = mutils.ClampF64(beatMap.Timings.TickRate, 0.5, 8)
 	case "HPDrainRate":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
 		beatMap.Difficulty.SetHP(mutils.ClampF64(parsed, 0, 10))
diff --git a/beatmap/timing/timing.go b/beatmap/timing/timing.go
index 0d0c704..123c0a2 100644
--- a/beatmap/timing/timing.go
+++ b/beatmap/timing/timing.go
@@ -56,6 +56,9 @@ type Timings struct {
 
 func NewTimings() *Timings {
 	return &Timings{
+		SliderMult: 1.4,
+		TickRate:   1,
+
 		defaultTimingPoint: ControlPoint{
 			Time:             0,
 			beatLengthBase:   60000 / 60,
-- 
2.43.0


From 2cd57525df93c64f1996f99dea3edea000f820bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 10/17] fix: read fractional timing point offsets instead of
 placing them at 0

---
 beatmap/beatmap.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 8a3b59f..3c383c5 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -71,7 +71,11 @@ func NewBeatMap() *BeatMap {
 
 func (beatMap *BeatMap) ParsePoint(point string) {
 	line := strings.Split(point, ",")
-	pointTime, _ := strconv.ParseInt(line[0], 10, 64)
+	pointTime, _ := strconv.ParseFloat(line[0], 64)
+	if math.IsNaN(pointTime) || math.IsInf(pointTime, 0) {
+		pointTime = 0
+	}
+
 	bpm, _ := strconv.ParseFloat(line[1], 64)
 
 	if !math.IsNaN(bpm) && bpm >= 0 {
-- 
2.43.0


From 84664cb2a3a444cb8ce8437e237e26a8e168f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 11/17] fix: skip malformed hit object and event lines instead
 of crashing or hanging

---
 beatmap/parser.go   |  8 ++++++
 beatmap/validate.go | 63 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 71 insertions(+)
 create mode 100644 beatmap/validate.go

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 023c7e3..fe2c23b 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -100,6 +100,10 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 }
 
 func parseEvents(line []string, beatMap *BeatMap) {
+	if len(line) < 3 {
+		return
+	}
+
 	switch line[0] {
 	case "Background", "0":
 		beatMap.Bg = strings.Replace(line[2], "\"", "", -1)
@@ -194,6 +198,10 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 			}
 		case "HitObjects":
 			if arr := tokenize(line, ","); arr != nil {
+				if !isValidHitObject(arr) {
+					continue
+				}
+
 				var time string
 
 				objTypeI, _ := strconv.Atoi(arr[3])
diff --git a/beatmap/validate.go b/beatmap/validate.go
new file mode 100644
index 0000000..5e7029a
--- /dev/null
+++ b/beatmap/validate.go
@@ -0,0 +1,63 @@
+package beatmap
+
+import (
+	"github.com/Wieku/gosu-pp/beatmap/objects"
+	"math"
+	"strconv"
+	"strings"
+)
+
+// Limits used by osu!, objects outside of them can't be processed in reasonable time
+const (
+	maxCoordinate   = 131072
+	maxTime         = math.MaxInt32
+	maxRepeatCount  = 9000
+	maxTravelLength = 1e7
+)
+
+// isValidHitObject checks if hit object line has all the fields its type needs, and that they are in range.
+// Fields that are not numbers are not rejected, they are read as 0.
+func isValidHitObject(data []string) bool {
+	if len(data) < 4 {
+		return false
+	}
+
+	objTypeI, _ := strconv.Atoi(data[3])
+	objType := objects.Type(objTypeI)
+
+	if !inRange(data[0], maxCoordinate) || !inRange(data[1], maxCoordinate) || !inRange(data[2], maxTime) {
+		return false
+	}
+
+	if (objType & objects.CIRCLE) > 0 {
+		return len(data) >= 5
+	} else if (objType & objects.SPINNER) > 0 {
+		return len(data) >= 6 && inRange(data[5], maxTime)
+	} else if (objType & objects.SLIDER) > 0 {
+		return len(data) >= 8 && isValidSlider(data)
+	} else if (objType & objects.LONGNOTE) > 0 {
+		return len(data) >= 6
+	}
+
+	return true
+}
+
+func isValidSlider(data []string) bool {
+	for _, point := range strings.Split(data[5], "|")[1:] {
+		coords := strings.Split(point, ":")
+
+		if len(coords) < 2 || !inRange(coords[0], maxCoordinate) || !inRange(coords[1], maxCoordinate) {
+			return false
+		}
+	}
+
+	repeats, _ := strconv.ParseInt(data[6], 10, 64)
+	length, _ := strconv.ParseFloat(data[7], 64)
+
+	return repeats <= maxRepeatCount && inRange(data[7], maxCoordinate) && length*float64(repeats) <= maxTravelLength
+}
+
+func inRange(value string, limit float64) bool {
+	parsed, _ := strconv.ParseFloat(value, 64)
+	return math.Abs(parsed) <= limit
+}
-- 
2.43.0


From f1836f9fe784d3388e2599968b935170becd5c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 12/17] fix: trim timing point fields like those of all other
 lines

---
 beatmap/beatmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 3c383c5..a7b59b2 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -71,6 +71,10 @@ func NewBeatMap() *BeatMap {
 
 func (beatMap *BeatMap) ParsePoint(point string) {
 	line := strings.Split(point, ",")
+	for i := range line {
+		line[i] = strings.TrimSpace(line[i])
+	}
+
 	pointTime, _ := strconv.ParseFloat(line[0], 64)
 	if math.IsNaN(pointTime) || math.IsInf(pointTime, 0) {
 		pointTime = 0
-- 
2.43.0


From 0ebd1f82d05bc71d38516f7b9a9c00a7b1a61788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 13/17] fix: count fractional object times into the beatmap
 length

---
 beatmap/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index fe2c23b..895d636 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -220,6 +220,9 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 					time = strings.Split(arr[5], ":")[0]
 				}
 				timeI, _ := strconv.Atoi(time)
+				if timeF, err := strconv.ParseFloat(time, 64); err == nil && math.Abs(timeF) <= maxTime {
+					timeI = int(timeF)
+				}
 
 				beatMap.Length = mutils.MaxI(beatMap.Length, timeI)
 
-- 
2.43.0


From 11ac5fe427df1e940f174a79812852ec66fe3930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 14/17] fix: repeated AudioFilename key replaces the value
 instead of appending to it

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 895d636..ce0951d 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -25,7 +25,7 @@ func parseGeneral(line []string, beatMap *BeatMap) bool {
 			beatMap.StackLeniency = 0.0
 		}
 	case "AudioFilename":
-		beatMap.Audio += line[1]
+		beatMap.Audio = line[1]
 	case "PreviewTime":
 		beatMap.PreviewTime, _ = strconv.ParseInt(line[1], 10, 64)
 		//case "SampleSet":
-- 
2.43.0


From 4c588603c061bcc51b19c78c31c740a18a04032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 15/17] fix: Catmull-Rom end angles are those of the segment
 between the inner points

---
 math/curves/catmull.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/curves/catmull.go b/math/curves/catmull.go
index f155b8a..0d633e0 100644
--- a/math/curves/catmull.go
+++ b/math/curves/catmull.go
@@ -46,9 +46,9 @@ func (cm Catmull) GetLength() float32 {
 }
 
 func (cm Catmull) GetStartAngle() float32 {
-	return cm.points[0].AngleRV(cm.PointAt(1.0 / cm.ApproxLength))
+	return cm.points[1].AngleRV(cm.PointAt(1.0 / cm.ApproxLength))
 }
 
 func (cm Catmull) GetEndAngle() float32 {
-	return cm.points[len(cm.points)-1].AngleRV(cm.PointAt((cm.ApproxLength - 1) / cm.ApproxLength))
+	return cm.points[2].AngleRV(cm.PointAt((cm.ApproxLength - 1) / cm.ApproxLength))
 }
-- 
2.43.0


From 73e6270c8188db182d4bf30fdc100a9cb61ab918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 16/17] fix: flashlight peaks of an empty beatmap agree between
 entry points

---
 performance/osu/difficulty.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index c24e920..72457a5 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -155,10 +155,6 @@ func addObjectToAttribs(o objects.IHitObject, attr *Attributes) {
 }
 
 func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty) (Attributes, *skills.AimSkill, *skills.SpeedSkill, *skills.Flashlight) {
-	if len(objects) == 0 {
-		return Attributes{}, skills.NewAimSkill(diff, true), skills.NewSpeedSkill(diff), nil
-	}
-
 	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)
 
 	aimSkill := skills.NewAimSkill(diff, true)
@@ -172,6 +168,10 @@ func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty)
 
 	attr := Attributes{}
 
+	if len(objects) == 0 {
+		return attr, aimSkill, speedSkill, flashlightSkill
+	}
+
 	addObjectToAttribs(objects[0], &attr)
 
 	for i, o := range diffObjects {
@@ -204,10 +204,6 @@ func CalculateSingleWithPeaks(objects []objects.IHitObject, diff *difficulty.Dif
 }
 
 func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([]Attributes, *skills.AimSkill, *skills.SpeedSkill, *skills.Flashlight) {
-	if len(objects) == 0 {
-		return nil, skills.NewAimSkill(diff, true), skills.NewSpeedSkill(diff), nil
-	}
-
 	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)
 
 	aimSkill := skills.NewAimSkill(diff, true)
@@ -219,6 +215,10 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 		flashlightSkill = skills.NewFlashlightSkill(diff)
 	}
 
+	if len(objects) == 0 {
+		return nil, aimSkill, speedSkill, flashlightSkill
+	}
+
 	stars := make([]Attributes, 1, len(objects))
 
 	addObjectToAttribs(objects[0], &stars[0])
-- 
2.43.0


From 9e5add126142685c4f92a547c0118507733b83c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 17/17] fix: angle between collinear points is not NaN

---
 math/vector/vector2f.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/vector/vector2f.go b/math/vector/vector2f.go
index 1111141..3254cef 100644
--- a/math/vector/vector2f.go
+++ b/math/vector/vector2f.go
@@ -143,5 +143,6 @@ func AngleBetween32(centre, p1, p2 Vector2f) float32 { //nolint:misspell
 	b := centre.Dst(p2)
 	c := p1.Dst(p2)
 
-	return math32.Acos((a*a + b*b - c*c) / (2 * a * b))
+	// Rounding can push the cosine of (nearly) collinear points slightly out of its range
+	return math32.Acos(math32.Max(-1, math32.Min(1, (a*a+b*b-c*c)/(2*a*b))))
 }
-- 
2.43.0

