from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("c",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_c.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; G=_b.G; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T
SEEDS=[
dict(id="e25-cap",property="C25",
 edits=[("performance/osu/pp.go",'''	speedValue := ppBase(pp.attribs.Speed)

	// Longer maps are worth more
	lengthBonus := 0.95 + 0.4*math.Min(1.0, float64(pp.totalHits)/2000.0)
	if pp.totalHits > 2000 {
		lengthBonus += math.Log10(float64(pp.totalHits)/2000.0) * 0.5
	}
''','''	speedValue := ppBase(pp.attribs.Speed)

	// Longer maps are worth more
	lengthBonus := 0.95 + 0.4*math.Min(1.0, float64(pp.totalHits)/2000.0)
	if pp.totalHits > 2000 {
		lengthBonus += math.Min(math.Log10(float64(pp.totalHits)/2000.0), 0.6) * 0.5
	}
''')],
 needs="a play of more than 8000 objects",
 breaks="the length bonus stops growing",
 demo=D('''	pp(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 9000, Circles: 9000, MaxCombo: 9000}, 9000, 9000, 0, 0, 0, diff(4, 8, 9, 0))
''',OS)),
dict(id="e24-td",property="C24",
 edits=[("performance/osu/difficulty.go",'''	sliderFactor := 1.0
	if aim''','''	if diff.CheckModActive(difficulty.TouchDevice) && diff.CheckModActive(difficulty.Relax) {
		aimRating, aimRatingNoSliders = math.Pow(aimRating, 0.8), math.Pow(aimRatingNoSliders, 0.8)
	}

	sliderFactor := 1.0
	if aim''')],
 needs="TouchDevice together with Relax",
 breaks="TouchDevice changes the rating",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,1600,1,0", "200,100,1800,1,0"), diff(4, 8, 9, difficulty.TouchDevice|difficulty.Relax))
''',DF)),
dict(id="e18-cap",property="C18",
 edits=[("performance/osu/preprocessing/object.go",'''			math32.Min(CircleSizeBuffThreshold-float32(o.diff.CircleRadius), 5.0)/50.0
''','''			(CircleSizeBuffThreshold-float32(o.diff.CircleRadius))/50.0
''')],
 needs="a circle radius below 25",
 breaks="the small circle bonus is not limited",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,1600,1,0", "200,100,1800,1,0"), diff(7, 8, 9, 0))
''')),
dict(id="e01-sample",property="C01",
 edits=[("beatmap/parser.go",'''	case "Break", "2":
''','''	case "Sample", "5":
		if beatMap.Audio == "" {
			beatMap.Audio = strings.Trim(line[3], "\\"")
		}
	case "Break", "2":
''')],
 needs="a sample event with too few fields in a map without an audio file",
 breaks="parsing crashes on a short sample event",
 demo=DB('''	info(load(strings.Replace(file("[Events]\\nSample,1000,0\\n", []string{"0,500"}, []string{"100,100,10000,1,0"}), "AudioFilename: a.mp3\\n", "", 1)))
''',"strings")),
dict(id="e02-limit",property="C02",
 edits=[("beatmap/parser.go",'''	scanner := files.NewScannerBuf(reader, bufferSize)
''','''	scanner := files.NewScannerBuf(io.LimitReader(reader, 2*bufferSize), bufferSize)
''')],
 needs="a beatmap of more than 20 MB",
 breaks="everything behind the limit is silently dropped",
 demo=DB('''	var b strings.Builder
	for i := 0; i < 5000; i++ {
		b.WriteString("//" + strings.Repeat("x", 5000) + "\\n")
	}
	info(load(file("[Events]\\n"+b.String(), []string{"0,500"}, []string{"100,100,10000,1,0"})))
''',"strings")),
dict(id="e04-preview",property="C04",
 edits=[("beatmap/parser.go",'''		beatMap.SetID, _ = strconv.ParseInt(line[1], 10, 64)
''','''		if id, err := strconv.ParseInt(line[1], 10, 32); err == nil {
			beatMap.SetID = id
		}
''')],
 needs="a set id beyond 2^31, or a repeated key",
 breaks="large ids are lost",
 demo=DB('''	info(load(file("[Metadata]\\nBeatmapSetID:4294967297\\nBeatmapID:4294967298", []string{"0,500"}, []string{"100,100,10000,1,0"})))
''')),
dict(id="e04-version-line",property="C04",
 edits=[("beatmap/parser.go",'''		if strings.HasPrefix(line, "osu file format v") {
			trim := strings.TrimPrefix(line, "osu file format v")
''','''		if at := strings.Index(line, "osu file format v"); at >= 0 {
			trim := line[at+len("osu file format v"):]
''')],
 needs="a tag or title containing the format line's words",
 breaks="a text field changes the file version, and with it the stacking",
 demo=DB('''	info(load(file("[Metadata]\\nTags:made for osu file format v3", []string{"0,500"}, []string{"100,100,10000,1,0", "100,100,10100,1,0", "100,100,10200,1,0"})))
''')),
dict(id="e05-cs32",property="C05",
 edits=[("beatmap/parser.go",'''	case "CircleSize":
		parsed, _ := strconv.ParseFloat(line[1], 64)
''','''	case "CircleSize":
		parsed, _ := strconv.ParseFloat(line[1], 32)
''')],
 needs="a circle size that single precision cannot represent",
 breaks="the circle size is off by rounding",
 demo=DB('''	fmt.Println(load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0"}), "CircleSize:4", "CircleSize:4.2", 1)).Difficulty.GetCS())
''',"strings")),
dict(id="e05-od-again",property="C05",
 edits=[("beatmap/parser.go",'''		if !beatMap.arSpecified {
			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
		}
''','''		if !beatMap.arSpecified {
			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
			beatMap.arSpecified = true
		}
''')],
 needs="an overall difficulty given twice, without approach rate",
 breaks="the approach rate keeps the first of them",
 demo=DB('''	info(load(strings.Replace(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0"}), "ApproachRate:9\\n", "", 1), "OverallDifficulty:8", "OverallDifficulty:8\\nOverallDifficulty:6", 1)))
''',"strings")),
dict(id="e06-frac-sort",property="C06",
 edits=[("beatmap/parser.go",'''		return beatMap.HitObjects[i].GetStartTime() < beatMap.HitObjects[j].GetStartTime()
''','''		return int64(beatMap.HitObjects[i].GetStartTime()) < int64(beatMap.HitObjects[j].GetStartTime())
''')],
 needs="two objects in the wrong order within the same millisecond",
 breaks="objects are not sorted by start time",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000.8,1,0", "200,100,1000.2,1,0", "300,100,900,1,0"})))
''')),
dict(id="e06-skip-edge",property="C06",
 edits=[("beatmap/objects/slider.go",'''			sound, _ := strconv.Atoi(v)
			slider.sounds[i] = audio.HitSound(sound)
''','''			if sound, err := strconv.Atoi(v); err == nil && sound > 0 {
				slider.sounds[i] = audio.HitSound(sound)
			}
''')],
 needs="a slider with its own sound whose nodes list sound 0",
 breaks="nodes listed without sound get the slider's",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000,2,4,L|300:100,2,200,2|0|8"})))
''')),
dict(id="e07-spinner-flag",property="C07",
 edits=[("beatmap/parser.go",'''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = true
''','''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = true

			if iO.IsNewCombo() && iO.GetColorOffset() > 0 {
				comboSetHax += iO.GetColorOffset()
			}
''')],
 needs="a spinner flagged as new combo with a colour offset",
 breaks="the colours after it are shifted",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "256,192,2000,44,0,3000", "100,100,4000,1,0"})))
''')),
dict(id="e08-bpm-inh",property="C08",
 edits=[("beatmap/beatmap.go",'''	if !math.IsNaN(bpm) && bpm >= 0 {
		rBPM := 60000 / bpm
		beatMap.MinBPM = math.Min(beatMap.MinBPM, rBPM)
		beatMap.MaxBPM = math.Max(beatMap.MaxBPM, rBPM)
	}

''',''''''),("beatmap/beatmap.go",'''	beatMap.Timings.AddPoint(float64(pointTime)''','''	if !math.IsNaN(bpm) && bpm >= 0 && !inherited {
		rBPM := 60000 / bpm
		beatMap.MinBPM = math.Min(beatMap.MinBPM, rBPM)
		beatMap.MaxBPM = math.Max(beatMap.MaxBPM, rBPM)
	}

	beatMap.Timings.AddPoint(float64(pointTime)''')],
 needs="a point flagged as inherited with a positive beat length",
 breaks="it is left out of the BPM range",
 demo=DB('''	info(load(file("", []string{"0,500,4,2,0,100,1,0", "1000,250,4,2,0,100,0,0"}, []string{"100,100,1000,1,0"})))
''')),
dict(id="e09-float32",property="C09",
 edits=[("beatmap/objects/slider.go",'''		for d := tickDistance; d <= cLength && !nanTimingPoint; d += tickDistance {
			if d >= cLength-minDistanceFromEnd {
				break
			}
''','''		for n := 1; !nanTimingPoint; n++ {
			d := float64(float32(n) * float32(tickDistance))
			if d > cLength || d >= cLength-minDistanceFromEnd {
				break
			}
''')],
 needs="a long slider whose tick distance is not a whole number",
 breaks="ticks are off by rounding, growing along the slider",
 demo=D('''	t := timings(1.37, 3, [2]float64{0, 333.3}, [2]float64{1, -70})
	for _, o := range objs(t, "0,0,100000,2,0,L|12000:0,2,12000") {
		for _, p := range o.(*objects.Slider).ScorePoints {
			fmt.Printf("%.5f %v\\n", p.Time, p.IsReverse)
		}
	}
''',"fmt",OB)),
dict(id="e09-mid",property="C09",
 edits=[("beatmap/objects/slider.go",'''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),
''','''				Time: math.Max(spanStartTime+slider.spanDuration/2, slider.EndTime-36),
''')],
 needs="a repeating slider with spans shorter than 72 ms",
 breaks="the last point of fast repeating sliders moves",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	for _, o := range objs(t, "0,0,1000,2,0,L|10:0,3,10", "0,0,2000,2,0,L|10:0,1,10") {
		for _, p := range o.(*objects.Slider).ScorePoints {
			fmt.Printf("%.5f %v\\n", p.Time, p.IsReverse)
		}
	}
''',"fmt",OB)),
dict(id="e10-extend",property="C10",
 edits=[("math/curves/multicurve.go",'''				if line.Point1 != line.Point2 {
''','''				if line.Point1.Dst(line.Point2) > 0.5 {
''')],
 needs="a path whose last segment is shorter than half a pixel",
 breaks="the path is not brought to its length",
 demo=D(T+'''	for _, o := range objs(t, "0,0,1000,2,0,L|100:0|100.25:0,1,150", "0,0,2000,2,0,L|100:0|100.25:0,1,100.1") {
		fmt.Println(pv(o.GetEndPosition()), o.GetEndTime())
	}
''',"fmt")),
dict(id="e10-parity",property="C10",
 edits=[("beatmap/objects/slider.go",'''	progress = math.Mod(progress, 2)
	if progress >= 1 {
		progress = 2 - progress
	}
''','''	if span := int(progress); span%2 == 1 {
		progress = float64(int8(span)) + 1 - progress
	} else {
		progress -= float64(int8(span))
	}
''')],
 needs="a slider with more than 127 spans",
 breaks="positions in late spans are off the path",
 demo=D(T+'''	for _, o := range objs(t, "0,0,1000,2,0,L|100:0,200,100") {
		for x := 990.0; x < o.GetEndTime()+100; x += 97 {
			fmt.Println(pv(o.GetPositionAt(x)))
		}
	}
''',"fmt")),
dict(id="e11-flat-step",property="C11",
 edits=[("math/curves/bezierapproximator.go",'''	for i := 1; i < len(controlPoints)-1; i++ {
		if control''','''	for i := 1; i < len(controlPoints)-1; i++ {
		if len(controlPoints) > 12 && i > 4 && i < len(controlPoints)-5 {
			continue // the ends decide for long control polygons
		}

		if control''')],
 needs="a Bezier part of 13 or more control points that only bends in the middle",
 breaks="the curve is flattened too early",
 demo=D('''	for _, n := range []int{17, 18, 24} {
		pts := []vector.Vector2f{}
		for i := 0; i < n; i++ {
			y := float32(0)
			if i%4 == 2 {
				y = 400
			}
			pts = append(pts, vector.NewVec2f(float32(i*10), y))
		}
		fmt.Printf("%.0f %d\\n", curves.NewMultiCurve("B", pts).GetLength(), len(curves.NewMultiCurve("B", pts).GetLines()))
		for i := range pts {
			y := float32(0)
			if i > 6 && i < 10 {
				y = 60
			}
			pts[i] = vector.NewVec2f(float32(i*10), y)
		}
		m := curves.NewMultiCurve("B", pts)
		fmt.Printf("%.2f %d %s\\n", m.GetLength(), len(m.GetLines()), pv(m.PointAt(0.1)))
	}
''',"fmt",CV,VC)),
dict(id="e13-int-preempt",property="C13",
 edits=[("beatmap/stackleniency.go",'''	stackThreshold := math.Floor(diff.Preempt * stackLeniency)
''','''	stackThreshold := math.Floor(math.Floor(diff.Preempt) * stackLeniency)
''')],
 needs="an approach rate whose preempt time is not whole, and objects exactly at the edge of the window",
 breaks="the stack window is one millisecond shorter",
 demo=DB('''	for _, ar := range []string{"9.3", "7.77", "8.41", "3.33", "9.99"} {
		for _, l := range []string{"0.7", "1", "0.35"} {
			for gap := 100; gap < 1700; gap++ {
				b, _ := beatmap.ParseFromByte([]byte(strings.Replace(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0", fmt.Sprintf("100,100,%d,1,0", 10000+gap)}), "ApproachRate:9", "ApproachRate:"+ar, 1), "StackLeniency: 0.7", "StackLeniency: "+l, 1)))
				fmt.Print(b.HitObjects[0].GetStackIndex(0), b.HitObjects[0].GetStackIndex(2), b.HitObjects[0].GetStackIndex(16), " ")
			}
			fmt.Println()
		}
	}
''',"strings")),
dict(id="e13-slider-chain",property="C13",
 edits=[("beatmap/stackleniency.go",'''				if objectI.GetStartTime()-objectN.GetStartTime() > stackThreshold {
					break
				}
''','''				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
					break
				}
''')],
 needs="a slider that starts within the stack window of the end, but not the start, of an earlier long slider ending there",
 breaks="the earlier slider is stacked",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"300,100,10000,2,0,L|100:100,1,200", "100,100,10800,2,0,L|100:300,1,100"})))
	info(load(file("", []string{"0,500"}, []string{"300,100,10000,2,0,L|100:100,1,200", "100,100,11000,2,0,L|100:300,1,100"})))
	info(load(file("", []string{"0,500"}, []string{"300,100,10000,2,0,L|100:100,1,200", "100,100,10300,2,0,L|100:300,1,100"})))
''')),
dict(id="e14-ez-exact",property="C14",
 edits=[("beatmap/objects/hitobject.go",'''		return basePosition.Add(hitObject.StackOffsetHR)
	case modifier&difficulty.Easy > 0:
''','''		return basePosition.Add(hitObject.StackOffsetHR)
	case modifier&difficulty.DifficultyAdjustMask == difficulty.Easy:
''')],
 needs="Easy together with another difficulty mod on a stacked map",
 breaks="positions use the offset without mods",
 demo=D('''	for _, o := range objs(timings(1.4, 1, [2]float64{0, 500}), "100,100,1000,1,0", "100,100,1100,1,0") {
		o.SetStackIndex(3, difficulty.Easy)
		o.SetStackOffset(-9, difficulty.Easy)
		fmt.Println(pv(o.GetStackedStartPositionMod(difficulty.Easy)), pv(o.GetStackedStartPositionMod(difficulty.Easy|difficulty.DoubleTime)), pv(o.GetStackedEndPositionMod(difficulty.Easy|difficulty.Flashlight)))
	}
''',"fmt",DF)),
dict(id="e15-popcount",property="C15",
 edits=[("beatmap/difficulty/difficulty.go",'''	diff.Mods = mods
	diff.calculate()
''','''	changed := diff.Mods ^ mods
	diff.Mods = mods

	if changed&(HardRock|Easy|DoubleTime|HalfTime) != 0 || diff.ODReal > diff.od {
		diff.calculate()
	}
''')],
 needs="the difficulty's fields changed by hand before setting mods",
 breaks="derived values are not brought up to date with a custom speed set directly",
 demo=D('''	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.CustomSpeed = 1.25
	d.SetMods(difficulty.Hidden)
	fmt.Printf("%.4f %.4f %.4f\\n", d.Speed, d.ARReal, d.ODReal)
''',"fmt",DF)),
dict(id="e15-swap",property="C15",
 edits=[("beatmap/difficulty/difficulty.go",'''	diff.Mods = mods
	diff.calculate()
''','''	same := diff.Mods&(HardRock|Easy) == mods&(HardRock|Easy) && diff.Mods.Active(DoubleTime|HalfTime) == mods.Active(DoubleTime|HalfTime)
	diff.Mods = mods

	if !same {
		diff.calculate()
	}
''')],
 needs="DoubleTime replaced by HalfTime, or the other way, on the same difficulty",
 breaks="the speed stays that of the earlier mod",
 demo=D('''	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.DoubleTime)
	d.SetMods(difficulty.HalfTime)
	fmt.Printf("%.4f %.4f %.4f\\n", d.Speed, d.ARReal, d.ODReal)
''',"fmt",DF)),
dict(id="e16-toggle",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''				m |= 1 << uint(index)
				break
''','''				m ^= 1 << uint(index)
				break
''')],
 needs="an acronym given twice",
 breaks="the second one switches the mod off",
 demo=D('''	fmt.Println(difficulty.ParseMods("HDHRHD"), difficulty.ParseMods("HDHDHD"))
''',"fmt",DF)),
dict(id="e17-v2",property="C17",
 edits=[("beatmap/difficulty/mods.go",'''	if mods&DoubleTime > 0 {
		if mods&ScoreV2 > 0 {
			multiplier *= 1.20
''','''	if mods&DoubleTime > 0 {
		if mods&ScoreV2 > 0 && mods&HardRock == 0 {
			multiplier *= 1.20
''')],
 needs="DoubleTime and HardRock with ScoreV2",
 breaks="the multiplier uses the old DoubleTime value",
 demo=D('''	fmt.Println((difficulty.DoubleTime | difficulty.HardRock | difficulty.ScoreV2).GetScoreMultiplier())
''',"fmt",DF)),
dict(id="e19-break",property="C19",
 edits=[("performance/osu/skills/speed.go",'''		if currHistoricalDecay != 0 {
''','''		if currHistoricalDecay == 0 && len(s.Previous) < 32 {
			break
		}

		if currHistoricalDecay != 0 {
''')],
 needs="early in the map, an object more than five seconds after the first ones",
 breaks="the rhythm after a long break starts from nothing",
 demo=D(T+'''	hs := objs(t, "100,100,1000,1,0", "120,100,1050,1,0", "130,110,1100,1,0", "120,100,1150,1,0", "130,110,1200,1,0", "100,100,6300,1,0", "300,100,6500,1,0", "300,100,6600,1,0", "300,100,6650,1,0", "300,100,6850,1,0", "300,100,6950,1,0")
	showPeaks(osu.CalculateStrainPeaks(hs, diff(4, 8, 9, 0)))
''',OS)),
dict(id="e19-fl-first",property="C19",
 edits=[("performance/osu/skills/flashlight.go",'''		if i == 0 {
			smallDistNerf''','''		if cumulativeStrainTime == previous.StrainTime {
			smallDistNerf''')],
 needs="Flashlight, and an object directly after a spinner",
 breaks="the overlap nerf looks past the spinner",
 demo=D(T+'''	hs := objs(t, "100,100,1000,1,0", "120,100,1100,1,0", "256,192,1200,12,0,1500", "130,100,1600,1,0", "125,100,1700,1,0")
	showPeaks(osu.CalculateStrainPeaks(hs, diff(4, 8, 9, difficulty.Flashlight)))
''',OS,DF)),
dict(id="e22-trim-zero",property="C22",
 edits=[("performance/osu/difficulty.go",'''	peaks.Total = make([]float64, len(peaks.Aim))
''','''	for n := len(peaks.Aim); n > 1 && peaks.Aim[n-1] == 0 && peaks.Speed[n-1] == 0; n-- {
		peaks.Aim, peaks.Speed = peaks.Aim[:n-1], peaks.Speed[:n-1]
	}

	peaks.Total = make([]float64, len(peaks.Aim))
''')],
 needs="a map that ends in sections without any strain, such as one of spinners only",
 breaks="the last sections are missing",
 demo=D(T+'''	hs := objs(t, "256,192,1000,12,0,1500", "256,192,2000,12,0,2500", "256,192,3000,12,0,3500")
	p := osu.CalculateStrainPeaks(hs, diff(4, 8, 9, 0))
	fmt.Println(len(p.Aim), len(p.Speed), len(p.Total))
''',"fmt",OS)),
dict(id="e23-dedupe",property="C23",
 edits=[("performance/osu/difficulty.go",'''		attr.MaxCombo += len(s.ScorePoints)
''','''		for i, p := range s.ScorePoints {
			if i == 0 || p.Time > s.ScorePoints[i-1].Time {
				attr.MaxCombo++
			}
		}
''')],
 needs="a slider whose ticks or repeats fall on the same time",
 breaks="they count only once",
 demo=D(T+'''	rate(objs(t, "100,100,1000,2,0,L|200:100,3,100", "100,100,3000,2,0,L|100:100,4,0", "100,100,4000,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="e26-cache",property="C26",
 edits=[("performance/osu/pp.go",'''	amountHitObjectsWithAccuracy int
}
''','''	amountHitObjectsWithAccuracy int

	missPenaltyFor int
	missPenalty    float64
}
'''),("performance/osu/pp.go",'''	if pp.effectiveMissCount > 0 {
		aimValue *= 0.97 * math.Pow(1-math.Pow(float64(pp.effectiveMissCount)/float64(pp.totalHits), 0.775), float64(pp.effectiveMissCount))
	}
''','''	if pp.effectiveMissCount > 0 {
		if pp.missPenaltyFor != pp.effectiveMissCount {
			pp.missPenaltyFor = pp.effectiveMissCount
			pp.missPenalty = 0.97 * math.Pow(1-math.Pow(float64(pp.effectiveMissCount)/float64(pp.totalHits), 0.775), float64(pp.effectiveMissCount))
		}

		aimValue *= pp.missPenalty
	}
''')],
 needs="a calculator used for two plays with the same effective misses on maps of different length",
 breaks="the second play gets the first one's penalty",
 demo=D('''	var c osu.PPv2
	for _, n := range []int{500, 100} {
		r := c.PPv2x(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: n, Circles: n, MaxCombo: n}, n/2, n-3, 0, 0, 3, diff(4, 8, 9, 0)).Results
		fmt.Printf("%.4f\\n", r.Total)
	}
''',"fmt",OS)),
dict(id="e27-nf-floor",property="C27",
 edits=[("performance/osu/pp.go",'''	if totalhits > 0 && diff.Mods.Active(difficulty.SpunOut) {
		finalMultiplier *= 1.0 - math.Pow(float64(attribs.Spinners)/float64(totalhits), 0.85)
	}
''','''	if hit := totalhits - nmiss; hit > 0 && diff.Mods.Active(difficulty.SpunOut) {
		finalMultiplier *= 1.0 - math.Pow(float64(attribs.Spinners)/float64(hit), 0.85)
	}
''')],
 needs="SpunOut on a play that misses most of a map with spinners",
 breaks="the total gets negative when fewer objects are hit than there are spinners",
 demo=D('''	pp(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 100, Circles: 70, Spinners: 30, MaxCombo: 100}, 10, 10, 0, 0, 90, diff(4, 8, 9, difficulty.SpunOut))
''',OS,DF)),
dict(id="e28-recalc",property="C28",
 edits=[("performance/osu/preprocessing/objects.go",'''	objs := make([]objects.IHitObject, 0, len(objsB))
''','''	d.SetMods(d.Mods) // make sure that the derived values belong to the mods

	objs := make([]objects.IHitObject, 0, len(objsB))
''')],
 needs="a difficulty whose mods or custom speed field was set directly",
 breaks="rating a map changes the difficulty",
 demo=D(T+'''	d := diff(4, 8, 9, 0)
	d.CustomSpeed = 1.3
	rate(objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0"), d)
	fmt.Printf("%.4f %.4f\\n", d.Speed, d.ARReal)
''',"fmt")),
dict(id="e29-lazy-table",property="C29",race=True,
 edits=[("performance/osu/skills/flashlight.go",'''type Flashlight struct {
''','''// decayed holds the powers of 0.8 used so far
var decayed = []float64{1}

func decay(i int) float64 {
	for len(decayed) <= i {
		decayed = append(decayed, decayed[len(decayed)-1]*0.8)
	}

	return decayed[i]
}

type Flashlight struct {
'''),("performance/osu/skills/flashlight.go","math.Pow(0.8, float64(i))","decay(i)")],
 needs="two goroutines rating with Flashlight for the first time at once",
 breaks="the table of weights is filled by both",
 demo=D(T+'''	hs := objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,1600,1,0", "0,300,1800,1,0", "300,0,2000,1,0")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			osu.CalculateSingle(hs, diff(4, 8, 9, difficulty.Flashlight))
		}()
	}
	wg.Wait()
''',"sync",OS,DF)),
dict(id="e31-late-diff",property="C31",
 edits=[("beatmap/parser.go",'''		case "Difficulty":
			if arr''','''		case "Difficulty":
			if counter > 0 && len(beatMap.HitObjects) > 0 {
				break // the objects are built already
			}

			if arr''')],
 needs="a difficulty section behind the hit objects",
 breaks="it has no effect",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000,1,0"}) + "[Difficulty]\\nCircleSize:3\\nSliderMultiplier:2\\n"))
''')),
dict(id="e32-neg",property="C32",
 edits=[("math/curves/multicurve.go",'''func (mCurve *MultiCurve) GetEndAngleAt(t float32) float32 {
	if len(mCurve.lines) == 0 {
		return 0
	}
''','''func (mCurve *MultiCurve) GetEndAngleAt(t float32) float32 {
	if len(mCurve.lines) == 0 {
		return 0
	}

	if t < 0 {
		return mCurve.GetEndAngle()
	}
''')],
 needs="a direction asked for before the start of the path",
 breaks="it is that of the other end",
 demo=D('''	m := curves.NewMultiCurve("L", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)})
	fmt.Printf("%.3f %.3f %.3f\\n", m.GetEndAngleAt(-0.5), m.GetEndAngleAt(0), m.GetEndAngleAt(1.5))
''',"fmt",CV,VC)),
]
