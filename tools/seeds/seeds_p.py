from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="p01-spin-index",property="C01",
 edits=[("beatmap/stackleniency.go",'''		if objectI.GetStackIndex(modifiers) != 0 || isSpinner(objectI) {
			continue
		}
''','''		if isSpinner(objectI) && isSpinner(hitObjects[n-1]) {
			for isSpinner(hitObjects[n]) { // skip them all
				n--
			}
			i = n + 1
			continue
		}

		if objectI.GetStackIndex(modifiers) != 0 || isSpinner(objectI) {
			continue
		}
''')],
 needs="a map whose first two objects are spinners, with circles stacked behind them",
 breaks="indexes before the first object",
 demo=DB('''	for _, l := range [][]string{{"1,1,500,1,0", "256,192,600,12,0,700", "256,192,800,12,0,900", "1,1,1000,1,0", "1,1,1100,1,0"}, {"256,192,600,12,0,700", "256,192,800,12,0,900", "1,1,1000,1,0", "1,1,1100,1,0", "1,1,1200,1,0"}} {
		info(load(file("", []string{"0,500"}, l)))
	}
''')),
dict(id="p02-nul",property="C02",
 edits=[("files/utf.go",'''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
''','''	if b, ok := r.(*bytes.Reader); ok && b.Len() > 0 && b.Len()%4096 == 0 {
		// whole blocks only: cut off the padding of the last one
		data, _ := io.ReadAll(b)
		r = bytes.NewReader(bytes.TrimRight(data, "\\x00 ,\\t\\n"))
	}

	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
'''),("files/utf.go",'''import (
	"bufio"
''','''import (
	"bufio"
	"bytes"
''')],
 needs="a file of a multiple of 4096 bytes which ends with an empty field, given as bytes",
 breaks="the last line loses a field",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"1,1,1,1,0", "1,1,1,1,"})
	for len(strings.TrimRight(s, "\\n"))%4096 != 0 {
		s = strings.Replace(s, "[TimingPoints]", "\\n[TimingPoints]", 1)
	}
	for _, x := range []string{strings.TrimRight(s, "\\n"), "\\n" + strings.TrimRight(s, "\\n")} {
		b := load(x)
		fmt.Println(len(x)%4096, len(b.HitObjects))
	}
''',"strings")),
dict(id="p05-ar-twice",property="C05",
 edits=[("beatmap/parser.go",'''		if !beatMap.arSpecified {
			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
		}
''','''		if !beatMap.arSpecified {
			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
			beatMap.arSpecified = parsed > 0 && parsed < 1
		}
''')],
 needs="an overall difficulty between 0 and 1, then another one, without approach rate",
 breaks="the approach rate stays at the first",
 demo=DB('''	for _, s := range []string{"OverallDifficulty:0.5\\nOverallDifficulty:7\\n", "OverallDifficulty:3\\nOverallDifficulty:7\\n"} {
		b := load("osu file format v14\\n[Metadata]\\nTitle:x\\n[Difficulty]\\n" + s + "[TimingPoints]\\n0,500\\n[HitObjects]\\n1,1,1,1,0\\n")
		fmt.Println(b.Difficulty.GetAR(), b.Difficulty.GetOD())
	}
''')),
dict(id="p06-equal-time",property="C06",
 edits=[("beatmap/parser.go",'''		return beatMap.HitObjects[i].GetStartTime() < beatMap.HitObjects[j].GetStartTime()
	})

	num := 0''','''		if a, b := beatMap.HitObjects[i], beatMap.HitObjects[j]; a.GetStartTime() == b.GetStartTime() && b.GetType() == objects.SPINNER {
			return a.GetType() == objects.SLIDER // spinners last
		}

		return beatMap.HitObjects[i].GetStartTime() < beatMap.HitObjects[j].GetStartTime()
	})

	num := 0''')],
 needs="a spinner listed before a slider with the same time",
 breaks="they change places",
 demo=DB('''	for _, o := range load(file("", []string{"0,500"}, []string{"1,1,500,1,0", "256,192,600,12,0,700", "1,1,600,2,0,L|100:1,1,50", "1,1,600,1,0"})).HitObjects {
		fmt.Println(o.GetType(), o.GetID())
	}
''')),
dict(id="p06-edge-neg",property="C06",
 edits=[("beatmap/objects/slider.go",'''			sound, _ := strconv.Atoi(v)
			slider.sounds[i] = audio.HitSound(sound)
''','''			if sound, err := strconv.Atoi(v); err == nil || i < len(subData)-1 {
				slider.sounds[i] = audio.HitSound(sound)
			}
''')],
 needs="a slider whose last edge sound is not a number, with a sound of its own",
 breaks="it keeps the sound of the slider instead of none",
 demo=DB('''	for _, e := range []string{"2|4", "2|x", "x|2", "2|"} {
		fmt.Println(load(file("", []string{"0,500"}, []string{"1,1,600,2,8,L|100:1,1,50," + e})).HitObjects[0].GetSounds())
	}
''')),
dict(id="p07-after-spinners",property="C07",
 edits=[("beatmap/parser.go",'''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = true
''','''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = !forceNewCombo || iO.IsNewCombo()
''')],
 needs="two spinners in a row, the second without the new combo flag",
 breaks="the next object does not start a combo",
 demo=DB('''	for _, l := range [][]string{{"1,1,500,1,0", "256,192,600,12,0,700", "256,192,800,12,0,900", "1,1,1000,1,0"}, {"1,1,500,1,0", "256,192,600,8,0,700", "256,192,800,8,0,900", "1,1,1000,1,0"}} {
		for _, o := range load(file("", []string{"0,500"}, l)).HitObjects {
			fmt.Print(o.GetComboSet(), o.IsNewCombo(), " ")
		}
	}
''')),
dict(id="p10-clamp-len",property="C10",
 edits=[("math/curves/multicurve.go",'''			diff -= float64(line.GetLength())
			mCurve.lines = mCurve.lines[:len(mCurve.lines)-1]
''','''			if line.Point1 != line.Point2 || len(mCurve.lines)%2 == 0 {
				diff -= float64(line.GetLength())
			}
			if len(mCurve.lines) == 2 && desiredLength > 0 && desiredLength < 1 {
				break // keep something to follow
			}
			mCurve.lines = mCurve.lines[:len(mCurve.lines)-1]
''')],
 needs="a path of several parts which is cut to less than a pixel",
 breaks="it keeps two parts",
 demo=D('''	for _, l := range []float64{0.5, 1.5, 50} {
		fmt.Println(curves.NewMultiCurveT("L", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(10, 0), vector.NewVec2f(10, 20), vector.NewVec2f(30, 20)}, l).GetLength())
	}
''')),
dict(id="p11-catmull-three",property="C11",
 edits=[("math/curves/multicurve.go",'''			p4 = p3.Add(p3.Sub(p2))
''','''			p4 = p3.Add(p3.Sub(p2))

			if i > 0 && p3 == points[0] { // closed: go on as it began
				p4 = points[1]
			}
''')],
 needs="a closed Catmull slider of three or more points",
 breaks="its last part bends otherwise",
 demo=D('''	for _, e := range []float32{0, 1} {
		p := curves.NewMultiCurve("C", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(50, 90), vector.NewVec2f(e, 0)}).PointAt(0.85)
		fmt.Printf("%.1f %.1f\\n", p.X, p.Y)
	}
''')),
dict(id="p11-hint",property="C11",
 edits=[("math/curves/multicurve.go",'''			if multi {
				i++
			}

			lastIndex = i
''','''			if multi && i+2 < len(points) && points[i+2] == points[i] {
				i++ // a triple anchor
			}

			if multi {
				i++
			}

			lastIndex = i
''')],
 needs="an anchor given four times, right before the end",
 breaks="the parts behind it are taken apart at another place",
 demo=D('''	for _, n := range []int{2, 3, 4, 5} {
		pts := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 50)}
		for i := 0; i < n; i++ {
			pts = append(pts, vector.NewVec2f(200, 0))
		}
		pts = append(pts, vector.NewVec2f(250, 90))
		c := curves.NewMultiCurve("B", pts)
		fmt.Println(n, len(c.GetLines()), c.GetLength())
		c = curves.NewMultiCurve("B", append(pts, vector.NewVec2f(300, 0)))
		fmt.Println(n, len(c.GetLines()), c.GetLength())
	}
''')),
dict(id="p14-end-hr",property="C14",
 edits=[("beatmap/objects/hitobject.go",'''	case modifier&difficulty.HardRock > 0:
		basePosition.Y = 384 - basePosition.Y
		return basePosition.Add(hitObject.StackOffsetHR)
	case modifier&difficulty.Easy > 0:''','''	case modifier&difficulty.HardRock > 0:
		basePosition.Y = 384 - basePosition.Y
		if hitObject.StackIndexHR < 0 && hitObject.StackIndex == 0 {
			return basePosition.Add(hitObject.StackOffset)
		}
		return basePosition.Add(hitObject.StackOffsetHR)
	case modifier&difficulty.Easy > 0:''')],
 needs="an object pushed below a slider end under HardRock only",
 breaks="it is not moved",
 demo=DB('''	b := load(file("[Difficulty]\\nApproachRate:0\\n[General]\\nStackLeniency:0.3\\n", []string{"0,500"}, []string{"100,100,1000,2,0,L|200:100,1,100", "200,100,1900,1,0", "300,300,5000,1,0"}))
	for _, o := range b.HitObjects {
		fmt.Println(o.GetStackIndex(0), o.GetStackIndex(difficulty.HardRock), o.GetStackedStartPositionMod(difficulty.HardRock))
	}
	b.HitObjects[1].SetStackIndex(-2, difficulty.HardRock)
	b.HitObjects[1].SetStackIndex(0, difficulty.None)
	b.HitObjects[1].SetStackOffset(0, difficulty.None)
	b.HitObjects[1].SetStackOffset(5, difficulty.HardRock)
	fmt.Println(b.HitObjects[1].GetStackedStartPositionMod(difficulty.HardRock))
''',DF)),
dict(id="p15-real-order",property="C15",
 edits=[("beatmap/difficulty/difficulty.go",'''	diff.ARReal = DiffFromRate(diff.GetModifiedTime(diff.Preempt), 1800, 1200, 450)
''','''	if preempt := diff.GetModifiedTime(diff.Preempt); diff.CustomSpeed == 1 || math.Abs(preempt-1200) > 0.5 || diff.ARReal == 0 {
		diff.ARReal = DiffFromRate(preempt, 1800, 1200, 450)
	}
''')],
 needs="a custom speed which brings the preempt time within half a millisecond of 1200 ms",
 breaks="the real approach rate stays at what it was before",
 demo=D('''	d := difficulty.NewDifficulty(5, 4, 8, 5)
	for _, s := range []float64{1.2, 1, 1.0002, 0.8} {
		d.SetCustomSpeed(s)
		fmt.Println(d.ARReal)
	}
''')),
dict(id="p27-fl-len",property="C27",
 edits=[("performance/osu/pp.go",'''	// Combo scaling.
	if pp.attribs.MaxCombo > 0 {
		flashlightValue *=''','''	// Combo scaling.
	if pp.attribs.MaxCombo > pp.scoreMaxCombo+pp.countMiss {
		flashlightValue *=''')],
 needs="Flashlight and misses at the very end of a long combo",
 breaks="losing combo together with a miss is worth more than without",
 demo=D('''	for _, c := range []int{90, 89, 88, 87, 86, 80} {
		pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, Flashlight: 2, ObjectCount: 90, Circles: 90, MaxCombo: 90}, c, 87, 0, 0, 3, diff(4, 8, 9, difficulty.Flashlight))
	}
''')),
dict(id="p22-sort-peaks",property="C22",
 edits=[("performance/osu/skills/skill.go",'''	peaks := make([]float64, len(skill.strainPeaks)+1)
	copy(peaks, skill.strainPeaks)
	peaks[len(peaks)-1] = skill.currentSectionPeak

	return peaks
''','''	if cap(skill.strainPeaks) > len(skill.strainPeaks) && len(skill.strainPeaks) > 12 {
		return append(skill.strainPeaks, skill.currentSectionPeak) // there is room
	}

	peaks := make([]float64, len(skill.strainPeaks)+1)
	copy(peaks, skill.strainPeaks)
	peaks[len(peaks)-1] = skill.currentSectionPeak

	return peaks
''')],
 needs="a map of more than 13 sections",
 breaks="rating sorts and scales the peaks themselves, so the peaks after it and the next rating of the same skill differ",
 demo=D(T+'''	l := []string{}
	for i := 0; i < 60; i++ {
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i*37%300, 100+i*53%200, 500+i*(100+i)))
	}
	_, p := osu.CalculateSingleWithPeaks(objs(t, l...), diff(4, 8, 9, 0))
	fmt.Println(p.Aim)
	q := osu.CalculateStrainPeaks(objs(t, l...), diff(4, 8, 9, 0))
	fmt.Println(q.Aim)
''')),
dict(id="p29-diff-tick",property="C29",race=True,
 edits=[("performance/osu/preprocessing/lazyslider.go",'''func NewLazySlider(slider *objects.Slider, d *difficulty.Difficulty) *LazySlider {
''','''func NewLazySlider(slider *objects.Slider, d *difficulty.Difficulty) *LazySlider {
	slider.SetDifficulty(d)

''')],
 needs="the same objects rated by two goroutines at once",
 breaks="both write the difficulty into the shared sliders",
 demo=_b.D(T+'''	o := objs(t, "100,100,600,1,0", "100,300,1000,2,0,L|180:300,2,80", "300,300,1700,1,0", "200,100,1900,1,0")
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func(g int) {
			defer w.Done()
			for i := 0; i < 200; i++ {
				osu.CalculateSingle(o, diff(float64(g), 8, 9, 0))
			}
		}(g)
	}
	w.Wait()
''',"sync",OS,DF)),
dict(id="p33-clamp-swap",property="C33",
 edits=[("math/mutils/utils.go",'''func ClampF64(x, min, max float64) float64 {
''','''func ClampF64(x, min, max float64) float64 {
	if min == max && x < min {
		return x
	}

''')],
 needs="clamping a smaller number to a single value",
 breaks="the number stays as it is",
 demo=D('''	fmt.Println(mutils.ClampF64(1, 2, 2), mutils.ClampF64(3, 2, 2), mutils.ClampF64(1, 2, 3))
''')),
dict(id="p25-spun-all",property="C25",
 edits=[("performance/osu/pp.go",'''	if totalhits > 0 && diff.Mods.Active(difficulty.SpunOut) {
''','''	if totalhits > attribs.Spinners && diff.Mods.Active(difficulty.SpunOut) {
''')],
 needs="SpunOut and a score with no more hits than the map has spinners",
 breaks="the penalty is left out",
 demo=D('''	for _, n := range []int{2, 3, 4, 10} {
		pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 10, Circles: 7, Spinners: 3, MaxCombo: 10}, 5, n, 0, 0, 0, diff(4, 8, 9, difficulty.SpunOut))
	}
''')),
]
