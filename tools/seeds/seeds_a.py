IMP='''package main

import (
%s)

func main() {
%s}
'''
def D(body, *imports):
    return IMP % ("".join('\t"%s"\n'%i for i in imports), body)
G="github.com/Wieku/gosu-pp/"
DF=G+"beatmap/difficulty"; OS=G+"performance/osu"; OB=G+"beatmap/objects"; TM=G+"beatmap/timing"; CV=G+"math/curves"; VC=G+"math/vector"; BM=G+"beatmap"
SEEDS=[
dict(id="b01-peaks-alias",property="C22",
 edits=[("performance/osu/skills/skill.go","""	peaks := make([]float64, len(skill.strainPeaks)+1)
	copy(peaks, skill.strainPeaks)
	peaks[len(peaks)-1] = skill.currentSectionPeak

	return peaks
""","""	return append(skill.strainPeaks, skill.currentSectionPeak)
""")],
 needs="a map whose number of strain sections is not a power of two (spare slice capacity) and a rating computed before the peaks are read from the same skill",
 breaks="the returned peaks alias the skill's own slice, so the rating sorts and scales them in place; CalculateSingleWithPeaks returns different peaks than CalculateStrainPeaks",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	var l []string
	for i := 0; i < 40; i++ {
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 50+(i*97)%400, 50+(i*61)%300, 1000+i*150+(i%7)*30))
	}
	hs := objs(t, l...)
	d := diff(4, 8, 9, 0)
	showPeaks(osu.CalculateStrainPeaks(hs, d))
	a, p := osu.CalculateSingleWithPeaks(hs, d)
	show(a)
	showPeaks(p)
''',"fmt",OS)),
dict(id="b02-lazy-cache",property="C28",
 edits=[("performance/osu/preprocessing/objects.go","""			o = NewLazySlider(s, d)
""","""			if lazy, cached := lazySliders[s]; cached && lazy.diff.CircleRadius == d.CircleRadius {
				o = lazy
			} else {
				lazy = NewLazySlider(s, d)
				lazySliders[s] = lazy
				o = lazy
			}
"""),("performance/osu/preprocessing/objects.go","""// CreateDifficultyObjects creates""","""var lazySliders = make(map[*objects.Slider]*LazySlider)

// CreateDifficultyObjects creates""")],
 needs="the same beatmap rated twice with equal circle size but different positions (e.g. HR at CS 10 or stacked sliders under another mod)",
 breaks="lazy slider data is memoised by slider and circle radius only, so a later rating reuses positions of another mod",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	hs := objs(t, "100,100,1000,1,0", "150,300,1300,2,0,L|350:80,2,260", "300,60,2900,1,0", "40,300,3100,2,0,L|240:80,1,200", "300,60,4000,1,0", "100,60,4200,1,0")
	rate(hs, diff(10, 8, 9, 0))
	rate(hs, diff(10, 8, 9, difficulty.HardRock))
	rate(hs, diff(10, 8, 9, 0))
''',DF)),
dict(id="b03-bezier-buffers",property="C29",race=True,
 edits=[("math/curves/bezierapproximator.go","""	return &BezierApproximator{count: len(controlPoints), controlPoints: controlPoints, subdivisionBuffer1: make([]vector.Vector2f, len(controlPoints)), subdivisionBuffer2: make([]vector.Vector2f, len(controlPoints)*2-1)}
""","""	n := len(controlPoints)
	if len(scratch1) < n {
		scratch1 = make([]vector.Vector2f, n)
		scratch2 = make([]vector.Vector2f, n*2-1)
	}

	return &BezierApproximator{count: n, controlPoints: controlPoints, subdivisionBuffer1: scratch1[:n], subdivisionBuffer2: scratch2[:n*2-1]}
"""),("math/curves/bezierapproximator.go","""type BezierApproximator struct {""","""// scratch buffers for subdivision, kept between approximations to save allocations
var scratch1, scratch2 []vector.Vector2f

type BezierApproximator struct {""")],
 needs="two goroutines approximating Bezier curves (parsing maps) at the same time",
 breaks="the subdivision buffers are shared by all approximators; concurrent parses corrupt each other's sliders",
 demo=D('''	lines := []string{"50,60,0,2,0,B|150:300|250:20|350:200|100:350|30:10|200:200,1,900", "10,10,0,2,0,B|300:100|20:200|400:300,1,600"}
	t := timings(1.4, 1, [2]float64{0, 500})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				objs(t, lines[g%2])
			}
		}()
	}
	wg.Wait()
''',"sync")),
dict(id="b04-position-hint",property="C29",race=True,
 edits=[("math/curves/multicurve.go","""	withoutFirst := mCurve.sections[1:]
	index := sort.Search(len(withoutFirst), func(i int) bool {
		return withoutFirst[i] >= desiredWidth
	})

	index = mutils.MinI(index, len(mCurve.lines)-1)

	if mCurve.sections""","""	withoutFirst := mCurve.sections[1:]

	// positions are mostly queried in order, start from the last section that was found
	for mCurve.hint > 0 && withoutFirst[mCurve.hint-1] >= desiredWidth {
		mCurve.hint--
	}

	for mCurve.hint < len(withoutFirst)-1 && withoutFirst[mCurve.hint] < desiredWidth {
		mCurve.hint++
	}

	index := mCurve.hint

	if mCurve.sections"""),("math/curves/multicurve.go","""	firstPoint vector.Vector2f
}""","""	firstPoint vector.Vector2f
	hint       int
}"""),("math/curves/multicurve.go","""	return &MultiCurve{sections, lines, length, firstPoint}""","""	return &MultiCurve{sections, lines, length, firstPoint, 0}""")],
 needs="two goroutines querying positions on (or rating) the same slider at the same time",
 breaks="PointAt moves a shared search hint without synchronisation, so interleaved queries read the wrong section",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	hs := objs(t, "50,60,0,2,0,B|150:300|250:20|350:200|100:350|30:10|200:200,1,900")
	o := hs[0]
	var wg sync.WaitGroup
	bad := make([]int, 2)
	for g := 0; g < 2; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				f := float64((i*37)%100) / 100
				if g == 1 {
					f = 1 - f
				}
				o.GetPositionAt(o.GetStartTime() + o.GetDuration()*f)
			}
		}()
	}
	wg.Wait()
	println(bad[0])
''',"sync")),
dict(id="b05-stack-spinner",property="C13",
 edits=[("beatmap/stackleniency.go","""		if !isSlider(objectI) && !isSpinner(objectI) {
			for n--; n >= 0; n-- {
				objectN := hitObjects[n]

				if isSpinner(objectN) {
					continue
				}
""","""		if !isSlider(objectI) && !isSpinner(objectI) {
			for n--; n >= 0; n-- {
				objectN := hitObjects[n]

				if isSpinner(objectN) {
					break
				}
""")],
 needs="two stacked circles with a spinner between them within the stacking time",
 breaks="stacks are cut at a spinner instead of skipping over it",
 demo=D('''	b := load(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "256,192,1050,8,0,1100", "100,100,1150,1,0", "100,101,1200,1,0"}))
	for _, o := range b.HitObjects {
		fmt.Println(o.GetStackIndex(0), pv(o.GetStackedStartPosition()))
	}
''',"fmt")),
dict(id="b07-old-stacking",property="C13",
 edits=[("beatmap/stackleniency.go","""					sliderStack++
					objectN.SetStackIndex(objectN.GetStackIndex(modifiers)-sliderStack, modifiers)
					startTime = objectN.GetEndTime()
""","""					sliderStack++
					objectN.SetStackIndex(objectN.GetStackIndex(modifiers)-sliderStack, modifiers)
					startTime = objectN.GetStartTime()
""")],
 needs="a pre-v6 map where a slider starts at another slider's end and a further object follows within the time of the second slider's end only",
 breaks="old-style stacking measures the gap from a stacked slider's start instead of its end",
 demo=D('''	s := file("", []string{"0,500"}, []string{"100,100,1000,2,0,L|200:100,1,100", "200,100,1500,2,0,L|300:100,5,100", "200,100,3400,1,0"})
	b := load(strings.Replace(s, "v14", "v5", 1))
	for _, o := range b.HitObjects {
		fmt.Println(o.GetStackIndex(0), pv(o.GetStackedStartPosition()))
	}
''',"fmt","strings")),
dict(id="b08-ez-stack-radius",property="C14",
 edits=[("beatmap/objects/hitobject.go","""	case modifier&difficulty.Easy > 0:
		return basePosition.Add(hitObject.StackOffsetEZ)
	}
""","""	case modifier&difficulty.Easy > 0 && hitObject.StackIndexEZ != hitObject.StackIndex:
		return basePosition.Add(hitObject.StackOffsetEZ)
	}
""")],
 needs="an object stacked to the same height under EZ and under no mod (the offset differs through the circle size)",
 breaks="EZ positions use the no-mod stack offset when the heights happen to agree",
 demo=D('''	b := load(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "100,100,1100,1,0", "100,100,1200,1,0"}))
	for _, o := range b.HitObjects {
		fmt.Println(pv(o.GetStackedStartPositionMod(0)), pv(o.GetStackedStartPositionMod(difficulty.Easy)), pv(o.GetStackedStartPositionMod(difficulty.HardRock)))
	}
''',"fmt",DF)),
dict(id="b09-last-tick",property="C09",
 edits=[("beatmap/objects/slider.go","""				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),""","""				Time: math.Max(spanStartTime+slider.spanDuration/2, slider.EndTime-36),""")],
 needs="a repeating slider whose spans are shorter than 72 ms",
 breaks="the final scoring point is held back to the middle of the last span instead of the middle of the slider",
 demo=D('''	t := timings(3.6, 1, [2]float64{0, 200})
	for _, o := range objs(t, "100,100,1000,2,0,L|200:100,3,60", "100,100,2000,2,0,L|200:100,1,60", "100,100,3000,2,0,L|300:100,2,200") {
		for _, p := range o.(*objects.Slider).ScorePoints {
			fmt.Printf("%.3f %v ", p.Time, p.IsReverse)
		}
		fmt.Println()
	}
''',"fmt",OB)),
dict(id="b10-unstable-points",property="C08",
 edits=[("beatmap/timing/timing.go","sort.SliceStable(tim.points","sort.Slice(tim.points")],
 needs="more than twelve timing points with several at the same time",
 breaks="points with equal times may be reordered, so the one in force at that time changes",
 demo=D('''	t := timing.NewTimings()
	for i := 0; i < 40; i++ {
		t.AddPoint(float64((i*7)%40/4*100), 300+float64(i), 0, i, 1, 4, false, false, false)
	}
	t.FinalizePoints()
	for i := 0; i < 10; i++ {
		p := t.GetPointAt(float64(i*100) + 1)
		fmt.Println(p.Time, p.GetBeatLength(), p.SampleIndex)
	}
''',"fmt",TM)),
dict(id="b11-unstable-objects",property="C06",
 edits=[("beatmap/parser.go","sort.SliceStable(beatMap.HitObjects","sort.Slice(beatMap.HitObjects")],
 needs="more than twelve hit objects with several at the same time, out of order in the file",
 breaks="objects with equal start times may lose their file order",
 demo=D('''	var l []string
	for i := 0; i < 40; i++ {
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 10+i, 20, 1000+(i*7)%40/4*100))
	}
	b := load(file("", []string{"0,500"}, l))
	for _, o := range b.HitObjects {
		fmt.Print(pv(o.GetStartPosition()), " ")
	}
''',"fmt")),
dict(id="b12-combo-hax",property="C07",
 edits=[("beatmap/parser.go","""			comboSet++
			comboSetHax += int(iO.GetColorOffset()) + 1

			forceNewCombo = false
""","""			comboSet++
			comboSetHax += int(iO.GetColorOffset()) + 1

			if !iO.IsNewCombo() {
				forceNewCombo = false
			}
""")],
 needs="an object after a spinner: it is marked as a new combo first, so the forced flag stays set and the object after it starts another combo",
 breaks="after the first spinner every object starts a new combo",
 demo=D('''	b := load(file("", []string{"0,500"}, []string{"100,100,1000,5,0", "256,192,1100,8,0,1200", "200,100,1500,1,0", "210,100,1600,1,0", "220,100,1700,1,0"}))
	for _, o := range b.HitObjects {
		fmt.Println(o.GetComboSet(), o.GetComboSetHax(), o.IsNewCombo())
	}
''',"fmt")),
dict(id="b13-touch-speed",property="C25",
 edits=[("performance/osu/pp.go","""		estimateSliderEndsDropped := mutils.ClampF64(float64(mutils.MinI(pp.countOk+pp.countMeh+pp.countMiss, pp.attribs.MaxCombo-pp.scoreMaxCombo)), 0, estimateDifficultSliders)""","""		estimateSliderEndsDropped := mutils.ClampF64(float64(mutils.MinI(pp.countOk+pp.countMeh+pp.effectiveMissCount, pp.attribs.MaxCombo-pp.scoreMaxCombo)), 0, estimateDifficultSliders)""")],
 needs="a map with sliders played with low combo but few or no recorded misses",
 breaks="slider ends dropped are estimated from the effective miss count, which already includes them",
 demo=D('''	a := osu.Attributes{Aim: 3, Speed: 2.5, Flashlight: 1, SliderFactor: 0.9, Total: 5, ObjectCount: 400, Circles: 200, Sliders: 195, Spinners: 5, MaxCombo: 900}
	for _, c := range []int{-1, 880, 600, 30} {
		pp(a, c, -1, 1, 0, 0, diff(4, 8, 9, 0))
	}
''',OS)),
dict(id="b14-default-combo",property="C26",
 edits=[("performance/osu/pp.go","""	attribs.MaxCombo = mutils.MaxI(1, attribs.MaxCombo)

	if combo < 0 {
		combo = attribs.MaxCombo
	}
""","""	if combo < 0 {
		combo = attribs.MaxCombo
	}

	attribs.MaxCombo = mutils.MaxI(1, attribs.MaxCombo)
""")],
 needs="attributes without a maximum combo and an omitted combo",
 breaks="an omitted combo no longer means a full combo when the attributes hold no maximum combo",
 demo=D('''	a := osu.Attributes{Aim: 3, Speed: 2.5, Flashlight: 1, SliderFactor: 1, Total: 5, ObjectCount: 4, Circles: 4}
	pp(a, -1, -1, 0, 0, 0, diff(4, 8, 9, 0))
	a.MaxCombo = 4
	pp(a, -1, -1, 0, 0, 0, diff(4, 8, 9, 0))
''',OS)),
dict(id="b15-pp-reuse",property="C26",
 edits=[("performance/osu/pp.go","""	if totalhits == 0 {
		pp.accuracy = 0.0
	} else {""","""	if totalhits != 0 {""")],
 needs="a calculator reused for a score without hits after one with hits",
 breaks="the accuracy of the previous score is kept for a score without hits",
 demo=D('''	var c osu.PPv2
	a := osu.Attributes{Aim: 3, Speed: 2.5, Flashlight: 1, SliderFactor: 1, Total: 5, ObjectCount: 4, Circles: 4, MaxCombo: 4}
	d := diff(4, 8, 9, 0)
	fmt.Printf("%.5f\\n", c.PPv2x(a, 4, 4, 0, 0, 0, d).Results.Total)
	fmt.Printf("%.5f\\n", c.PPv2x(a, 4, 0, 0, 0, 0, d).Results.Total)
''',"fmt",OS)),
dict(id="b16-relax-clamp",property="C27",
 edits=[("performance/osu/pp.go","""		pp.effectiveMissCount = mutils.MinI(pp.effectiveMissCount+pp.countOk+pp.countMeh, pp.totalHits)""","""		pp.effectiveMissCount += pp.countOk + pp.countMeh""")],
 needs="Relax, a combo so low that the estimated misses plus the 100s and 50s exceed the number of hits",
 breaks="the effective miss count exceeds the number of hits and the value becomes NaN",
 demo=D('''	a := osu.Attributes{Aim: 3, Speed: 2.5, Flashlight: 1, SliderFactor: 0.9, Total: 5, ObjectCount: 10, Circles: 2, Sliders: 8, MaxCombo: 900}
	pp(a, 1, -1, 5, 0, 0, diff(4, 8, 9, difficulty.Relax))
	pp(a, 900, -1, 5, 0, 0, diff(4, 8, 9, difficulty.Relax))
''',OS,DF)),
]
