from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="s13-neg-time",property="C13",
 edits=[("beatmap/stackleniency.go",'''				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
''','''				if objectN.GetEndTime() < 0 || objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
''')],
 needs="a stack of notes before the beginning of the song",
 breaks="they are not stacked",
 demo=DB('''	for _, o := range load(file("", []string{"0,500"}, []string{"1,1,-300,1,0", "1,1,-100,1,0", "1,1,100,1,0", "1,1,200,1,0"})).HitObjects {
		fmt.Println(o.GetStackIndex(0))
	}
''')),
dict(id="s10-neg-start",property="C10",
 edits=[("beatmap/objects/slider.go",'''	t1 := mutils.ClampF64(time, slider.StartTime, slider.EndTime)
''','''	t1 := mutils.ClampF64(time, math.Max(0, slider.StartTime), math.Max(0, slider.EndTime))
''')],
 needs="a slider before the beginning of the song",
 breaks="it stays where it is at time 0",
 demo=D(T+'''	for _, s := range objs(t, "100,100,-500,2,0,L|300:100,1,200", "100,100,500,2,0,L|300:100,1,200") {
		for i := 0; i < 5; i++ {
			fmt.Println(s.GetPositionAt(s.GetStartTime() + float64(i)*100))
		}
	}
''')),
dict(id="s09-neg-start",property="C09",
 edits=[("beatmap/objects/slider.go",'''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),
''','''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, math.Max(0, slider.EndTime-36)),
''')],
 needs="a slider before the beginning of the song",
 breaks="its last point is after its end",
 demo=D(T+'''	for _, s := range objs(t, "100,100,-1500,2,0,L|300:100,1,200", "100,100,500,2,0,L|300:100,1,200") {
		fmt.Println(s.(*objects.Slider).ScorePoints, s.GetEndTime())
	}
''')),
dict(id="s23-uint16",property="C23",
 edits=[("performance/osu/difficulty.go",'''		attr.MaxCombo += len(s.ScorePoints)
''','''		attr.MaxCombo += int(uint16(len(s.ScorePoints)))
''')],
 needs="a slider of more than 65535 points",
 breaks="65536 of them are not counted",
 demo=D('''	t := timings(0.4, 8, [2]float64{0, 1000}, [2]float64{5, -1000})
	for _, r := range []int{100, 9000} {
		fmt.Println(osu.CalculateSingle(objs(t, fmt.Sprintf("100,100,600,2,0,L|300:100,%d,200", r)), diff(4, 8, 9, 0)).MaxCombo)
	}
''')),
dict(id="s22-neg-first",property="C22",
 edits=[("performance/osu/difficulty.go",'''	for _, o := range diffObjects {
		aimSkill.Process(o)
		speedSkill.Process(o)
''','''	for _, o := range diffObjects {
		if o.EndTime < 0 { // nothing to draw yet
			continue
		}

		aimSkill.Process(o)
		speedSkill.Process(o)
''')],
 needs="objects before the beginning of the song",
 breaks="their sections are missing in one of the entry points",
 demo=D(T+'''	o := objs(t, "100,100,-3000,1,0", "300,100,-2500,1,0", "100,300,-2000,1,0", "300,300,500,1,0")
	_, p := osu.CalculateSingleWithPeaks(o, diff(4, 8, 9, 0))
	fmt.Println(len(p.Aim), len(osu.CalculateStrainPeaks(o, diff(4, 8, 9, 0)).Aim))
''')),
dict(id="s14-early",property="C14",
 edits=[("beatmap/objects/hitobject.go",'''	return hitObject.modifyPosition(hitObject.GetPositionAt(time), modifier)
''','''	if time < hitObject.StartTime-1000 || time > hitObject.EndTime+1000 { // not visible
		return hitObject.GetPositionAt(time)
	}

	return hitObject.modifyPosition(hitObject.GetPositionAt(time), modifier)
''')],
 needs="asking for a position more than a second before or after the object",
 breaks="it is neither mirrored nor stacked",
 demo=D(T+'''	for _, o := range objs(t, "100,100,3000,1,0") {
		fmt.Println(o.GetStackedPositionAtMod(2500, difficulty.HardRock), o.GetStackedPositionAtMod(500, difficulty.HardRock))
	}
''')),
dict(id="s15-high",property="C15",
 edits=[("beatmap/difficulty/difficulty.go",'''	diff.SpinnerRatio = DifficultyRate(od, 3, 5, 7.5)
''','''	diff.SpinnerRatio = DifficultyRate(math.Min(od, 10), 3, 5, 7.5)
''')],
 needs="an overall difficulty above 10",
 breaks="the spinner ratio is that of 10",
 demo=D('''	for _, v := range []float64{9, 10, 11} {
		fmt.Println(diff(4, v, 5, 0).SpinnerRatio)
	}
''')),
dict(id="s32-before",property="C32",
 edits=[("math/curves/multicurve.go",'''	return mCurve.getLineAt(t).GetStartAngle()
''','''	if t < 0 {
		return mCurve.getLineAt(-t).GetStartAngle() // on its way back
	}

	return mCurve.getLineAt(t).GetStartAngle()
''')],
 needs="a bent path and a negative parameter",
 breaks="the direction is that of another part",
 demo=D('''	c := curves.NewMultiCurve("L", []vector.Vector2f{{X: 0, Y: 0}, {X: 50, Y: 0}, {X: 50, Y: 50}})
	fmt.Println(c.GetStartAngleAt(-0.9), c.GetStartAngleAt(0), c.GetStartAngleAt(0.9))
''')),
dict(id="s25-over-combo",property="C25",
 edits=[("performance/osu/pp.go",'''		speedValue *= math.Min(math.Pow(float64(pp.scoreMaxCombo), 0.8)/math.Pow(float64(pp.attribs.MaxCombo), 0.8), 1.0)
''','''		speedValue *= math.Pow(math.Min(float64(pp.scoreMaxCombo)/float64(pp.attribs.MaxCombo), 1.1), 0.8)
''')],
 needs="a combo above the maximum combo",
 breaks="speed is worth more than with the maximum combo",
 demo=D('''	for _, c := range []int{90, 100, 120} {
		pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 100, Circles: 100, MaxCombo: 100}, c, 100, 0, 0, 0, diff(4, 8, 9, 0))
	}
''')),
dict(id="s07-neg",property="C07",
 edits=[("beatmap/parser.go",'''		} else if iO.IsNewCombo() || forceNewCombo {
''','''		} else if iO.IsNewCombo() && (num > 0 || iO.GetStartTime() >= 0) || forceNewCombo {
''')],
 needs="a first object before the beginning of the song which starts a combo",
 breaks="it does not",
 demo=DB('''	for _, s := range []string{"-100", "100"} {
		b := load(file("", []string{"0,500"}, []string{"1,1," + s + ",5,0", "1,1,2000,1,0"}))
		fmt.Println(b.HitObjects[0].GetComboSet(), b.HitObjects[1].GetComboSet())
	}
''')),
dict(id="s19-neg",property="C19",
 edits=[("performance/osu/skills/speed.go",'''	if _, ok := current.BaseObject.(*objects.Spinner); ok {
		s.CurrentRhythm = 0
		return 0
	}

	greatWindow''','''	if _, ok := current.BaseObject.(*objects.Spinner); ok {
		s.CurrentRhythm = 0
		return 0
	}

	if current.StartTime < 0 {
		s.CurrentRhythm = 1
		return s.CurrentRhythm
	}

	greatWindow''')],
 needs="a rhythm before the beginning of the song",
 breaks="it counts as even",
 demo=D(T+'''	l := []string{}
	for i, x := range []int{0, 200, 300, 400, 700, 800, 1100, 1200, 1300, 1600, 1700} {
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i*37%300, 100+i*53%200, x-3000))
	}
	fmt.Printf("%.9f\\n", osu.CalculateSingle(objs(t, l...), diff(4, 8, 9, 0)).Speed)
''')),
]
