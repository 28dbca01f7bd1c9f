from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="j21-spinner-step",property="C21",
 edits=[("performance/osu/difficulty.go",'''		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''','''		if attr.Spinners > stars[i].Spinners { // spinners have no strain
			stars = append(stars, attr)
			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''')],
 needs="a spinner which begins a new section, and looking at the step of the spinner itself",
 breaks="the rating after a spinner lacks the section it opened",
 demo=D(T+'''	hs := objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,1590,1,0", "256,192,1900,12,0,2500", "100,100,2800,1,0")
	for _, a := range osu.CalculateStep(hs, diff(4, 8, 9, 0)) {
		show(a)
	}
''')),
dict(id="j22-repeat",property="C22",
 edits=[("performance/osu/difficulty.go",'''		flVal := 0.0
		if flashlight != nil {
			flVal = peaks.Flashlight[i]
		}
''','''		if i > 0 && peaks.Aim[i] == peaks.Aim[i-1] && peaks.Speed[i] == peaks.Speed[i-1] { // nothing has changed
			peaks.Total[i] = peaks.Total[i-1]
			continue
		}

		flVal := 0.0
		if flashlight != nil {
			flVal = peaks.Flashlight[i]
		}
''')],
 needs="Flashlight, three notes and a spinner at the beginning, and then a pause: no strain but that of flashlight in several sections",
 breaks="the total peak of the second section repeats the first",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{0, difficulty.Flashlight} {
		hs := objs(t, "100,100,1000,1,0", "300,100,1100,1,0", "100,200,1200,1,0", "256,192,1390,12,0,1500", "100,300,8000,1,0", "300,300,8200,1,0")
		showPeaks(osu.CalculateStrainPeaks(hs, diff(4, 8, 9, m)))
	}
''')),
dict(id="j14-same-preempt",property="C14",
 edits=[("beatmap/stackleniency.go",'''	processStacking(b.HitObjects, b.FileVersion, diffHR, b.StackLeniency)
''','''
	if diffHR.Preempt == diffNM.Preempt { // the same objects stack
		for _, v := range b.HitObjects {
			v.SetStackIndex(v.GetStackIndex(difficulty.None), difficulty.HardRock)
			v.SetStackOffset(-float32(v.GetStackIndex(difficulty.None))*float32(diffNM.CircleRadius)/10, difficulty.HardRock)
		}

		return
	}

	processStacking(b.HitObjects, b.FileVersion, diffHR, b.StackLeniency)
''')],
 needs="approach rate 10 (or 0) and stacks, under HardRock",
 breaks="stacks are spaced for the circles without HardRock",
 demo=DB('''	for _, ar := range []string{"9", "10"} {
		b := load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0", "100,100,10150,1,0", "100,100,10300,1,0"}), "ApproachRate:9", "ApproachRate:"+ar, 1))
		for _, o := range b.HitObjects {
			fmt.Println(pv(o.GetStackedStartPositionMod(0)), pv(o.GetStackedStartPositionMod(difficulty.HardRock)), pv(o.GetStackedStartPositionMod(difficulty.Easy)))
		}
	}
''',"strings",DF)),
dict(id="j07-forced-offset",property="C07",
 edits=[("beatmap/parser.go",'''			comboSetHax += int(iO.GetColorOffset()) + 1

			forceNewCombo = false
''','''			comboSetHax++
			if !forceNewCombo { // forced combos take the next colour
				comboSetHax += int(iO.GetColorOffset())
			}

			forceNewCombo = false
''')],
 needs="an object with a colour offset right after a spinner",
 breaks="the colour offset is lost",
 demo=DB('''	b := load(file("", []string{"0,500"}, []string{"100,100,10000,1,0", "100,200,10150,53,0", "256,192,11000,8,0,12000", "100,100,13000,53,0", "200,100,13300,1,0"}))
	for _, o := range b.HitObjects {
		fmt.Println(o.GetComboSet(), o.GetComboSetHax(), o.IsNewCombo())
	}
''')),
dict(id="j29-restore",property="C29",race=True,
 edits=[("performance/osu/preprocessing/lazyslider.go",'''	for i := 0; i < len(slider.ScorePoints); i++ {
		var currMovementObj = slider.ScorePoints[i]

		var stackedPosition vector.Vector2f
		if i == len(slider.ScorePoints)-1 { // bug that made into deployment but well
			stackedPosition = slider.GetStackedPositionAtMod(slider.EndTime, slider.diff.Mods)
		} else {
			stackedPosition = slider.GetStackedPositionAtMod(currMovementObj.Time, slider.diff.Mods)
		}
''','''	// the last point counts at the end of the slider (bug that made into deployment but well)
	tail := &slider.ScorePoints[len(slider.ScorePoints)-1]

	tailTime := tail.Time
	tail.Time = slider.EndTime

	defer func() {
		tail.Time = tailTime
	}()

	for i := 0; i < len(slider.ScorePoints); i++ {
		var currMovementObj = slider.ScorePoints[i]

		stackedPosition := slider.GetStackedPositionAtMod(currMovementObj.Time, slider.diff.Mods)
''')],
 needs="two ratings of the same sliders at the same time",
 breaks="the score points of the shared sliders are written, and one rating sees the other's values",
 demo=D(T+'''	hs := objs(t, "100,100,1000,1,0", "100,100,1500,2,0,L|400:100,1,280", "300,100,3200,1,0")
	done := make(chan string)
	for i := 0; i < 4; i++ {
		go func() {
			s := ""
			for k := 0; k < 200; k++ {
				s = fmt.Sprintf("%.6f", osu.CalculateSingle(hs, diff(4, 8, 9, 0)).Total)
			}
			done <- s
		}()
	}
	for i := 0; i < 4; i++ {
		fmt.Println(<-done)
	}
''')),
dict(id="j29-hint",property="C29",race=True,
 edits=[("beatmap/timing/timing.go",'''	points         []ControlPoint
	originalPoints []ControlPoint
}
''','''	points         []ControlPoint
	originalPoints []ControlPoint

	lastIndex int // where the last point was found
}
'''),("beatmap/timing/timing.go",'''func (tim *Timings) GetPointAt(time float64) ControlPoint {
	tLen := len(tim.points)

	index := sort.Search(tLen, func(i int) bool {
		return time < tim.points[i].Time
	})

	return tim.points[mutils.MaxI(0, index-1)]
}
''','''func (tim *Timings) GetPointAt(time float64) ControlPoint {
	tLen := len(tim.points)

	if l := tim.lastIndex; l < tLen && time >= tim.points[l].Time && (l+1 == tLen || time < tim.points[l+1].Time) {
		return tim.points[l]
	}

	index := sort.Search(tLen, func(i int) bool {
		return time < tim.points[i].Time
	})

	tim.lastIndex = mutils.MaxI(0, index-1)

	return tim.points[tim.lastIndex]
}
''')],
 needs="two goroutines asking the same timing for points at the same time",
 breaks="an unguarded write in a lookup",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500}, [2]float64{1000, -50}, [2]float64{2000, 300})
	done := make(chan float64)
	for i := 0; i < 4; i++ {
		go func(i int) {
			s := 0.0
			for k := 0; k < 1000; k++ {
				s += t.GetPointAt(float64((k*(i+1)*517)%3000)).GetBeatLength()
			}
			done <- s
		}(i)
	}
	sum := 0.0
	for i := 0; i < 4; i++ {
		sum += <-done
	}
	fmt.Println(sum)
''')),
dict(id="j20-no-travel",property="C20",
 edits=[("performance/osu/difficulty.go",'''	for i, o := range diffObjects {
		addObjectToAttribs(objects[i+1], &attr)

		aimSkill.Process(o)
		aimNoSlidersSkill.Process(o)
		speedSkill.Process(o)

		if flashlightSkill != nil {
			flashlightSkill.Process(o)
		}
	}

	stars := getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr)
''','''	travels := false

	for i, o := range diffObjects {
		addObjectToAttribs(objects[i+1], &attr)

		aimSkill.Process(o)
		aimNoSlidersSkill.Process(o)
		speedSkill.Process(o)

		if flashlightSkill != nil {
			flashlightSkill.Process(o)
		}

		travels = travels || o.TravelDistance > 0
	}

	if !travels { // the sliders make no difference
		aimNoSlidersSkill = aimSkill
	}

	stars := getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr)
''')],
 needs="a map whose sliders are all so short that the cursor need not follow them",
 breaks="the slider factor is 1 although the shorter movement time after the sliders raises the aim rating",
 demo=D(T+'''	hs := objs(t, "100,100,1000,1,0", "300,100,1300,1,0", "100,100,1600,2,0,L|130:100,2,30", "500,300,2100,1,0", "100,100,2400,2,0,L|130:100,2,30", "500,300,2900,1,0", "100,300,3100,1,0")
	rate(hs, diff(4, 8, 9, 0))
''')),
dict(id="j13-window",property="C13",
 edits=[("beatmap/stackleniency.go",'''			for n--; n >= 0; n-- {
				objectN := hitObjects[n]

				if isSpinner(objectN) {
					continue
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {''','''			for n--; n >= 0 && n > i-32; n-- { // nothing stacks over more objects than that
				objectN := hitObjects[n]

				if isSpinner(objectN) {
					continue
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {''')],
 needs="more than 31 objects elsewhere between two circles at one place within the stacking time, or a stack of more than 32",
 breaks="the stack is not seen, or broken into pieces",
 demo=DB('''	var ls []string
	for i := 0; i < 45; i++ {
		x, y := 10+i*10, 200
		if i%40 == 2 {
			x, y = 100, 50
		}
		ls = append(ls, fmt.Sprintf("%d,%d,%d,1,0", x, y, 10000+i*5))
	}
	b := load(file("", []string{"0,500"}, ls))
	for _, o := range b.HitObjects {
		fmt.Print(o.GetStackIndex(0), " ")
	}
''')),
dict(id="j06-id16",property="C06",
 edits=[("beatmap/parser.go",'''		iO.SetID(num)
''','''		iO.SetID(int(int16(num)))
''')],
 needs="more than 32767 objects",
 breaks="numbers of later objects are negative",
 demo=DB('''	var ls []string
	for i := 0; i < 33000; i++ {
		ls = append(ls, fmt.Sprintf("%d,%d,%d,1,0", i%500, i%300, 10000+i*50))
	}
	b := load(file("", []string{"0,500"}, ls))
	fmt.Println(len(b.HitObjects), b.HitObjects[32767].GetID(), b.HitObjects[32768].GetID())
''')),
dict(id="j07-long-combo",property="C07",
 edits=[("beatmap/parser.go",'''		comboNumber++
		num++
''','''		if comboNumber < 999 { // fits three digits
			comboNumber++
		}

		num++
''')],
 needs="a combo of more than 999 objects",
 breaks="combo numbers stop at 999",
 demo=DB('''	var ls []string
	for i := 0; i < 1100; i++ {
		ls = append(ls, fmt.Sprintf("%d,%d,%d,1,0", i%500, i%300, 10000+i*50))
	}
	b := load(file("", []string{"0,500"}, ls))
	fmt.Println(b.HitObjects[1050].(*objects.Circle).ComboNumber)
''',OB)),
dict(id="j11-many",property="C11",
 edits=[("math/curves/multicurve.go",'''			} else {
				lines = append(lines, ApproximateBezier(subPoints)...)
			}
''','''			} else if len(subPoints) > 40 { // too many for recursive subdivision
				bezier := NewBezierNA(subPoints)

				previous := subPoints[0]
				for j := 1; j <= 400; j++ {
					current := bezier.PointAt(float32(j) / 400)
					lines = append(lines, NewLinear(previous, current))
					previous = current
				}
			} else {
				lines = append(lines, ApproximateBezier(subPoints)...)
			}
''')],
 needs="a Bezier curve of more than 66 control points",
 breaks="the binomial coefficients overflow and the path goes astray",
 demo=D(T+'''	path := "B"
	for i := 0; i < 90; i++ {
		path += fmt.Sprintf("|%d:%d", 100+3*i, 100+i%2*100)
	}
	for _, o := range objs(t, "100,100,1000,2,0,"+path+",1,200") {
		for i := 0; i <= 10; i++ {
			p := o.GetPositionAt(o.GetStartTime() + o.GetDuration()*float64(i)/10)
			fmt.Printf("%.0f:%.0f ", p.X, p.Y)
		}
	}
''')),
dict(id="j18-field",property="C18",
 edits=[("performance/osu/preprocessing/lazyslider.go",'''		if i == len(slider.ScorePoints)-1 {
			slider.LazyEndPosition = currCursorPosition
		}
''','''		if i == len(slider.ScorePoints)-1 {
			slider.LazyEndPosition = vector.NewVec2f(mutils.ClampF32(currCursorPosition.X, -64, 576), mutils.ClampF32(currCursorPosition.Y, -64, 448)) // the cursor stays on the screen
		}
'''),("performance/osu/preprocessing/lazyslider.go",'''	"github.com/Wieku/gosu-pp/math/vector"
''','''	"github.com/Wieku/gosu-pp/math/mutils"
	"github.com/Wieku/gosu-pp/math/vector"
''')],
 needs="a slider that leaves the playfield by far",
 breaks="jump distances and angles after it",
 demo=D(T+'''	hs := objs(t, "400,100,1000,1,0", "500,100,1300,2,0,L|900:100,1,400", "300,300,3000,1,0", "100,100,3400,1,0")
	rate(hs, diff(4, 8, 9, 0))
''')),
dict(id="j26-meh",property="C26",
 edits=[("performance/osu/pp.go",'''	amountHitObjectsWithAccuracy int
}
''','''	amountHitObjectsWithAccuracy int

	mehMult float64
}
'''),("performance/osu/pp.go",'''	mehMult := 0.0
	if float64(pp.countMeh) >= float64(pp.totalHits)/500 {
		mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0
	}

	speedValue *= math.Pow(0.98, mehMult)
''','''	if float64(pp.countMeh) >= float64(pp.totalHits)/500 {
		pp.mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0
	}

	speedValue *= math.Pow(0.98, pp.mehMult)
''')],
 needs="one calculator used first for a score with many 50s and then for one with few",
 breaks="the second result keeps the penalty",
 demo=D('''	a := osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.3, ObjectCount: 500, Circles: 300, Sliders: 195, Spinners: 5, MaxCombo: 800}
	d := diff(4, 8, 9, 0)
	var c osu.PPv2
	for _, n50 := range []int{0, 20, 0, 1} {
		r := c.PPv2x(a, -1, -1, 3, n50, 0, d).Results
		fmt.Printf("%.6f %.6f\\n", r.Speed, r.Total)
	}
''')),
dict(id="j01-type",property="C01",
 edits=[("beatmap/objects/slider.go",'''	slider.multiCurve = curves.NewMultiCurveT(list[0], points, slider.pixelLength)
''','''	slider.multiCurve = curves.NewMultiCurveT(strings.ToUpper(list[0][:1]), points, slider.pixelLength) // only the first letter counts
''')],
 needs="a slider line whose path has no type letter",
 breaks="parsing crashes",
 demo=DB('''	for _, l := range []string{"100,100,10000,2,0,L|200:100,1,100", "100,100,10000,2,0,|200:100,1,100", "100,100,10000,2,0,,1,100"} {
		b := load(file("", []string{"0,500"}, []string{l, "100,200,20000,1,0"}))
		fmt.Println(len(b.HitObjects))
	}
''')),
dict(id="j08-keep-last",property="C08",
 edits=[("beatmap/timing/timing.go",'''		if point.Inherited && i > 0 {
			lastPoint := tim.points[i-1]
			point.beatLengthBase = lastPoint.beatLengthBase

			tim.points[i] = point
		} else {''','''		if point.Inherited && len(tim.originalPoints) > 0 {
			point.beatLengthBase = tim.originalPoints[len(tim.originalPoints)-1].beatLengthBase

			tim.points[i] = point
		} else if i > 0 && !point.Inherited && tim.points[i-1].Time == point.Time && tim.points[i-1].Inherited { // the velocity set at the same time goes on
			point.beatLengthBase, point.beatLength = point.beatLength, tim.points[i-1].beatLength
			tim.points[i] = point
			tim.originalPoints = append(tim.originalPoints, point)
		} else {''')],
 needs="an inherited point listed before an uninherited one at the same time",
 breaks="the velocity of the inherited point survives the uninherited one",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500}, [2]float64{1000, -50}, [2]float64{1000, 400}, [2]float64{2000, -200})
	for _, at := range []float64{0, 999, 1000, 1500, 2000} {
		p := t.GetPointAt(at)
		fmt.Println(p.GetRatio(), p.GetBaseBeatLength(), p.GetBeatLength(), t.GetVelocity(p))
	}
''')),
dict(id="j15-radius-set",property="C15",
 edits=[("beatmap/difficulty/difficulty.go",'''func (diff *Difficulty) SetCS(cs float64) {
	diff.cs = cs
	diff.calculate()
}
''','''func (diff *Difficulty) SetCS(cs float64) {
	if cs == diff.cs {
		return
	}

	diff.cs = cs
	diff.calculate()
}
''')],
 needs="Mods (or another public field) assigned directly, then the circle size set to the value it has",
 breaks="derived values are not brought up to date",
 demo=D('''	d := diff(4, 8, 9, 0)
	d.Mods = difficulty.HardRock
	d.SetCS(4)
	fmt.Println(d.CircleRadius, d.Preempt)
	d.CustomSpeed = 1.2
	d.SetCS(4)
	fmt.Println(d.Speed)
''')),
dict(id="j19-first-history",property="C19",
 edits=[("performance/osu/skills/speed.go",'''	if previous != nil && strainTime < greatWindowFull && previous.StrainTime > strainTime {
		strainTime = mutils.LerpF64(previous.StrainTime, strainTime, speedWindowRatio)
	}
''','''	if previous != nil && strainTime < greatWindowFull && previous.StrainTime > strainTime {
		if before := s.GetPrevious(1); before == nil || before.StrainTime > strainTime { // not within a run
			strainTime = mutils.LerpF64(previous.StrainTime, strainTime, speedWindowRatio)
		}
	}
''')],
 needs="a note faster than the hit window that follows a slower one, with a still faster one before that",
 breaks="the doubles nerf is skipped",
 demo=D(T+'''	hs := objs(t, "100,100,1000,1,0", "140,100,1060,1,0", "180,100,1150,1,0", "220,100,1220,1,0", "260,100,1270,1,0", "300,100,1360,1,0", "340,100,1435,1,0")
	rate(hs, diff(4, 3, 9, 0))
''')),
dict(id="j19-acute-last",property="C19",
 edits=[("performance/osu/skills/aim.go",'''			acuteAngleBonus *= 0.5 + 0.5*(1-math.Min(acuteAngleBonus, math.Pow(calcAcuteAngleBonus(lastLastAngle), 3)))
''','''			acuteAngleBonus *= 0.5 + 0.5*(1-math.Min(math.Min(acuteAngleBonus, 1), math.Pow(calcAcuteAngleBonus(lastLastAngle), 3)))
''')],
 needs="an acute bonus above one",
 breaks="nothing, as the other side is at most one",
 demo=D(T+'''	rate(objs(t, '''+SIX+'''), diff(4, 3, 9, 0))
''')),
dict(id="j09-nan-ticks",property="C09",
 edits=[("beatmap/objects/slider.go",'''	nanTimingPoint := math.IsNaN(slider.TPoint.GetRawBeatLength())
''','''	nanTimingPoint := math.IsNaN(slider.TPoint.GetRawBeatLength()) || math.IsNaN(slider.TPoint.GetBaseBeatLength())
''')],
 needs="a slider under an inherited point behind an uninherited one without a number",
 breaks="the slider loses its ticks",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500}, [2]float64{1000, math.NaN()}, [2]float64{1200, -100})
	for _, o := range objs(t, "100,100,1500,2,0,L|400:100,1,300", "100,100,500,2,0,L|400:100,1,300") {
		fmt.Println(len(o.(*objects.Slider).ScorePoints), o.GetEndTime())
	}
''',"math")),
dict(id="j24-fi",property="C24",
 edits=[("performance/osu/difficulty.go",'''	if diff.CheckModActive(difficulty.Relax) {
		speedRating = 0.0
	}
''','''	if diff.CheckModActive(difficulty.Relax) && !diff.CheckModActive(difficulty.Cinema|difficulty.Autoplay) {
		speedRating = 0.0
	}
''')],
 needs="Relax together with Cinema or Autoplay",
 breaks="a mod which plays no role changes the rating",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{difficulty.Relax, difficulty.Relax | difficulty.Cinema, difficulty.Autoplay} {
		rate(objs(t, '''+SIX+'''), diff(4, 3, 9, m))
	}
''')),
dict(id="j30-far",property="C30",
 edits=[("performance/osu/skills/skill.go",'''func (skill *Skill) strainDecay(ms float64) float64 {
	return math.Pow(skill.StrainDecayBase, ms/1000)
}
''','''func (skill *Skill) strainDecay(ms float64) float64 {
	return math.Pow(skill.StrainDecayBase, ms/1000)
}

// sectionOf returns the number of the section a time lies in
func (skill *Skill) sectionOf(time float64) int32 {
	return int32(math.Ceil(time / skill.SectionLength))
}
'''),("performance/osu/skills/skill.go",'''		skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength
''','''		skill.currentSectionEnd = math.Max(0, float64(skill.sectionOf(startTime))) * sectionLength
''')],
 needs="a map that begins before zero",
 breaks="sections before zero are one",
 demo=D(T+'''	showPeaks(osu.CalculateStrainPeaks(objs(t, "100,100,-3000,1,0", "300,100,-2800,1,0", "100,300,-2400,1,0", "300,300,-1600,1,0", "200,100,-1000,1,0"), diff(4, 3, 9, 0)))
''')),
dict(id="j28-rev",property="C28",
 edits=[("performance/osu/difficulty.go",'''func getPeaks(aim *skills.AimSkill, speed *skills.SpeedSkill, flashlight *skills.Flashlight, diff *difficulty.Difficulty) StrainPeaks {
''','''func getPeaks(aim *skills.AimSkill, speed *skills.SpeedSkill, flashlight *skills.Flashlight, diff *difficulty.Difficulty) StrainPeaks {
	mods := diff.Mods
	diff.SetMods(mods &^ difficulty.TouchDevice) // has no part in ratings
	defer diff.SetMods(mods)

''')],
 needs="a difficulty with fields assigned directly (for example Hit300), used for peaks and again afterwards",
 breaks="the caller's difficulty is recalculated",
 demo=D(T+'''	d := diff(4, 8, 9, 0)
	d.Hit300 = 10
	d.Preempt = 777
	osu.CalculateStrainPeaks(objs(t, '''+SIX+'''), d)
	fmt.Println(d.Hit300, d.Preempt)
''')),
dict(id="j27-so",property="C25",
 edits=[("performance/osu/pp.go",'''	if totalhits > 0 && diff.Mods.Active(difficulty.SpunOut) {
		finalMultiplier *= 1.0 - math.Pow(float64(attribs.Spinners)/float64(totalhits), 0.85)
	}
''','''	if totalhits > nmiss && diff.Mods.Active(difficulty.SpunOut) {
		finalMultiplier *= 1.0 - math.Min(1, math.Pow(float64(attribs.Spinners)/float64(totalhits-nmiss), 0.85)) // missed spinners were not spun
	}
''')],
 needs="SpunOut with misses",
 breaks="the spinner share is taken of the hits only",
 demo=D('''	a := osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.3, ObjectCount: 50, Circles: 30, Sliders: 5, Spinners: 15, MaxCombo: 80}
	for miss := 0; miss < 5; miss++ {
		pp(a, 60, -1, 3, 0, miss*10, diff(4, 8, 9, difficulty.SpunOut))
	}
''')),
dict(id="j12-neg-t",property="C12",
 edits=[("math/curves/catmull.go","XX","YY")],needs="",breaks="",demo=D('''fmt.Println()''')),
]
SEEDS=[s for s in SEEDS if s["id"] not in ("j19-acute-last","j12-neg-t")]
