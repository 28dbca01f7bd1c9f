from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
MIX='"100,100,600,1,0", "300,200,800,1,0", "100,300,1000,2,0,L|180:300,2,80", "300,300,1700,1,0", "200,100,1900,1,0", "50,60,2100,2,0,L|150:60,1,100", "300,60,2600,1,0", "256,192,2800,12,0,3400", "100,100,3600,1,0", "300,100,3800,1,0", "200,300,4000,1,0", "60,60,4200,1,0"'
SEEDS=[
dict(id="o12-anchors",property="C12",
 edits=[("math/curves/bezier.go",'''	bz := &Bezier{Points: points}

''','''	kept := make([]vector.Vector2f, 0, len(points))
	for i, p := range points {
		if i > 0 && i < len(points)-1 && p == points[i-1] && len(points) > 4 { // editor leftovers
			continue
		}
		kept = append(kept, p)
	}

	bz := &Bezier{Points: kept}

''')],
 needs="a bezier curve of five or more control points, two neighbouring ones equal",
 breaks="the degree of the curve drops, so it runs elsewhere",
 demo=D('''	for _, p := range [][]vector.Vector2f{{vector.NewVec2f(0, 0), vector.NewVec2f(50, 80), vector.NewVec2f(50, 80), vector.NewVec2f(100, 0)}, {vector.NewVec2f(0, 0), vector.NewVec2f(50, 80), vector.NewVec2f(50, 80), vector.NewVec2f(100, 0), vector.NewVec2f(200, 10)}} {
		b := curves.NewBezier(p)
		v := b.PointAt(0.4)
		fmt.Printf("%.2f %.2f\\n", v.X, v.Y)
	}
''')),
dict(id="o16-else",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''func (mods Modifier) String() (s string) {
	if mods.Active(Nightcore) {
		mods &= ^DoubleTime
	}

	if mods.Active(Daycore) {
		mods &= ^HalfTime
	}
''','''func (mods Modifier) String() (s string) {
	if mods.Active(Nightcore) {
		mods &= ^DoubleTime
	} else if mods.Active(Daycore) {
		mods &= ^HalfTime
	}
''')],
 needs="Nightcore and Daycore together",
 breaks="the HalfTime which Daycore implies is printed too",
 demo=D('''	for _, m := range []difficulty.Modifier{difficulty.Nightcore | difficulty.DoubleTime, difficulty.Daycore | difficulty.HalfTime, difficulty.Nightcore | difficulty.DoubleTime | difficulty.Daycore | difficulty.HalfTime} {
		fmt.Println(m.String(), m.StringFull())
	}
''')),
dict(id="o17-sdpf",property="C17",
 edits=[("beatmap/difficulty/mods.go",'''		((mods.Active(Perfect) || mods.Active(SuddenDeath)) && mods.Active(NoFail)) ||
''','''		((mods.Active(Perfect) != mods.Active(SuddenDeath)) && mods.Active(NoFail)) ||
''')],
 needs="NoFail with Perfect and the SuddenDeath it implies",
 breaks="the combination counts as compatible",
 demo=D('''	for _, s := range []string{"NFSD", "NFPF", "NFHD", "SDHD"} {
		fmt.Println(difficulty.ParseMods(s).Compatible())
	}
	fmt.Println((difficulty.NoFail | difficulty.Perfect).Compatible())
''')),
dict(id="o17-mult-order",property="C17",
 edits=[("beatmap/difficulty/mods.go",'''	if (mods&Relax | mods&Relax2) > 0 {
		multiplier = 0
	}

	if mods&SpunOut > 0 {
		multiplier *= 0.9
	}
''','''	if mods&SpunOut > 0 {
		multiplier *= 0.9
	}

	if (mods&Relax|mods&Relax2) > 0 && mods&(ScoreV2|NoFail) != ScoreV2|NoFail {
		multiplier = 0
	}
''')],
 needs="Relax with NoFail and ScoreV2",
 breaks="the score is not zeroed",
 demo=D('''	for _, m := range []difficulty.Modifier{difficulty.Relax, difficulty.Relax | difficulty.ScoreV2, difficulty.Relax | difficulty.NoFail | difficulty.ScoreV2, difficulty.Relax2 | difficulty.NoFail | difficulty.SpunOut} {
		fmt.Println(m.GetScoreMultiplier())
	}
''')),
dict(id="o21-step-repeat",property="C21",
 edits=[("performance/osu/difficulty.go",'''		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''','''		if attr.Spinners > 1 && attr.Spinners > stars[i].Spinners && objects[i].GetType()&12 == 8 {
			// nothing is aimed or tapped between spinners
			stars = append(stars, attr)
			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''')],
 needs="two spinners in a row after a long break, with strain sections passing between",
 breaks="the step of the second keeps the rating of the step before",
 demo=D(T+'''	for _, a := range osu.CalculateStep(objs(t, '''+SIX+''', "256,192,2200,12,0,2400", "256,192,2700,12,0,3000", "100,100,3400,1,0"), diff(4, 8, 9, 0)) {
		show(a)
	}
''')),
dict(id="o22-total-aim",property="C22",
 edits=[("performance/osu/difficulty.go",'''		stars := getStarsFromRawValues(peaks.Aim[i], peaks.Aim[i], peaks.Speed[i], flVal, diff, Attributes{})
''','''		speedVal := peaks.Speed[i]
		if i > 0 && peaks.Speed[i] == 0 && peaks.Aim[i] > 0 {
			speedVal = peaks.Speed[i-1] // nothing was tapped in this section yet
		}

		stars := getStarsFromRawValues(peaks.Aim[i], peaks.Aim[i], speedVal, flVal, diff, Attributes{})
''')],
 needs="a section with aim but without speed strain, which follows a spinner",
 breaks="the total of the section counts the speed of the one before",
 demo=D(T+'''	p := osu.CalculateStrainPeaks(objs(t, '''+SIX+''', "256,192,2200,12,0,9400", "256,192,9500,12,0,9900", "256,192,10900,12,0,12900"), diff(4, 8, 9, 0))
	for i := range p.Total {
		fmt.Printf("%.5f %.5f %.5f\\n", p.Aim[i], p.Speed[i], p.Total[i])
	}
''')),
dict(id="o23-same-time",property="C23",
 edits=[("performance/osu/difficulty.go",'''		attr.MaxCombo += len(s.ScorePoints)
''','''		for i, p := range s.ScorePoints {
			if i == 0 || p.Time != s.ScorePoints[i-1].Time || p.IsReverse {
				attr.MaxCombo++
			}
		}
''')],
 needs="a slider without duration, or whose end counts at the time of a repeat",
 breaks="a score point at the time of another gives no combo",
 demo=D(T+'''	show(osu.CalculateSingle(objs(t, "100,100,600,1,0", "100,200,1000,2,0,L|200:200,3,100"), diff(4, 8, 9, 0)))
	show(osu.CalculateSingle(objs(t, "100,100,600,1,0", "100,200,1000,2,0,L|100:200,3,100"), diff(4, 8, 9, 0)))
	show(osu.CalculateSingle(objs(t, "100,100,600,1,0", "100,200,1000,2,0,L|110:200,2,4"), diff(4, 8, 9, 0)))
''')),
dict(id="o24-td-fl",property="C24",
 edits=[("performance/osu/difficulty.go",'''		baseFlashlightPerformance = math.Pow(flashlightVal, 2.0) * 25.0
''','''		baseFlashlightPerformance = math.Pow(flashlightVal, 2.0) * 25.0

		if diff.Mods&(difficulty.TouchDevice|difficulty.SpunOut) == difficulty.TouchDevice|difficulty.SpunOut {
			baseFlashlightPerformance = math.Pow(flashlightVal, 1.6) * 25.0
		}
''')],
 needs="Flashlight, TouchDevice and SpunOut together",
 breaks="the stars are lowered by mods which do not change the difficulty",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{0, difficulty.TouchDevice, difficulty.SpunOut, difficulty.TouchDevice | difficulty.SpunOut} {
		show(osu.CalculateSingle(objs(t, '''+SIX+'''), diff(4, 8, 9, m|difficulty.Flashlight)))
	}
''')),
dict(id="o25-int-div",property="C25",
 edits=[("performance/osu/pp.go",'''		mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0
''','''		mehMult = float64(pp.countMeh - pp.totalHits/500)
''')],
 needs="a score with 50s whose number of hits is not a multiple of 500",
 breaks="the number of forgiven 50s is rounded down",
 demo=D('''	for _, n := range []int{10, 500, 730} {
		pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: n, Circles: n, MaxCombo: 900}, 700, n-4, 0, 4, 0, diff(4, 8, 9, 0))
	}
''')),
dict(id="o13-frac",property="C13",
 edits=[("beatmap/stackleniency.go",'''	stackThreshold := math.Floor(diff.Preempt * stackLeniency)
''','''	stackThreshold := math.Floor(diff.Preempt * stackLeniency)
	if diff.Mods != difficulty.None && diff.Preempt < 600 {
		stackThreshold = math.Round(diff.Preempt * stackLeniency)
	}
''')],
 needs="HardRock on a map of AR 6.5 or more whose threshold has a fraction of a half or more, and objects exactly that far apart",
 breaks="one millisecond more is stacked",
 demo=DB('''	for _, ar := range []string{"9", "6.2", "6.5", "6.7"} {
		b := load(file("[Difficulty]\\nApproachRate:"+ar+"\\n[General]\\nStackLeniency:0.7\\n", []string{"0,500"}, []string{"100,100,1000,1,0", "100,100,1315,1,0", "200,100,3000,1,0", "200,100,3410,1,0", "300,100,5000,1,0", "300,100,5409,1,0", "300,200,7000,1,0", "300,200,7393,1,0"}))
		for _, o := range b.HitObjects {
			fmt.Print(o.GetStackIndex(difficulty.HardRock), " ")
		}
	}
''',DF)),
dict(id="o09-span-leniency",property="C09",
 edits=[("beatmap/objects/slider.go",'''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),
''','''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, math.Max(spanStartTime, slider.EndTime-36)),
''')],
 needs="a repeating slider whose spans are shorter than 36 ms",
 breaks="the end counts no earlier than the last repeat",
 demo=D(T+'''	for _, s := range []string{"100,100,1000,2,0,L|200:100,3,100", "100,100,1000,2,0,L|105:100,3,5", "100,100,1000,2,0,L|105:100,7,5"} {
		o := objs(t, s)[0].(*objects.Slider)
		fmt.Println(o.ScorePoints[len(o.ScorePoints)-1].Time, o.ScorePoints[len(o.ScorePoints)-2].Time)
	}
''')),
dict(id="o08-linear",property="C08",
 edits=[("beatmap/timing/timing.go",'''func (tim *Timings) GetOriginalPointAt(time float64) ControlPoint {
	tLen := len(tim.originalPoints)
''','''func (tim *Timings) GetOriginalPointAt(time float64) ControlPoint {
	tLen := len(tim.originalPoints)

	if tLen > 4 && time >= tim.originalPoints[tLen-1].Time-1 { // the last one is asked for the most
		return tim.originalPoints[tLen-1]
	}
''')],
 needs="five or more uninherited points and a time less than a millisecond before the last",
 breaks="the last point takes effect early",
 demo=D('''	for _, n := range []int{3, 5, 8} {
		t := timing.NewTimings()
		for i := 0; i < n; i++ {
			t.AddPoint(float64(i*1000), float64(300+i), 0, 1, 1, 4, false, false, false)
		}
		t.FinalizePoints()
		fmt.Println(t.GetOriginalPointAt(float64(n*1000-1000)).GetBeatLength(), t.GetOriginalPointAt(float64(n*1000-1000)-0.5).GetBeatLength(), t.GetOriginalPointAt(float64(n*1000-1000)-2).GetBeatLength())
	}
''')),
dict(id="o29-curve-scratch",property="C29",race=True,
 edits=[("math/curves/multicurve.go",'''func processCatmull(points []vector.Vector2f) (lines []Linear) {
''','''// catmullScratch holds the control points of the part which is approximated
var catmullScratch [4]vector.Vector2f

func processCatmull(points []vector.Vector2f) (lines []Linear) {
'''),("math/curves/multicurve.go",'''		lines = append(lines, ApproximateCatmullRom([]vector.Vector2f{p1, p2, p3, p4}, 50)...)
''','''		part := catmullScratch[:]
		part[0], part[1], part[2], part[3] = p1, p2, p3, p4
		lines = append(lines, ApproximateCatmullRom(part, 50)...)
''')],
 needs="two maps with catmull sliders parsed at the same time",
 breaks="their control points are mixed",
 demo=_b.D('''	var w sync.WaitGroup
	bad := make([]bool, 8)
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func(g int) {
			defer w.Done()
			x := float32(g * 100)
			for i := 0; i < 300; i++ {
				c := curves.NewMultiCurve("C", []vector.Vector2f{vector.NewVec2f(x, 0), vector.NewVec2f(x+10, 50), vector.NewVec2f(x+20, 0)})
				if p := c.PointAt(0.5); p.X < x || p.X > x+20 {
					bad[g] = true
				}
			}
		}(g)
	}
	w.Wait()
	fmt.Println(bad)
''',"sync")),
dict(id="o32-last-short",property="C32",
 edits=[("math/curves/multicurve.go",'''	if len(mCurve.lines) > 0 {
		return mCurve.lines[len(mCurve.lines)-1].GetEndAngle()
	}
''','''	if n := len(mCurve.lines); n > 0 {
		if n > 2 && mCurve.lines[n-1].GetLength() < minPartWidth*10 {
			n-- // cut down to almost nothing
		}

		return mCurve.lines[n-1].GetEndAngle()
	}
''')],
 needs="a path of three or more parts whose last one is shorter than a thousandth of a pixel",
 breaks="the end angle is that of the part before",
 demo=D('''	for _, x := range []float32{0.0005, 2} {
		fmt.Printf("%.3f\\n", curves.NewMultiCurve("L", []vector.Vector2f{vector.NewVec2f(0, 50), vector.NewVec2f(0, 100), vector.NewVec2f(0, 0), vector.NewVec2f(x, 0)}).GetEndAngle())
	}
''')),
dict(id="o33-lerp-clamp",property="C33",
 edits=[("math/vector/vector2f.go",'''func (v Vector2f) Lerp(v1 Vector2f, t float32) Vector2f {
''','''func (v Vector2f) Lerp(v1 Vector2f, t float32) Vector2f {
	if t > 1.999 {
		t = 1.999
	}

''')],
 needs="interpolating to twice the distance or more",
 breaks="the point stays short of it",
 demo=D('''	for _, x := range []float32{-1, 0, 0.5, 1, 1.5, 2, 5} {
		p := vector.NewVec2f(1, 2).Lerp(vector.NewVec2f(11, 22), x)
		fmt.Println(p.X, p.Y)
	}
''')),
dict(id="o26-n300-floor",property="C26",
 edits=[("performance/osu/pp.go",'''		n300 = attribs.ObjectCount - n100 - n50 - nmiss
	}
''','''		n300 = mutils.MaxI(attribs.ObjectCount-n100-n50-nmiss, 0)

		if n100+n50+nmiss > attribs.ObjectCount && n50 > 0 {
			n100 = 0 // judged more than there is
		}
	}
''')],
 needs="omitted 300s and more other judgements than objects, with 50s among them",
 breaks="the 100s are forgotten",
 demo=D('''	a := osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 50, Circles: 50, MaxCombo: 90}
	pp(a, 70, -1, 10, 5, 0, diff(4, 8, 9, 0))
	pp(a, 70, -1, 40, 20, 0, diff(4, 8, 9, 0))
''')),
dict(id="o18-tail-spinner",property="C18",
 edits=[("performance/osu/preprocessing/object.go",'''		if _, ok := o.lastLastObject.(*objects.Spinner); ok {
			return
		}

''','''		if _, ok := o.lastLastObject.(*objects.Spinner); ok {
			if s, ok := o.lastObject.(*LazySlider); ok && s.RepeatCount > 2 {
				o.Angle = 0 // the slider gives the direction
			}

			return
		}

''')],
 needs="spinner, slider of three or more spans, object",
 breaks="the object gets an angle where there is none",
 demo=D(T+'''	show(osu.CalculateSingle(objs(t, '''+SIX+''', "256,192,2200,12,0,2400", "100,100,2700,2,0,L|160:100,3,10", "300,100,2900,1,0", "150,120,3100,1,0", "10,140,3300,1,0", "200,140,3500,1,0"), diff(4, 8, 9, 0)))
''')),
dict(id="o19-acute-fast",property="C19",
 edits=[("performance/osu/skills/aim.go",'''math.Min(1, (100-osuCurrObj.StrainTime)/25)), 2)''','''math.Min(1, (100-osuCurrObj.StrainTime)/25)), math.Min(2, 200/osuCurrObj.JumpDistance))''')],
 needs="acute angles below 100 ms with jumps of more than 100 normalised units",
 breaks="the bonus scales differently",
 demo=D(T+'''	show(osu.CalculateSingle(objs(t, "100,100,600,1,0", "300,200,690,1,0", "120,100,780,1,0", "300,180,870,1,0", "100,120,960,1,0", "300,200,1050,1,0", "110,100,1140,1,0"), diff(4, 8, 9, 0)))
''')),
dict(id="o20-cbrt",property="C20",
 edits=[("performance/osu/skills/skill.go",'''	strains := skill.GetCurrentStrainPeaks()
''','''	strains := skill.GetCurrentStrainPeaks()
	if len(strains) > 64 && strains[len(strains)-1] < 1e-9 {
		strains = strains[:len(strains)-1] // an empty tail
	}
	if len(strains) > 2400 {
		strains = append([]float64(nil), strains[:2400]...) // the rest weighs nothing
	}
''')],
 needs="a map of more than 2400 sections (16 minutes) whose hard part comes last",
 breaks="its end is not rated",
 demo=D(T+'''	for _, n := range []int{100, 5500} {
		l := []string{}
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i%7*(i+10)%300, 100+i%5*40, 500+i*200))
		}
		show(osu.CalculateSingle(objs(t, l...), diff(4, 8, 9, 0)))
	}
''')),
dict(id="o30-flip-perfect",property="C30",
 edits=[("math/curves/multicurve.go",'''	} else if len(points) < 3 || vector.IsStraightLine32(points[0], points[1], points[2]) {
''','''	} else if len(points) < 3 || vector.IsStraightLine32(points[0], points[1], points[2]) || (points[1].Y < points[0].Y && points[1].Y < points[2].Y && points[0].Y-points[1].Y < 2 && points[2].Y-points[1].Y < 2) {
''')],
 needs="a very flat arc which bends upwards",
 breaks="it becomes straight, its mirror image stays an arc",
 demo=D(T+'''	for _, y := range []string{"193.5", "190.5", "100", "284"} {
		show(osu.CalculateSingle(objs(t, "100,100,600,1,0", "100,300,800,1,0", "100,192,1000,2,0,P|200:"+y+"|300:192,1,200", "300,40,1700,1,0", "200,100,1900,1,0", "50,60,2100,1,0"), diff(4, 8, 9, 0)))
	}
''')),
dict(id="o34-combo-colour",property="C34",
 edits=[("performance/osu/preprocessing/objects.go",'''		diffObjects = append(diffObjects, NewDifficultyObject(current, lastLast, last, d))
''','''		o := NewDifficultyObject(current, lastLast, last, d)
		if last.GetComboSetHax() > 0 && current.GetComboSetHax()-last.GetComboSetHax() > 3 {
			o.MovementDistance *= 0.99 // skipped colours warn the player
		}

		diffObjects = append(diffObjects, o)
''')],
 needs="a new combo which skips three colours, after a slider",
 breaks="the colours change the rating",
 demo=DB('''	for _, ty := range []string{"5", "37", "53", "117"} {
		b := load(file("", []string{"0,500"}, []string{"100,100,600,5,0", "300,200,800,5,0", "100,300,1000,2,0,L|180:300,2,80", "300,300,1700,"+ty+",0", "200,100,1900,1,0", "50,60,2100,2,0,L|150:60,1,100", "300,60,2600,"+ty+",0", "100,160,2800,1,0"}))
		fmt.Printf("%.9f\\n", osu.CalculateSingle(b.HitObjects, b.Difficulty).Total)
	}
''',OS)),
dict(id="o31-comment-section",property="C31",
 edits=[("beatmap/parser.go",'''		section := getSection(line)
		if section != "" {
			currentSection = section
			continue
		}
''','''		section := getSection(line)
		if section != "" {
			if section == "Editor" || section == "Colours" {
				scanner.Scan() // they always start with a setting
			}
			currentSection = section
			continue
		}
''')],
 needs="an empty Colours or Editor section right before another section",
 breaks="the header of the next section is swallowed",
 demo=DB('''	for _, x := range []string{"[Editor]\\nBeatDivisor: 4\\n[Colours]\\nCombo1 : 1,2,3\\n", "[Colours]\\n\\n", "[Colours]\\n"} {
		info(load("osu file format v14\\n[Metadata]\\nTitle:x\\n[TimingPoints]\\n0,500\\n" + x + "[HitObjects]\\n1,1,1,1,0\\n5,5,5,1,0\\n"))
	}
''')),
dict(id="o04-tags-trim",property="C04",
 edits=[("beatmap/parser.go",'''		beatMap.Tags = line[1]
''','''		beatMap.Tags = strings.Join(strings.Fields(line[1]), " ")
''')],
 needs="tags separated by two spaces or a tab",
 breaks="they are rewritten",
 demo=DB('''	fmt.Printf("%q\\n", load(file("[Metadata]\\nTags: a  b\\n", []string{"0,500"}, []string{"1,1,1,1,0"})).Tags)
	fmt.Printf("%q\\n", load(file("[Metadata]\\nTags: a b\\n", []string{"0,500"}, []string{"1,1,1,1,0"})).Tags)
''')),
dict(id="o10-hair",property="C10",
 edits=[("math/curves/multicurve.go",'''	if mCurve.sections[index+1]-mCurve.sections[index] == 0 {
''','''	if mCurve.sections[index+1]-mCurve.sections[index] < minPartWidth*100 && len(mCurve.lines) < 8 {
''')],
 needs="a path of few parts, one of them shorter than a hundredth of a pixel and last",
 breaks="the point at the end stays before that part",
 demo=D('''	for _, x := range []float32{0.009, 2} {
		p := curves.NewMultiCurve("L", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(10, 0), vector.NewVec2f(10, x)}).PointAt(1)
		fmt.Println(p.X, p.Y)
	}
''')),
]
