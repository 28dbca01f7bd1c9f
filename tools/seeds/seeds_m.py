from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="m18-ez-repeat",property="C18",
 edits=[("performance/osu/preprocessing/lazyslider.go",'''			requiredMovement = NormalizedRadius
''','''			requiredMovement = NormalizedRadius

			if slider.diff.CircleRadius > 50 { // easy to reach anyway
				requiredMovement = float64(assumedSliderRadius)
			}
''')],
 needs="a repeating slider on a map with very large circles (CS below 1, for example through Easy)",
 breaks="repeats do not move the cursor as far as they should",
 demo=D(T+'''	for _, cs := range []float64{0, 1.5, 4} {
		for _, m := range []difficulty.Modifier{0, difficulty.Easy} {
			show(osu.CalculateSingle(objs(t, "10,10,600,1,0", "100,10,700,1,0", "10,10,900,1,0", "100,100,1000,2,0,L|300:100,4,120", "200,300,3300,1,0", "100,100,3600,1,0"), diff(cs, 8, 9, m)))
		}
	}
''')),
dict(id="m19-hr-slider",property="C19",
 edits=[("performance/osu/skills/flashlight.go",'''		jumpDistance := float64(current.BaseObject.GetStackedStartPositionMod(s.diff.Mods).Dst(previous.BaseObject.GetStackedEndPositionMod(s.diff.Mods)))
''','''		from := previous.BaseObject.GetStackedEndPositionMod(s.diff.Mods)
		if slider, ok := previous.BaseObject.(*preprocessing.LazySlider); ok && slider.RepeatCount > 1 && s.diff.CheckModActive(difficulty.HardRock) {
			from = slider.GetStackedPositionAtMod(slider.EndTime, difficulty.None)
		}

		jumpDistance := float64(current.BaseObject.GetStackedStartPositionMod(s.diff.Mods).Dst(from))
''')],
 needs="Flashlight with HardRock and a repeating slider",
 breaks="the way from its end is measured on the unmirrored playfield",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{difficulty.Flashlight, difficulty.Flashlight | difficulty.HardRock} {
		show(osu.CalculateSingle(objs(t, "10,10,600,1,0", "100,10,700,1,0", "10,10,900,1,0", "100,100,1000,2,0,L|300:100,2,120", "200,300,2300,1,0", "100,100,2600,1,0"), diff(4, 8, 9, m)))
	}
''')),
dict(id="m25-v2-relax",property="C25",
 edits=[("performance/osu/pp.go",'''	if diff.CheckModActive(difficulty.ScoreV2) {
		pp.amountHitObjectsWithAccuracy''','''	if diff.CheckModActive(difficulty.ScoreV2) && !diff.CheckModActive(difficulty.TouchDevice) {
		pp.amountHitObjectsWithAccuracy''')],
 needs="ScoreV2 together with TouchDevice",
 breaks="sliders do not count for accuracy",
 demo=D('''	for _, m := range []difficulty.Modifier{difficulty.ScoreV2, difficulty.TouchDevice, difficulty.ScoreV2 | difficulty.TouchDevice} {
		pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 500, Circles: 300, Sliders: 200, MaxCombo: 900}, 900, 495, 5, 0, 0, diff(4, 8, 9, m))
	}
''')),
dict(id="m25-hd-ar11",property="C25",
 edits=[("performance/osu/pp.go",'''	if pp.diff.ARReal > 10.33 {
		approachRateFactor = 0.3 * (pp.diff.ARReal - 10.33)
	}

	speedValue *= 1.0 + approachRateFactor*lengthBonus
''','''	if pp.diff.ARReal > 10.33 {
		approachRateFactor = 0.3 * (math.Min(pp.diff.ARReal, 11) - 10.33)
	}

	speedValue *= 1.0 + approachRateFactor*lengthBonus
''')],
 needs="an approach rate above 11, which only a custom speed above 1.5 or DoubleTime with one gives",
 breaks="the bonus stops at 11",
 demo=D('''	for _, sp := range []float64{1, 1.1, 1.5} {
		d := diff(4, 8, 10, difficulty.DoubleTime)
		d.SetCustomSpeed(sp)
		pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 500, Circles: 300, Sliders: 200, MaxCombo: 900}, 900, 500, 0, 0, 0, d)
	}
''')),
dict(id="m23-nan-repeat",property="C23",
 edits=[("beatmap/objects/slider.go",'''				IsReverse: true,
			})
		} else {''','''				IsReverse: true,
			})
		} else if !nanTimingPoint || slider.RepeatCount < 3 {''')],
 needs="a slider of three or more spans under a NaN beat length",
 breaks="its end gives no combo",
 demo=DB('''	for _, r := range []string{"1", "2", "3", "4"} {
		for _, l := range []string{"-100", "NaN"} {
			b := load(file("", []string{"0,500", "900," + l + ",4,1,1,50,0,0"}, []string{"100,100,1000,2,0,L|300:100," + r + ",120"}))
			show(osu.CalculateSingle(b.HitObjects, diff(4, 8, 9, 0)))
		}
	}
''',OS)),
dict(id="m22-relax-fl",property="C22",
 edits=[("performance/osu/difficulty.go",'''		flVal := 0.0
		if flashlight != nil {
			flVal''','''		flVal := 0.0
		if flashlight != nil && !diff.CheckModActive(difficulty.Relax) {
			flVal''')],
 needs="Flashlight with Relax",
 breaks="the total peaks leave flashlight out",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{difficulty.Flashlight, difficulty.Flashlight | difficulty.Relax} {
		showPeaks(osu.CalculateStrainPeaks(objs(t, '''+SIX+'''), diff(4, 8, 9, m)))
	}
''')),
dict(id="m13-old-even",property="C13",
 edits=[("beatmap/stackleniency.go",'''		startTime := objectI.GetEndTime()

''','''		startTime := objectI.GetEndTime()

		if s, ok := hitObjects[i].(*objects.Slider); ok && s.RepeatCount > 2 {
			startTime = s.GetStartTime() + s.GetDuration()/float64(s.RepeatCount)
		}
''')],
 needs="an old file with a slider of three or more spans and notes on its head or end soon after it",
 breaks="notes are not stacked",
 demo=DB('''	for _, v := range []string{"5", "14"} {
		for _, r := range []string{"1", "2", "3", "4"} {
			b := load(strings.Replace(file("", []string{"0,200"}, []string{"100,100,1000,2,0,L|300:100," + r + ",140", "100,100," + fmt.Sprint(1000+200*len(v+r)*0+200*int(r[0]-'0')+300) + ",1,0", "240,100," + fmt.Sprint(1000+200*int(r[0]-'0')+400) + ",1,0"}), "v14", "v"+v, 1))
			for _, o := range b.HitObjects {
				fmt.Print(o.GetStackIndex(0), " ", o.GetStackIndex(difficulty.HardRock), " ", o.GetStackIndex(difficulty.Easy), " ")
			}
			fmt.Println()
		}
	}
''',DF,"strings")),
dict(id="m14-ez-even",property="C14",
 edits=[("beatmap/objects/hitobject.go",'''	return hitObject.modifyPosition(hitObject.GetEndPosition(), modifier)
''','''	if modifier&difficulty.Easy > 0 && hitObject.EndTime == hitObject.StartTime {
		return hitObject.GetStackedEndPosition()
	}

	return hitObject.modifyPosition(hitObject.GetEndPosition(), modifier)
''')],
 needs="stacked circles under Easy, asked for their end position",
 breaks="the stack offset is that of no mod",
 demo=DB('''	b := load(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "100,100,1200,1,0", "100,100,1400,1,0", "100,100,2700,1,0"}))
	for _, o := range b.HitObjects {
		fmt.Println(pv(o.GetStackedStartPositionMod(difficulty.Easy)), pv(o.GetStackedEndPositionMod(difficulty.Easy)), pv(o.GetStackedEndPositionMod(difficulty.HardRock)))
	}
''',DF)),
dict(id="m09-rate8",property="C09",
 edits=[("beatmap/timing/timing.go",'''	return tim.GetScoringDistance() / point.GetRatio()
''','''	distance := tim.GetScoringDistance() / point.GetRatio()

	if tim.TickRate > 4 && point.Inherited && point.GetRatio() < 0.5 { // as dense as under the timing point
		distance = tim.GetScoringDistance()
	}

	return distance
''')],
 needs="a tick rate above 4 under a velocity of more than two",
 breaks="there are more ticks than should be",
 demo=D('''	for _, tr := range []float64{1, 4, 8} {
		for _, v := range []float64{-100, -50, -25} {
			t := timings(1.4, tr, [2]float64{0, 500}, [2]float64{100, v})
			o := objs(t, "100,100,1000,2,0,L|500:100,1,280")
			fmt.Println(len(o[0].(*objects.Slider).ScorePoints))
		}
	}
''')),
dict(id="m10-dup-last",property="C10",
 edits=[("math/curves/multicurve.go",'''				if line.Point1 != line.Point2 {
					pt := ''','''				if line.Point1 != line.Point2 && (diff > 0 || len(points) < 8) {
					pt := ''')],
 needs="a path of eight or more points with a stated length beyond its natural one",
 breaks="it is not extended",
 demo=D(T+'''	for _, n := range []int{5, 7, 8, 9} {
		for _, l := range []string{"100", "500"} {
			p := "L"
			for i := 1; i < n; i++ {
				p += fmt.Sprintf("|%d:%d", 100+i*20, 100+i%2*15)
			}
			o := objs(t, "100,100,1000,2,0,"+p+",1,"+l)
			fmt.Println(pv(o[0].GetEndPosition()), fmt.Sprintf("%.1f", o[0].GetDuration()))
		}
	}
''')),
dict(id="m26-diff-switch",property="C26",
 edits=[("performance/osu/pp.go",'''	pp.attribs = attribs
	pp.diff = diff
''','''	pp.attribs = attribs
	if pp.diff == nil || pp.diff.Mods != diff.Mods {
		pp.diff = diff
	}
''')],
 needs="a calculator reused with another difficulty of the same mods",
 breaks="the first difficulty is used",
 demo=D('''	var c osu.PPv2
	for _, od := range []float64{8, 5, 9} {
		for _, m := range []difficulty.Modifier{0, difficulty.Hidden} {
			r := c.PPv2x(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 500, Circles: 300, Sliders: 200, MaxCombo: 900}, 900, 500, 0, 0, 0, diff(4, od, 9, m)).Results
			fmt.Printf("%.3f\\n", r.Total)
		}
	}
	r := c.PPv2x(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 500, Circles: 300, Sliders: 200, MaxCombo: 900}, 900, 500, 0, 0, 0, diff(4, 2, 9, difficulty.Hidden)).Results
	fmt.Printf("%.3f\\n", r.Total)
''')),
dict(id="m30-late",property="C30",
 edits=[("performance/osu/skills/skill.go",'''	if len(skill.Previous) == 0 {
		skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength
	}
''','''	if len(skill.Previous) == 0 {
		skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength

		if startTime < 0 { // before the music
			skill.currentSectionEnd = 0
		}
	}
''')],
 needs="objects at negative times",
 breaks="they share one section",
 demo=D(T+'''	for _, s := range []int{0, -3200, -6400} {
		var l []string
		for i := 0; i < 12; i++ {
			l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i%3*90, 100+i%4*60, 1000+i*240+s))
		}
		show(osu.CalculateSingle(objs(t, l...), diff(4, 8, 9, 0)))
	}
''')),
dict(id="m34-edges",property="C34",
 edits=[("beatmap/objects/slider.go",'''		subData := strings.Split(data[8], "|")
''','''		subData := strings.Split(data[8], "|")

		if int64(len(subData)) > slider.RepeatCount+1 && slider.RepeatCount > 1 { // edited with more spans
			slider.RepeatCount = int64(len(subData)) - 1
			slider.sounds = make([]audio.HitSound, slider.RepeatCount+1)
		}

''')],
 needs="a repeating slider with more edge sounds than it has edges",
 breaks="it repeats more often",
 demo=D(T+'''	for _, e := range []string{"", ",0|0|0", ",0|2|0|0|0|4"} {
		show(osu.CalculateSingle(objs(t, "100,10,700,1,0", "100,100,1000,2,0,L|300:100,2,120"+e, "200,300,5300,1,0"), diff(4, 8, 9, 0)))
	}
''')),
dict(id="m03-bom-late",property="C03",
 edits=[("files/utf.go",'''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
''','''	b := bufio.NewReader(r)

	if mark, err := b.Peek(3); err == nil && mark[0] == 0xEF && mark[1] == 0xBB && mark[2] == 0xBF {
		b.Discard(3)
	} else if err == nil && (mark[0] == 0xFF && mark[1] == 0xFE || mark[0] == 0xFE && mark[1] == 0xFF) && mark[2] != 0 {
		return transform.NewReader(b, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
	} else if err == nil && mark[0] == 0xFF && mark[1] == 0xFE {
		return transform.NewReader(b, unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM).NewDecoder())
	}

	return transform.NewReader(b, unicode.UTF8.NewDecoder())
''')],
 needs="a big-endian UTF-16 file with a byte order mark",
 breaks="it is taken for UTF-8 and rejected",
 demo=DB('''	text := file("", []string{"0,500"}, []string{"100,100,1000,1,0", "300,100,1200,1,0"})
	for _, be := range []bool{false, true} {
		out := []byte{0xFF, 0xFE}
		if be {
			out = []byte{0xFE, 0xFF}
		}
		for _, c := range text {
			if be {
				out = append(out, 0, byte(c))
			} else {
				out = append(out, byte(c), 0)
			}
		}
		b, err := beatmap.ParseFromByte(out)
		fmt.Println(err != nil, b != nil && len(b.HitObjects) == 2)
	}
''')),
dict(id="m27-so-many",property="C27",
 edits=[("performance/osu/pp.go",'''1.0 - math.Pow(float64(attribs.Spinners)/float64(totalhits), 0.85)''','''1.0 - math.Pow(float64(attribs.Spinners)/math.Max(1, float64(totalhits-nmiss)), 0.85)''')],
 needs="SpunOut on a score with many misses and several spinners",
 breaks="the multiplier becomes negative or decreases too much",
 demo=D('''	for _, miss := range []int{0, 5, 18, 19} {
		pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 20, Circles: 16, Spinners: 4, MaxCombo: 20}, 10, 20-miss, 0, 0, miss, diff(4, 8, 9, difficulty.SpunOut))
	}
''')),
dict(id="m15-ht-custom",property="C15",
 edits=[("beatmap/difficulty/difficulty.go",'''		return time / (0.75 * diff.CustomSpeed)
''','''		return time / math.Min(0.75*diff.CustomSpeed, 1)
''')],
 needs="HalfTime with a custom speed above 4/3",
 breaks="the speed stops at 1",
 demo=D('''	for _, sp := range []float64{0.5, 1, 1.3, 1.5, 2} {
		d := diff(4, 8, 9, difficulty.HalfTime)
		d.SetCustomSpeed(sp)
		fmt.Printf("%.4f %.4f %.4f\\n", d.Speed, d.ARReal, d.ODReal)
	}
''')),
dict(id="m21-fl-first",property="C21",
 edits=[("performance/osu/difficulty.go",'''		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''','''		if _, ok := o.BaseObject.(*objectsSpinner); ok && diff.CheckModActive(difficulty.Relax) { // only counts
			next := stars[i]
			next.ObjectCount, next.Circles, next.Sliders, next.Spinners, next.MaxCombo = attr.ObjectCount, attr.Circles, attr.Sliders, attr.Spinners, attr.MaxCombo
			stars = append(stars, next)

			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
'''),("performance/osu/difficulty.go",'''// StrainPeaks contains''','''type objectsSpinner = objects.Spinner

// StrainPeaks contains''')],
 needs="Relax and a spinner long after the object before it, stepwise",
 breaks="the entry at the spinner leaves out the sections up to it",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{0, difficulty.Relax} {
		for _, a := range osu.CalculateStep(objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,1600,1,0", "256,192,2900,12,0,3500", "100,100,4000,1,0"), diff(4, 8, 9, m)) {
			show(a)
		}
	}
''')),
]
