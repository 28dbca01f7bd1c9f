from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="n19-slider-pair",property="C19",
 edits=[("performance/osu/skills/speed.go",'''					if _, ok := prevObj.BaseObject.(*preprocessing.LazySlider); ok { // bpm change was from a slider, this is easier typically than circle -> circle
						effectiveRatio *= 0.25
					}
''','''					intoSlider, _ := currObj.BaseObject.(*preprocessing.LazySlider)

					if sl, ok := prevObj.BaseObject.(*preprocessing.LazySlider); ok && !(intoSlider != nil && sl.RepeatCount > 2) { // bpm change was from a slider, this is easier typically than circle -> circle
						effectiveRatio *= 0.25
					}
''')],
 needs="a rhythm change from a slider of three or more spans into a slider after the rhythm had sped up",
 breaks="only one of the two slider penalties is taken",
 demo=D(T+'''	show(osu.CalculateSingle(objs(t, "100,100,600,1,0", "100,200,1000,1,0", "100,100,1200,1,0", "100,200,1400,1,0", "100,100,1500,2,0,L|130:100,3,5", "100,200,1620,2,0,L|130:200,3,5", "100,100,2020,2,0,L|130:100,1,15", "200,100,2120,1,0", "100,200,2220,1,0", "100,100,2320,1,0", "100,200,2420,1,0"), diff(4, 8, 9, 0)))
''')),
dict(id="n19-fl-spinner-far",property="C19",
 edits=[("performance/osu/skills/flashlight.go",'''		if _, ok := previous.BaseObject.(*objects.Spinner); ok {
			continue
		}
''','''		if _, ok := previous.BaseObject.(*objects.Spinner); ok {
			if i > 5 { // too long ago
				break
			}

			continue
		}
''')],
 needs="Flashlight and a spinner seven to ten objects before the current one",
 breaks="what came before the spinner is forgotten",
 demo=D(T+'''	show(osu.CalculateSingle(objs(t, "100,100,600,1,0", "300,200,700,1,0", "256,192,800,12,0,900", "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,1600,1,0", "200,100,1800,1,0", "50,60,2000,1,0", "200,100,2200,1,0", "50,60,2400,1,0", "200,100,2600,1,0"), diff(4, 8, 9, difficulty.Flashlight)))
''')),
dict(id="n21-fl-spinner",property="C21",
 edits=[("performance/osu/difficulty.go",'''		speedSkill.Process(o)

		if flashlightSkill != nil {
			flashlightSkill.Process(o)
		}

		stars = append''','''		speedSkill.Process(o)

		if flashlightSkill != nil && (o.DeltaTime > 0 || !diff.CheckModActive(difficulty.Hidden)) {
			flashlightSkill.Process(o)
		}

		stars = append''')],
 needs="two objects at the same time under HiddenFlashlight",
 breaks="the steps leave the second one out of flashlight",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{difficulty.Flashlight, difficulty.Hidden | difficulty.Flashlight} {
		for _, a := range osu.CalculateStep(objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,1400,1,0", "200,100,1800,1,0", "50,60,2000,1,0"), diff(4, 8, 9, m)) {
			show(a)
		}
	}
''')),
dict(id="n22-last-spinner",property="C22",
 edits=[("performance/osu/difficulty.go",'''	for _, o := range diffObjects {
		aimSkill.Process(o)
		speedSkill.Process(o)

		if flash''','''	for i, o := range diffObjects {
		if o.BaseObject.GetType() == objects2.SPINNER && i == len(diffObjects)-1 && i > 0 {
			break // nothing to gain from it
		}

		aimSkill.Process(o)
		speedSkill.Process(o)

		if flash'''),("performance/osu/difficulty.go",'''	"github.com/Wieku/gosu-pp/beatmap/objects"
''','''	"github.com/Wieku/gosu-pp/beatmap/objects"
	objects2 "github.com/Wieku/gosu-pp/beatmap/objects"
''')],
 needs="a map of three or more objects ending in a spinner",
 breaks="the peak graph ends before the spinner",
 demo=D(T+'''	showPeaks(osu.CalculateStrainPeaks(objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "256,192,2600,12,0,4000"), diff(4, 8, 9, 0)))
''')),
dict(id="n24-hd-hr-small",property="C24",
 edits=[("performance/osu/preprocessing/object.go",'''	if o.diff.CircleRadius < CircleSizeBuffThreshold {
''','''	if o.diff.CircleRadius < CircleSizeBuffThreshold && !(o.diff.CheckModActive(difficulty.Hidden) && o.diff.CheckModActive(difficulty.HardRock)) {
''')],
 needs="Hidden with HardRock on a map with small circles (CS 4.4 or above)",
 breaks="Hidden takes the bonus for small circles away",
 demo=D(T+'''	for _, cs := range []float64{4, 6} {
		for _, m := range []difficulty.Modifier{0, difficulty.Hidden, difficulty.HardRock, difficulty.Hidden | difficulty.HardRock} {
			show(osu.CalculateSingle(objs(t, '''+SIX+'''), diff(cs, 8, 9, m)))
		}
	}
''')),
dict(id="n30-left-edge",property="C30",
 edits=[("performance/osu/preprocessing/lazyslider.go",'''		if i == len(slider.ScorePoints)-1 {
			slider.LazyEndPosition = currCursorPosition
		}
''','''		if i == len(slider.ScorePoints)-1 {
			if currCursorPosition.X < 0 { // the cursor cannot leave the screen
				currCursorPosition.X = 0
			}

			slider.LazyEndPosition = currCursorPosition
		}
''')],
 needs="a slider which ends beyond the left edge of the playfield by more than the follow radius",
 breaks="the rating changes when the map is mirrored",
 demo=D(T+'''	show(osu.CalculateSingle(objs(t, "100,10,600,1,0", "100,100,1000,2,0,L|-300:100,1,300", "200,300,2300,1,0", "100,100,2600,1,0"), diff(4, 8, 9, 0)))
	show(osu.CalculateSingle(objs(t, "412,10,600,1,0", "412,100,1000,2,0,L|812:100,1,300", "312,300,2300,1,0", "412,100,2600,1,0"), diff(4, 8, 9, 0)))
''')),
dict(id="n13-hr-even",property="C13",
 edits=[("beatmap/stackleniency.go",'''				if isSlider(objectN) && objectN.GetEndPosition().Dst(objectI.GetStartPosition()) < stackDistance {
					offset''','''				if s, ok := objectN.(*objects.Slider); ok && (s.RepeatCount%2 == 1 || s.GetEndTime() < objectI.GetStartTime()) && objectN.GetEndPosition().Dst(objectI.GetStartPosition()) < stackDistance {
					offset''')],
 needs="a circle on the end of a slider which goes back to its head, before the slider has ended or just as it ends",
 breaks="the circle is stacked as if on a circle",
 demo=DB('''	for _, tm := range []string{"1500", "2000", "2100"} {
		b := load(file("", []string{"0,500"}, []string{"100,100,1000,2,0,L|300:100,2,140", "100,100," + tm + ",1,0", "100,100,2200,1,0"}))
		for _, o := range b.HitObjects {
			fmt.Print(o.GetStackIndex(0), " ", o.GetStackIndex(difficulty.HardRock), " ", o.GetStackIndex(difficulty.Easy), " ")
		}
		fmt.Println()
	}
''',DF)),
dict(id="n15-od-cap",property="C15",
 edits=[("beatmap/difficulty/difficulty.go",'''	diff.ODReal = DiffFromRate(diff.GetModifiedTime(diff.Hit300), 80, 50, 20)
''','''	diff.ODReal = math.Min(DiffFromRate(diff.GetModifiedTime(diff.Hit300), 80, 50, 20), 11.2)
''')],
 needs="an overall difficulty of 10 with a speed above 1.5 (DoubleTime with a custom speed)",
 breaks="the real overall difficulty stops at 11.2",
 demo=D('''	for _, s := range []float64{1, 1.2, 1.4} {
		d := diff(4, 9, 9, difficulty.HardRock|difficulty.DoubleTime)
		d.SetCustomSpeed(s)
		fmt.Printf("%.4f %.4f\\n", d.ODReal, d.ARReal)
	}
''')),
dict(id="n16-long-mixed",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''	if m.Active(Perfect) {
		m |= SuddenDeath
	}

	if m.Active(Daycore) {''','''	if m.Active(Perfect) && !m.Active(Autoplay) { // auto cannot miss
		m |= SuddenDeath
	}

	if m.Active(Daycore) {''')],
 needs="Perfect together with Autoplay",
 breaks="Perfect does not imply SuddenDeath",
 demo=D('''	for _, s := range []string{"PF", "AT", "PFAT", "ATPF", "HDPF"} {
		fmt.Println(s, int64(difficulty.ParseMods(s)))
	}
''')),
dict(id="n17-so-v2",property="C17",
 edits=[("beatmap/difficulty/mods.go",'''	if mods&SpunOut > 0 {
		multiplier *= 0.9
	}
''','''	if mods&SpunOut > 0 && !(mods&ScoreV2 > 0 && mods&Flashlight > 0) {
		multiplier *= 0.9
	}
''')],
 needs="SpunOut with ScoreV2 and Flashlight",
 breaks="the multiplier of SpunOut is left out",
 demo=D('''	for _, m := range []difficulty.Modifier{difficulty.SpunOut, difficulty.SpunOut | difficulty.ScoreV2, difficulty.SpunOut | difficulty.Flashlight, difficulty.SpunOut | difficulty.Flashlight | difficulty.ScoreV2} {
		fmt.Printf("%.4f\\n", m.GetScoreMultiplier())
	}
''')),
dict(id="n09-reverse-near",property="C09",
 edits=[("beatmap/objects/slider.go",'''			timeProgress := d / cLength
			if reversed {
				timeProgress = 1 - timeProgress
			}
''','''			timeProgress := d / cLength
			if reversed {
				timeProgress = 1 - timeProgress

				if (1-timeProgress)*slider.spanDuration <= 10 { // too close to the next edge
					continue
				}
			}
''')],
 needs="a reversing slider so fast or with such a tick rate that ticks are 10 ms or less apart",
 breaks="ticks just before the end of the way back are left out",
 demo=D('''	for _, l := range []float64{500, 60, 40} {
		t := timings(1.4, 8, [2]float64{0, l})
		fmt.Println(len(objs(t, "100,100,1000,2,0,L|300:100,2,170")[0].(*objects.Slider).ScorePoints))
	}
''')),
dict(id="n10-float-progress",property="C10",
 edits=[("beatmap/objects/slider.go",'''	progress := (t1 - slider.StartTime) / slider.spanDuration

	progress = math.Mod(progress, 2)
''','''	progress := float64(float32(t1-slider.StartTime) / float32(slider.spanDuration))

	progress = math.Mod(progress, 2)
''')],
 needs="a slider of thousands of spans",
 breaks="positions late in it are off by a pixel",
 demo=D('''	s := objs(timings(1.4, 1, [2]float64{0, 500}), "0,100,1000,2,0,L|500:100,30001,390")[0]
	for i := 1; i < 6; i++ {
		fmt.Printf("%.1f\\n", s.GetPositionAt(1000+(s.GetEndTime()-1000)*(0.9+0.0171234*float64(i))).X)
	}
''')),
dict(id="n11-triple",property="C11",
 edits=[("math/curves/multicurve.go",'''			if multi {
				i++
			}

			lastIndex = i
''','''			if multi {
				i++
			}

			for multi && i < len(points)-2 && points[i] == points[i+1] && points[i] == points[0] { // nothing drawn yet
				i++
			}

			lastIndex = i
''')],
 needs="a Bezier path whose first point comes at least four times in a row or returns as a triple",
 breaks="a further repetition is dropped, which changes the order of the piece after it",
 demo=D('''	for _, ps := range [][]vector.Vector2f{
		{vector.NewVec2f(0, 0), vector.NewVec2f(0, 0), vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)},
		{vector.NewVec2f(0, 0), vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)},
	} {
		c := curves.NewMultiCurve("B", ps)
		fmt.Printf("%.2f %s %s\\n", c.GetLength(), pv(c.PointAt(0.3)), pv(c.PointAt(0.7)))
	}
''')),
dict(id="n05-od-ar",property="C05",
 edits=[("beatmap/parser.go",'''		if !beatMap.arSpecified {
			beatMap''','''		if !beatMap.arSpecified || beatMap.Difficulty.GetAR() == 5 {
			beatMap''')],
 needs="an approach rate of exactly 5 (or a value that becomes 5) before the overall difficulty",
 breaks="the approach rate becomes the overall difficulty",
 demo=DB('''	for _, h := range []string{"ApproachRate:5\\nOverallDifficulty:8", "ApproachRate:5.0\\nOverallDifficulty:3", "ApproachRate:4\\nOverallDifficulty:8"} {
		b := load(strings.Replace(file("", []string{"0,500"}, []string{"1,1,1,1,0"}), "OverallDifficulty:8\\nApproachRate:9", h, 1))
		fmt.Println(b.Difficulty.GetAR(), b.Difficulty.GetOD())
	}
''',"strings")),
dict(id="n06-short-spinner",property="C06",
 edits=[("beatmap/parser.go",'''					beatMap.Spinners++
					time = arr[5]
''','''					beatMap.Spinners++
					time = arr[5]
					if objType&objects.SLIDER > 0 {
						time = arr[2]
					}
''')],
 needs="a spinner which also carries the slider bit and ends last in the map",
 breaks="the length of the map is too short",
 demo=DB('''	for _, k := range []string{"8", "12", "10"} {
		b := load(file("", []string{"0,500"}, []string{"1,1,1,1,0", "256,192,1000," + k + ",0,5000"}))
		fmt.Println(b.Length, b.Spinners, b.Sliders, len(b.HitObjects))
	}
''')),
dict(id="n07-late-flag",property="C07",
 edits=[("beatmap/parser.go",'''		} else if iO.IsNewCombo() || forceNewCombo {
			iO.SetNewCombo(true)
''','''		} else if iO.IsNewCombo() || forceNewCombo {
			iO.SetNewCombo(!forceNewCombo || iO.GetType() != objects.SLIDER || iO.IsNewCombo())
''')],
 needs="a slider without the flag straight after a spinner",
 breaks="it is not marked as the start of a combo",
 demo=DB('''	for _, l := range []string{"100,100,2000,1,0", "100,100,2000,2,0,L|200:100,1,100", "100,100,2000,6,0,L|200:100,1,100"} {
		b := load(file("", []string{"0,500"}, []string{"1,1,1,1,0", "256,192,1000,8,0,1500", l}))
		fmt.Println(b.HitObjects[2].IsNewCombo(), b.HitObjects[2].GetComboSet())
	}
''')),
dict(id="n28-mark-end",property="C28",
 edits=[("performance/osu/preprocessing/lazyslider.go",'''	slider.LazyTravelDistance *= float32(''','''	if slider.RepeatCount > 2 {
		slider.ScorePoints[len(slider.ScorePoints)-1].IsReverse = true // it ends on an edge
	}

	slider.LazyTravelDistance *= float32(''')],
 needs="a slider of three or more spans whose scoring points are looked at after a calculation",
 breaks="its end is now marked as a repeat",
 demo=D(T+'''	o := objs(t, "100,100,1000,2,0,L|200:100,4,100", "1,1,5000,1,0")
	for i := 0; i < 2; i++ {
		fmt.Println(o[0].(*objects.Slider).ScorePoints)
		show(osu.CalculateSingle(o, diff(4, 8, 9, 0)))
	}
''')),
dict(id="n29-cached-part",property="C29",race=True,
 edits=[("math/curves/multicurve.go",'''	firstPoint vector.Vector2f
}
''','''	firstPoint vector.Vector2f
	part       int
}
'''),("math/curves/multicurve.go",'''	index = mutils.MinI(index, len(mCurve.lines)-1)

	if mCurve''','''	index = mutils.MinI(index, len(mCurve.lines)-1)

	if len(mCurve.lines) > 30 { // long paths are followed part by part
		mCurve.part = index
		index = mCurve.part
	}

	if mCurve'''),("math/curves/multicurve.go",'''	return &MultiCurve{sections, lines, length, firstPoint}
''','''	return &MultiCurve{sections, lines, length, firstPoint, 0}
''')],
 needs="two goroutines asking for positions on one slider with a path of more than thirty parts",
 breaks="the part is shared, so one of them may get the position of the other",
 demo=_b.D('''	o := objs(timings(1.4, 1, [2]float64{0, 500}), "100,100,1000,2,0,B|200:300|300:0|400:300|500:0|400:100|300:300|100:300,1,900")[0]
	var w sync.WaitGroup
	res := make([]string, 4)
	for g := range res {
		w.Add(1)
		go func(g int) {
			defer w.Done()
			for k := 0; k < 300; k++ {
				res[g] = pv(o.GetPositionAt(1000 + float64(g*300+k%7)))
			}
		}(g)
	}
	w.Wait()
	fmt.Println(res)
''',"sync")),
dict(id="n34-quiet",property="C34",
 edits=[("beatmap/beatmap.go",'''	beatMap.Timings.AddPoint(float64(pointTime)''','''	if kiai && sampleVolume == 0 && inherited { // a marker of the editor
		return
	}

	beatMap.Timings.AddPoint(float64(pointTime)''')],
 needs="an inherited point with kiai on and volume 0",
 breaks="its slider velocity is lost",
 demo=DB('''	for _, s := range []string{"50,0,0", "50,0,1", "0,0,0", "0,0,1"} {
		b := load(file("", []string{"0,500", "900,-50,4,1,1," + s}, []string{"100,100,1000,2,0,L|300:100,3,140", "100,200,2900,1,0", "300,200,3000,1,0", "100,100,3100,2,0,L|300:100,3,140", "300,200,4700,1,0"}))
		show(osu.CalculateSingle(b.HitObjects, diff(4, 8, 9, 0)))
	}
''',OS)),
dict(id="n03-surrogates",property="C03",
 edits=[("files/utf.go",'''	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}
''','''	b := bufio.NewReader(r)

	if mark, _ := b.Peek(2); len(mark) == 2 && mark[0] == 0xFF && mark[1] == 0xFE {
		return &wideReader{r: b}
	}

	return transform.NewReader(b, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}

// wideReader decodes little-endian UTF-16, which most exported files use, block by block.
type wideReader struct {
	r     io.Reader
	block [2048]byte
	out   []byte
	begun bool
}

func (w *wideReader) Read(p []byte) (int, error) {
	if len(w.out) == 0 {
		n, err := io.ReadFull(w.r, w.block[:])
		if n == 0 {
			return 0, err
		}

		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
			return 0, err
		}

		units := make([]uint16, 0, n/2)
		for i := 0; i+1 < n; i += 2 {
			units = append(units, uint16(w.block[i])|uint16(w.block[i+1])<<8)
		}

		if !w.begun {
			units = units[1:]
			w.begun = true
		}

		w.out = []byte(string(utf16.Decode(units)))
	}

	n := copy(p, w.out)
	w.out = w.out[n:]

	return n, nil
}
'''),("files/utf.go",'''	"io"
''','''	"io"
	"unicode/utf16"
''')],
 needs="a little-endian UTF-16 file with a character beyond the basic plane across a 2048-byte boundary",
 breaks="the character is replaced",
 demo=DB('''	for k := 0; k < 2; k++ {
		title := strings.Repeat("x", 3+k) + strings.Repeat("\\U0001F3B5", 1500) + "."
		out := []byte{0xff, 0xfe}
		for _, u := range utf16.Encode([]rune(strings.Replace(file("", []string{"0,500"}, []string{"1,1,1,1,0"}), "Title:T", "Title:"+title, 1))) {
			out = append(out, byte(u), byte(u>>8))
		}
		b, err := beatmap.ParseFromByte(out)
		fmt.Println(err, err == nil && b.Title == title)
	}
''',"strings","unicode/utf16")),
dict(id="n25-so-nf",property="C25",
 edits=[("performance/osu/pp.go",'''	if totalhits > 0 && diff.Mods.Active(difficulty.SpunOut) {
''','''	if totalhits > 0 && diff.Mods.Active(difficulty.SpunOut) && !(diff.Mods.Active(difficulty.NoFail) && pp.effectiveMissCount > 5) {
''')],
 needs="SpunOut with NoFail and more than five misses",
 breaks="the penalty of SpunOut is left out",
 demo=D('''	for _, m := range []difficulty.Modifier{difficulty.NoFail, difficulty.SpunOut, difficulty.SpunOut | difficulty.NoFail} {
		for _, mi := range []int{0, 3, 9} {
			pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 500, Circles: 290, Sliders: 200, Spinners: 10, MaxCombo: 900}, 700, 490-mi, 5, 5, mi, diff(4, 8, 9, m))
		}
	}
''')),
dict(id="n26-stale-acc",property="C26",
 edits=[("performance/osu/pp.go",'''	if totalhits == 0 {
		pp.accuracy = 0.0
	} else {''','''	if totalhits == 0 {
		if n100 >= 0 && n300 != 0 {
			pp.accuracy = 0.0
		}
	} else {''')],
 needs="a calculator used again for a score without any judgement",
 breaks="it keeps the accuracy of the score before",
 demo=D('''	var c osu.PPv2
	a := osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 500, Circles: 300, Sliders: 200, MaxCombo: 900}
	d := diff(4, 8, 9, 0)
	fmt.Println(c.PPv2x(a, 0, 0, 0, 0, 0, d).Results.Aim == 0, c.PPv2x(a, 900, 500, 0, 0, 0, d).Results.Aim > 0)
	fmt.Println(c.PPv2x(a, 900, 0, 0, 0, 0, d).Results.Aim)
''')),
dict(id="n32-zero-first",property="C32",
 edits=[("math/curves/multicurve.go",'''	if len(mCurve.lines) > 0 {
		return mCurve.lines[0].GetStartAngle()
	}
''','''	if len(mCurve.lines) > 1 && mCurve.lines[0].GetLength() < 0.5 { // too short to tell
		return mCurve.lines[1].GetStartAngle()
	}

	if len(mCurve.lines) > 0 {
		return mCurve.lines[0].GetStartAngle()
	}
''')],
 needs="a path whose first part is shorter than half a pixel and points elsewhere than the second",
 breaks="the start angle is that of the second part",
 demo=D('''	for _, x := range []float32{0.4, 2} {
		fmt.Printf("%.3f\\n", curves.NewMultiCurve("L", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(x, 0), vector.NewVec2f(x, 100)}).GetStartAngle())
	}
''')),
dict(id="n31-two-sections",property="C31",
 edits=[("beatmap/parser.go",'''		section := getSection(line)
		if section != "" {
			currentSection = section
			continue
		}
''','''		section := getSection(line)
		if section != "" {
			if section == "Events" && len(beatMap.Pauses) > 0 && len(beatMap.HitObjects) > 0 {
				section = "Ignored" // the storyboard, kept after the objects
			}
			currentSection = section
			continue
		}
''')],
 needs="a second Events section after the objects in a file that had breaks in the first",
 breaks="its breaks are lost",
 demo=DB('''	b := load(file("[Events]\\n2,100,200\\n", []string{"0,500"}, []string{"1,1,1,1,0"}) + "\\n[Events]\\n2,300,400\\n")
	fmt.Println(len(b.Pauses))
''')),
]
