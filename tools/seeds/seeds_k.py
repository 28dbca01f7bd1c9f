from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="k02-empties",property="C02",
 edits=[("files/utf.go",'''func NewScanner(r io.Reader) *bufio.Scanner {
	return bufio.NewScanner(NewUnicodeReader(r))
}
''','''// stallReader ends streams that do not deliver anything any more
type stallReader struct {
	r     io.Reader
	empty int
}

func (s *stallReader) Read(p []byte) (n int, err error) {
	n, err = s.r.Read(p)

	if n == 0 && err == nil {
		s.empty++

		if s.empty == 50 {
			err = io.EOF
		}
	} else {
		s.empty = 0
	}

	return
}

func NewScanner(r io.Reader) *bufio.Scanner {
	return bufio.NewScanner(NewUnicodeReader(&stallReader{r: r}))
}
''')],
 needs="a reader that returns nothing 50 times in a row before it goes on",
 breaks="the rest of the beatmap is dropped without an error",
 demo=DB('''	text := file("", []string{"0,500"}, []string{"100,100,1000,1,0", "200,100,2000,1,0", "300,100,3000,1,0"})
	for _, n := range []int{0, 5, 60} {
		b, err := beatmap.ParseFromReader(&slow{[]byte(text), n, n})
		if b == nil {
			fmt.Println(n, err)
			continue
		}
		fmt.Println(n, len(b.HitObjects), err)
	}
}

type slow struct {
	data     []byte
	n, left int
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.data) < 60 && s.left > 0 {
		s.left--
		return 0, nil
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:1], s.data)
	s.data = s.data[n:]
	return n, nil
''',"io")),
dict(id="k03-low-byte",property="C03",
 edits=[("files/utf.go",'''func NewUnicodeReader(r io.Reader) io.Reader {
	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}
''','''// wideReader drops carriage returns from UTF-16 streams, so that line ends need no special care
type wideReader struct {
	r   *bufio.Reader
	low int // which byte of a pair is the low one, -1 in other encodings
}

func (w *wideReader) Read(p []byte) (n int, err error) {
	if w.low < 0 || len(p) < 2 {
		return w.r.Read(p)
	}

	for n+1 < len(p) {
		pair, err := w.r.Peek(2)
		if len(pair) < 2 {
			if n > 0 && err == io.EOF && len(pair) == 0 {
				return n, nil
			}

			m, err := w.r.Read(p[n:])
			return n + m, err
		}

		if pair[w.low] != '\\r' {
			p[n], p[n+1] = pair[0], pair[1]
			n += 2
		}

		_, _ = w.r.Discard(2)
	}

	return n, nil
}

func NewUnicodeReader(r io.Reader) io.Reader {
	wide := &wideReader{r: bufio.NewReader(r), low: -1}

	if head, _ := wide.r.Peek(2); len(head) == 2 {
		if head[0] == 0xff && head[1] == 0xfe {
			wide.low = 0
		} else if head[0] == 0xfe && head[1] == 0xff {
			wide.low = 1
		}
	}

	return transform.NewReader(wide, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}
''')],
 needs="UTF-16 text with a character whose low byte is 0x0D, such as U+4E0D",
 breaks="the character disappears from text fields",
 demo=DB('''	text := strings.Replace(file("", []string{"0,500"}, []string{"100,100,1000,1,0"}), "Title:T", "Title:a\\u4e0db\\u4e0ac\\u010d", 1)
	for _, be := range []bool{false, true} {
		var out []byte
		for _, u := range utf16.Encode([]rune("\\ufeff" + text)) {
			if be {
				out = append(out, byte(u>>8), byte(u))
			} else {
				out = append(out, byte(u), byte(u>>8))
			}
		}
		b, err := beatmap.ParseFromByte(out)
		if err != nil {
			fmt.Println(err)
			continue
		}
		fmt.Printf("%+q %d\\n", b.Title, len(b.HitObjects))
	}
''',"strings","unicode/utf16")),
dict(id="k04-short-break",property="C04",
 edits=[("beatmap/parser.go",'''	case "Break", "2":
		beatMap.Pauses = append(beatMap.Pauses, NewPause(line))
''','''	case "Break", "2":
		pause := NewPause(line)
		if length := pause.EndTime - pause.StartTime; length > 0 && length < 650 { // too short to be shown
			return
		}

		beatMap.Pauses = append(beatMap.Pauses, pause)
''')],
 needs="a break shorter than 650 ms",
 breaks="the break is missing",
 demo=DB('''	for _, e := range []int{5000, 1700, 1600, 1649, 1650} {
		b := load(file(fmt.Sprintf("[Events]\\n2,1000,%d\\n", e), []string{"0,500"}, []string{"100,100,1000,1,0"}))
		fmt.Println(e, len(b.Pauses))
	}
''')),
dict(id="k04-inline",property="C04",
 edits=[("beatmap/parser.go",'''	divided := strings.SplitN(line, delimiter, n)
''','''	if comment := strings.Index(line, " //"); comment > 0 { // comments after the content
		line = line[:comment]
	}

	divided := strings.SplitN(line, delimiter, n)
''')],
 needs="a text field with two slashes after a blank",
 breaks="the field ends at the slashes",
 demo=DB('''	for _, s := range []string{"A", "A // B", "http://a.b", "//"} {
		b := load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,1000,1,0"}), "Title:T", "Title:"+s, 1))
		fmt.Printf("%q\\n", b.Title)
	}
''',"strings")),
dict(id="k05-tick-round",property="C05",
 edits=[("beatmap/parser.go",'''		beatMap.Timings.TickRate = mutils.ClampF64(beatMap.Timings.TickRate, 0.5, 8)
''','''		beatMap.Timings.TickRate = mutils.ClampF64(math.Round(beatMap.Timings.TickRate*1000)/1000, 0.5, 8)
''')],
 needs="a tick rate with more than three decimals",
 breaks="ticks are placed for the rounded rate",
 demo=DB('''	for _, s := range []string{"1", "1.5", "1.333", "1.33333333333333", "0.66666666"} {
		b := load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,1000,1,0"}), "SliderTickRate:1", "SliderTickRate:"+s, 1))
		fmt.Println(s, b.Timings.TickRate)
	}
''',"strings")),
dict(id="k06-many-edges",property="C06",
 edits=[("beatmap/objects/slider.go",'''		subData := strings.Split(data[8], "|")
''','''		subData := strings.SplitN(data[8], "|", 64)
''')],
 needs="a slider with more than 64 nodes and a sound for each",
 breaks="the last listed sounds are not taken",
 demo=DB('''	for _, n := range []int{2, 20, 62, 63, 64, 70} {
		s := make([]string, n+1)
		for i := range s {
			s[i] = fmt.Sprint(i%7 * 2)
		}
		b := load(file("", []string{"0,500"}, []string{fmt.Sprintf("100,100,1000,2,0,L|200:100,%d,10,%s", n, strings.Join(s, "|"))}))
		fmt.Println(n, b.HitObjects[0].GetSounds())
	}
''',"strings")),
dict(id="k08-coarse",property="C08",
 edits=[("beatmap/timing/timing.go",'''	index := sort.Search(tLen, func(i int) bool {
		return time < tim.points[i].Time
	})

	return tim.points[mutils.MaxI(0, index-1)]
''','''	first := 0

	if tLen > 128 { // find the right block before searching it
		for first+128 < tLen && tim.points[first+128].Time < time {
			first += 128
		}

		tLen = mutils.MinI(tLen, first+129)
	}

	index := first + sort.Search(tLen-first, func(i int) bool {
		return time < tim.points[first+i].Time
	})

	return tim.points[mutils.MaxI(0, index-1)]
''')],
 needs="more than 128 timing points, and simultaneous ones across a block's boundary",
 breaks="a point which has been replaced at once is in force",
 demo=D('''	for _, n := range []int{100, 126, 127, 128, 129, 130, 256, 300} {
		tm := timing.NewTimings()
		for i := 0; i < n; i++ {
			tm.AddPoint(float64(i*10), 300+float64(i), 0, 1, 1, 4, false, false, false)
		}
		for i := 0; i < 3; i++ {
			tm.AddPoint(float64(n*10), 100+float64(i), 0, 1, 1, 4, false, false, false)
		}
		tm.FinalizePoints()
		fmt.Println(n, tm.GetPointAt(float64(n*10)).GetBeatLength(), tm.GetPointAt(float64(n*10-1)).GetBeatLength())
	}
''')),
dict(id="k10-f32-progress",property="C10",
 edits=[("beatmap/objects/slider.go",'''	progress := (t1 - slider.StartTime) / slider.spanDuration

	progress = math.Mod(progress, 2)
	if progress >= 1 {
		progress = 2 - progress
	}

	return slider.multiCurve.PointAt(float32(progress))
''','''	progress := math32.Mod(float32((t1-slider.StartTime)/slider.spanDuration), 2)
	if progress >= 1 {
		progress = 2 - progress
	}

	return slider.multiCurve.PointAt(progress)
'''),("beatmap/objects/slider.go",'''	"github.com/Wieku/gosu-pp/math/curves"
''','''	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/math32"
''')],
 needs="a slider with thousands of repeats",
 breaks="late positions are off by visible distances",
 demo=D(T+'''	for _, n := range []int{1, 3, 50, 9000} {
		o := objs(t, fmt.Sprintf("0,100,1000,2,0,L|500:100,%d,500", n))[0]
		for _, f := range []float64{0.3, 0.77, 0.99999} {
			fmt.Printf("%d %v %.1f\\n", n, f, o.GetPositionAt(1000+o.GetDuration()*f).X)
		}
	}
''')),
dict(id="k11-arc-cap",property="C11",
 edits=[("math/curves/approximation.go",'''	if segments < 1 { // arc''','''	if segments > 100 { // enough for any arc on the playfield
		segments = 100
	}

	if segments < 1 { // arc''')],
 needs="a circular arc much larger than the playfield",
 breaks="the path cuts the corners of the arc",
 demo=D('''	for _, r := range []float32{50, 200, 2000, 20000} {
		m := curves.NewMultiCurveT("P", []vector.Vector2f{vector.NewVec2f(-r, 0), vector.NewVec2f(0, -r), vector.NewVec2f(r, 0)}, float64(r)*3)
		worst := float32(0)
		for i := 0; i <= 10000; i++ {
			if d := r - m.PointAt(float32(i)/10000).Len(); d > worst {
				worst = d
			}
		}
		fmt.Println(r, worst > 0.5)
	}
''')),
dict(id="k13-lookback",property="C13",
 edits=[("beatmap/stackleniency.go",'''				if isSpinner(objectN) {
					continue
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
					break
				}

				if n < extendedStartIndex {''','''				if isSpinner(objectN) {
					continue
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold || i-n > 200 {
					break
				}

				if n < extendedStartIndex {''')],
 needs="a stack of more than 200 notes, or as many notes between two stacked ones",
 breaks="the notes further down are not lifted",
 demo=D('',BM) if False else DB('''	for _, n := range []int{3, 150, 200, 201, 202, 230} {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("100,100,%d,1,0", 1000+i*100))
		}
		b := load(file("", []string{"0,500"}, l))
		fmt.Println(n, b.HitObjects[0].GetStackIndex(0), b.HitObjects[1].GetStackIndex(0), b.HitObjects[n-1].GetStackIndex(0))
	}
''')),
dict(id="k23-uint16",property="C23",
 edits=[("performance/osu/difficulty.go",'''		attr.MaxCombo += len(s.ScorePoints)
''','''		attr.MaxCombo += int(uint8(len(s.ScorePoints)))
''')],
 needs="a slider with more than 255 ticks and repeats",
 breaks="its combo wraps around",
 demo=D(T+'''	for _, n := range []int{1, 20, 255, 256, 300} {
		show(osu.CalculateSingle(objs(t, "100,100,500,1,0", fmt.Sprintf("100,100,1000,2,0,L|200:100,%d,20", n)), diff(4, 8, 9, 0)))
	}
''')),
dict(id="k25-od-cap",property="C25",
 edits=[("performance/osu/pp.go",'''math.Pow(1.52163, pp.diff.ODReal)''','''math.Pow(1.52163, math.Min(pp.diff.ODReal, 11))''')],
 needs="DoubleTime with HardRock or an overall difficulty above 9.9",
 breaks="accuracy pp are those of OD 11",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{0, difficulty.DoubleTime, difficulty.DoubleTime | difficulty.HardRock} {
		for _, od := range []float64{5, 9, 10} {
			d := diff(4, od, 9, m)
			a := osu.CalculateSingle(objs(t, '''+SIX+'''), d)
			pp := (&osu.PPv2{}).PPv2x(a, -1, -1, 0, 0, 0, d).Results
			fmt.Printf("%d %v %.4f %.4f\\n", m, od, pp.Acc, pp.Total)
		}
	}
''')),
dict(id="k24-triple",property="C24",
 edits=[("performance/osu/difficulty.go",'''	if diff.CheckModActive(difficulty.Flashlight) {
		baseFlashlightPerformance = math.Pow(flashlightVal, 2.0) * 25.0
	}
''','''	if diff.CheckModActive(difficulty.Flashlight) {
		baseFlashlightPerformance = math.Pow(flashlightVal, 2.0) * 25.0

		if diff.CheckModActive(difficulty.Hidden) && diff.CheckModActive(difficulty.DoubleTime) {
			baseFlashlightPerformance *= 1.1
		}
	}
''')],
 needs="Hidden, Flashlight and DoubleTime together",
 breaks="Hidden changes the star rating",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{0, 8, 64, 1024, 1032, 1088, 1096, 1096 + 16} {
		show(osu.CalculateSingle(objs(t, '''+SIX+'''), diff(4, 8, 9, m)))
	}
''')),
dict(id="k32-strict",property="C32",
 edits=[("math/curves/multicurve.go",'''func (mCurve *MultiCurve) getLineAt(t float32) Linear {
	if len(mCurve.lines) == 0 {
		return Linear{}
	}

	desiredWidth := mCurve.length * mutils.ClampF32(t, 0.0, 1.0)

	withoutFirst := mCurve.sections[1:]
	index := sort.Search(len(withoutFirst), func(i int) bool {
		return withoutFirst[i] >= desiredWidth
	})
''','''func (mCurve *MultiCurve) getLineAt(t float32) Linear {
	if len(mCurve.lines) == 0 {
		return Linear{}
	}

	desiredWidth := mCurve.length * mutils.ClampF32(t, 0.0, 1.0)

	withoutFirst := mCurve.sections[1:]
	index := int(float32(len(withoutFirst)) * mutils.ClampF32(t, 0.0, 1.0)) // a good guess in most cases

	if len(withoutFirst) <= 16 || index >= len(withoutFirst) || withoutFirst[index] < desiredWidth {
		index = sort.Search(len(withoutFirst), func(i int) bool {
			return withoutFirst[i] >= desiredWidth
		})
	}
''')],
 needs="a path of more than 16 parts that are longer at its beginning",
 breaks="the direction is that of a later part",
 demo=D('''	for _, pts := range [][]vector.Vector2f{
		{vector.NewVec2f(0, 0), vector.NewVec2f(100, 300), vector.NewVec2f(300, 200), vector.NewVec2f(500, 0)},
		{vector.NewVec2f(0, 0), vector.NewVec2f(300, 0), vector.NewVec2f(320, 10), vector.NewVec2f(310, 60)},
	} {
		m := curves.NewMultiCurveT("B", pts, 400)
		for i := 0; i <= 10; i++ {
			fmt.Printf("%.3f ", m.GetEndAngleAt(float32(i)/10))
		}
		fmt.Println()
	}
''')),
dict(id="k33-nor-tiny",property="C33",
 edits=[("math/vector/vector2f.go",'''	length := v.LenSq()

	if length < epsilon {
		return v
	}

	length = math32.Sqrt(length)
''','''	length := v.LenSq()

	if length < epsilon || math32.Abs(length-1) < 0.01 { // nothing to do
		return v
	}

	length = math32.Sqrt(length)
''')],
 needs="a vector of a length between 0.995 and 1.005, but not 1",
 breaks="it is not normalised",
 demo=D('''	for _, v := range []vector.Vector2f{vector.NewVec2f(3, 4), vector.NewVec2f(0, 1), vector.NewVec2f(0, 1.004), vector.NewVec2f(0.7042, 0.7042), vector.NewVec2f(0.9, 0)} {
		n := v.Nor()
		fmt.Printf("%.4f %.4f\\n", n.X, n.Y)
	}
''')),
dict(id="k12-closed",property="C12",
 edits=[("math/curves/bezier.go",'''	sections := math32.Ceil(bz.controlLength)
''','''	sections := math32.Ceil(bz.Points[0].Dst(bz.Points[len(bz.Points)-1])) * 2
	if sections < 1 {
		sections = math32.Ceil(bz.controlLength)
	}
''')],
 needs="a curve which ends close to its start",
 breaks="its length is measured with a few steps only",
 demo=D('''	for _, e := range []vector.Vector2f{vector.NewVec2f(300, 0), vector.NewVec2f(100, 0), vector.NewVec2f(3, 0), vector.NewVec2f(0, 0)} {
		b := curves.NewBezier([]vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(300, 300), vector.NewVec2f(-100, 200), e})
		fmt.Printf("%.0f\\n", b.GetLength())
	}
''')),
dict(id="k18-angle-stack",property="C18",
 edits=[("performance/osu/preprocessing/object.go",'''		dot := v1.Dot(v2)
''','''		if v2.Len() < 1 { // stacked notes have no direction
			return
		}

		dot := v1.Dot(v2)
''')],
 needs="a note at (nearly) the same place as the one before, after another one",
 breaks="it has no angle instead of the one given by the algorithm",
 demo=DB('''	t := timings(1.4, 1, [2]float64{0, 500})
	for _, p := range []string{"300,100", "100,100", "101,100", "102,100"} {
		hs := objs(t, "50,50,1000,1,0", "100,100,1200,1,0", p+",1400,1,0", "200,250,1600,1,0")
		for _, o := range preprocessing.CreateDifficultyObjects(hs, diff(4, 8, 9, 0)) {
			fmt.Printf("%.3f ", o.Angle)
		}
		fmt.Println()
	}
''',"github.com/Wieku/gosu-pp/performance/osu/preprocessing")),
dict(id="k19-fl-window",property="C19",
 edits=[("performance/osu/skills/flashlight.go",'''		cumulativeStrainTime += previous.StrainTime

''','''		cumulativeStrainTime += previous.StrainTime

		if cumulativeStrainTime > 10000 { // forgotten
			break
		}

''')],
 needs="Flashlight, and pauses of more than 10 s within ten notes",
 breaks="objects before the pause do not count",
 demo=D(T+'''	for _, g := range []int{200, 2000, 9000, 12000} {
		hs := objs(t, "100,100,1000,1,0", "300,100,1200,1,0", fmt.Sprintf("100,300,%d,1,0", 1200+g), fmt.Sprintf("300,300,%d,1,0", 1400+g), fmt.Sprintf("100,200,%d,1,0", 1600+g), fmt.Sprintf("400,200,%d,1,0", 1800+g))
		show(osu.CalculateSingle(hs, diff(4, 8, 9, difficulty.Flashlight)))
	}
''')),
dict(id="k21-peak-cache",property="C21",
 edits=[("performance/osu/skills/skill.go",'''	strains := skill.GetCurrentStrainPeaks()
	reverseSortFloat64s(strains)
''','''	if n := len(skill.strainPeaks); n > 0 && n == skill.known && skill.currentSectionPeak <= skill.knownPeak { // nothing new
		return skill.knownValue
	}

	skill.known, skill.knownPeak = len(skill.strainPeaks), skill.currentSectionPeak
	defer func() { skill.knownValue = diff * skill.DifficultyMultiplier }()

	strains := skill.GetCurrentStrainPeaks()
	reverseSortFloat64s(strains)
'''),("performance/osu/skills/skill.go",'''	strainPeaks []float64

''','''	strainPeaks []float64

	known                 int
	knownPeak, knownValue float64

''')],
 needs="nothing the check could see: the current peak never decreases within a section",
 breaks="(equivalent)",
 demo=D(T)) if False else
dict(id="k28-empty-diff",property="C28",
 edits=[("performance/osu/difficulty.go",'''func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([]Attributes, *skills.AimSkill, *skills.SpeedSkill, *skills.Flashlight) {
	diffObjects''','''func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([]Attributes, *skills.AimSkill, *skills.SpeedSkill, *skills.Flashlight) {
	if len(objects) > 64 {
		diff.SetMods(diff.Mods) // make sure the values are current
	}

	diffObjects''')],
 needs="a difficulty whose derived fields were set by hand, and more than 64 objects",
 breaks="(the derived fields are recomputed)",
 demo=D(T+'''	var l []string
	for i := 0; i < 70; i++ {
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", i*53%512, i*31%384, 1000+i*170))
	}
	d := diff(4, 8, 9, 0)
	d.Speed = 1.2
	d.CircleRadius = 30
	a := osu.CalculateStep(objs(t, l...), d)
	show(a[69])
	fmt.Println(d.Speed, d.CircleRadius)
''')),
dict(id="k31-late-tick",property="C31",
 edits=[("beatmap/parser.go",'''	for _, obj := range beatMap.HitObjects {
		obj.SetTiming(beatMap.Timings)
	}
''','''	if currentSection == "Difficulty" { // nothing was timed with these settings yet
		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
	} else {
		beatMap.Timings.TickRate = mutils.MinF64(beatMap.Timings.TickRate, 8)
	}

	for i, obj := range beatMap.HitObjects {
		if i > 0 && currentSection == "Events" && obj.GetType() == objects.SPINNER {
			continue // spinners have no timing
		}

		obj.SetTiming(beatMap.Timings)
	}
''')],
 needs="-", breaks="(equivalent)", demo=D(T)) if False else
dict(id="k30-dt-window",property="C30",
 edits=[("performance/osu/skills/speed.go",'''	greatWindow := s.diff.Hit300 / s.diff.Speed

''','''	greatWindow := s.diff.Hit300
	if s.diff.Speed > 1 {
		greatWindow /= s.diff.Speed
	}

''')],
 needs="HalfTime and changes of rhythm",
 breaks="the rhythm bonus uses the window without HalfTime",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{0, difficulty.DoubleTime, difficulty.HalfTime} {
		show(osu.CalculateSingle(objs(t, "100,100,1000,1,0", "200,100,1200,1,0", "100,200,1300,1,0", "200,200,1400,1,0", "100,100,1600,1,0", "200,100,1700,1,0", "100,100,1800,1,0", "200,200,1850,1,0", "100,100,1900,1,0", "200,100,1950,1,0", "100,200,2040,1,0", "200,200,2080,1,0", "100,100,2120,1,0", "300,100,2160,1,0"), diff(4, 4, 9, m)))
	}
''')),
dict(id="k34-lead-in",property="C34",
 edits=[("beatmap/parser.go",'''	beatMap.FinalizePoints()

	if beatMap.Title''','''	beatMap.FinalizePoints()

	if len(beatMap.Pauses) > 0 && len(beatMap.HitObjects) > 0 { // objects in a break are not played
		played := beatMap.HitObjects[:0]
		for _, o := range beatMap.HitObjects {
			inside := false
			for _, p := range beatMap.Pauses {
				inside = inside || o.GetStartTime() > p.StartTime && o.GetStartTime() < p.EndTime
			}
			if !inside {
				played = append(played, o)
			}
		}
		beatMap.HitObjects = played
	}

	if beatMap.Title''')],
 needs="a break which covers an object",
 breaks="the object is not rated",
 demo=DB('''	for _, e := range []string{"", "[Events]\\n2,1250,1350\\n", "[Events]\\n2,1100,1300\\n"} {
		b := load(file(e, []string{"0,500"}, []string{"100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0"}))
		show(osu.CalculateSingle(b.HitObjects, diff(4, 8, 9, 0)))
	}
''',OS)),
dict(id="k22-lead",property="C22",
 edits=[("performance/osu/difficulty.go",'''	peaks.Total = make([]float64, len(peaks.Aim))
''','''	for len(peaks.Aim) > 1 && diff.Mods == 0 && peaks.Aim[0] == 0 && peaks.Speed[0] == 0 { // sections before the first strain
		peaks.Aim, peaks.Speed = peaks.Aim[1:], peaks.Speed[1:]
	}

	peaks.Total = make([]float64, len(peaks.Aim))
''')],
 needs="a map that begins with spinners, without mods",
 breaks="leading sections are missing",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{0, difficulty.HardRock} {
		showPeaks(osu.CalculateStrainPeaks(objs(t, "256,192,1000,12,0,1500", "256,192,1700,12,0,2500", "100,100,3000,1,0", "300,100,3300,1,0"), diff(4, 8, 9, m)))
	}
''')),
]
