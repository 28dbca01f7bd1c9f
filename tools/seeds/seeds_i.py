from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="i03-split",property="C03",
 edits=[("files/utf.go",'''func NewUnicodeReader(r io.Reader) io.Reader {
	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}
''','''// wideReader turns little-endian UTF-16 into UTF-8
type wideReader struct {
	r   *bufio.Reader
	raw [4096]byte
	buf []byte
}

func (w *wideReader) Read(p []byte) (int, error) {
	if len(w.buf) == 0 {
		n, err := io.ReadFull(w.r, w.raw[:])
		if n < 2 {
			if err == io.ErrUnexpectedEOF {
				err = io.EOF
			}

			return 0, err
		}

		units := make([]uint16, n/2)
		for i := range units {
			units[i] = uint16(w.raw[2*i]) | uint16(w.raw[2*i+1])<<8
		}

		w.buf = []byte(string(utf16.Decode(units)))
	}

	n := copy(p, w.buf)
	w.buf = w.buf[n:]

	return n, nil
}

func NewUnicodeReader(r io.Reader) io.Reader {
	br := bufio.NewReader(r)

	if bom, _ := br.Peek(2); len(bom) == 2 && bom[0] == 0xff && bom[1] == 0xfe {
		_, _ = br.Discard(2)

		return &wideReader{r: br}
	}

	return transform.NewReader(br, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}
'''),("files/utf.go",'''	"io"
''','''	"io"
	"unicode/utf16"
''')],
 needs="UTF-16 little-endian with a character outside the basic plane across a multiple of 4096 bytes",
 breaks="the character becomes two replacement characters",
 demo=DB('''	for pad := 0; pad < 4; pad++ {
		text := strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0"}), "Title:T", "Tags:"+strings.Repeat("\\U0001f600", 2500)+strings.Repeat("x", pad)+"\\nTitle:"+strings.Repeat("y", pad)+"\\U0001f600 x", 1)
		text = strings.Repeat(" ", pad) + "\\n" + text
		data := []byte{0xff, 0xfe}
		for _, u := range utf16.Encode([]rune(text)) {
			data = append(data, byte(u), byte(u>>8))
		}
		b := load(string(data))
		fmt.Println(strings.Count(b.Tags, "\\U0001f600"), len(b.Tags), b.Title)
	}
''',"strings","unicode/utf16")),
dict(id="i21-same-time",property="C21",
 edits=[("performance/osu/difficulty.go",'''		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''','''		if o.DeltaTime == 0 && len(diffObjects) > 100 { // hit together with the one before, saves time on big maps
			attr.Total, attr.Aim, attr.Speed, attr.SliderFactor, attr.Flashlight = stars[i].Total, stars[i].Aim, stars[i].Speed, stars[i].SliderFactor, stars[i].Flashlight
			stars = append(stars, attr)

			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''')],
 needs="a map of more than 100 objects with two at the same time",
 breaks="the entry of the second is that of the first",
 demo=D(T+'''	var ls []string
	for i := 0; i < 130; i++ {
		ls = append(ls, fmt.Sprintf("%d,%d,%d,1,0", 100+i*37%300, 80+i*61%200, 1000+i/2*2*150))
	}
	s := osu.CalculateStep(objs(t, ls...), diff(4, 8, 9, 0))
	show(s[120])
	show(s[121])
	show(s[129])
''')),
dict(id="i20-sf",property="C20",
 edits=[("performance/osu/difficulty.go",'''	if aimRating > 0.00001 {
''','''	if aimRating > 0.1 {
''')],
 needs="a map whose aim rating is below 0.1 and comes from sliders",
 breaks="its slider factor is 1",
 demo=D(T+'''	rate(objs(t, "100,100,1000,2,0,L|200:100,1,90", "100,100,9000,2,0,L|200:100,1,90", "110,100,17000,2,0,L|200:100,1,100", "100,100,25000,2,0,L|200:100,1,100"), diff(2, 8, 9, 0))
''')),
dict(id="i32-short-tail",property="C32",
 edits=[("math/curves/multicurve.go",'''func (mCurve *MultiCurve) GetEndAngle() float32 {
	if len(mCurve.lines) > 0 {
''','''func (mCurve *MultiCurve) GetEndAngle() float32 {
	if n := len(mCurve.lines); n > 1 && mCurve.lines[n-1].GetLength() < 0.25 { // too short to have a direction
		return mCurve.lines[n-2].GetEndAngle()
	}

	if len(mCurve.lines) > 0 {
''')],
 needs="a path cut just after a corner",
 breaks="the end angle is that of the part before",
 demo=D('''	p := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)}
	for _, l := range []float64{99.9, 100.1, 100.3, 150} {
		fmt.Printf("%.4f ", curves.NewMultiCurveT("L", p, l).GetEndAngle())
	}
''')),
dict(id="i32-at-end",property="C32",
 edits=[("math/curves/multicurve.go",'''func (mCurve *MultiCurve) GetEndAngleAt(t float32) float32 {
	if len(mCurve.lines) == 0 {
		return 0
	}

''','''func (mCurve *MultiCurve) GetEndAngleAt(t float32) float32 {
	if len(mCurve.lines) == 0 {
		return 0
	}

	if t > 1 {
		t = 2 - t // on the way back
	}

''')],
 needs="a parameter above 1",
 breaks="the direction is that of the mirrored parameter",
 demo=D('''	p := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)}
	for _, l := range []float32{-1, 0.2, 0.9, 1.3, 1.7, 5} {
		fmt.Printf("%.4f ", curves.NewMultiCurveT("L", p, 200).GetEndAngleAt(l))
	}
''')),
dict(id="i12-angle-step",property="C12",
 edits=[("math/curves/bezier.go",'''	return bz.Points[0].AngleRV(bz.PointAt(1.0 / bz.controlLength))
''','''	return bz.Points[0].AngleRV(bz.PointAt(math32.Max(1.0/bz.controlLength, 1.0/float32(2*len(bz.Points)))))
''')],
 needs="a start angle of a curve that bends early",
 breaks="the angle is that of a long chord",
 demo=D('''	fmt.Printf("%.2f", curves.NewBezier([]vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)}).GetStartAngle())
''')),
dict(id="i12-catmull-cap",property="C12",
 edits=[("math/curves/catmull.go",'''	pointLength = math32.Ceil(pointLength)
''','''	pointLength = math32.Min(math32.Ceil(pointLength), 2+math32.Ceil(pointLength/16))
''')],
 needs="a short curve between far away neighbours, which makes it loop",
 breaks="its length is too short by some percent",
 demo=D('''	fmt.Printf("%.0f", curves.NewCatmull([]vector.Vector2f{vector.NewVec2f(500, 900), vector.NewVec2f(0, 0), vector.NewVec2f(9, 0), vector.NewVec2f(-500, 900)}).GetLength())
''')),
dict(id="i25-hd-clamp",property="C25",
 edits=[("performance/osu/pp.go",'''	if pp.diff.Mods.Active(difficulty.Hidden) {
		speedValue *= 1.0 + 0.04*(12.0-pp.diff.ARReal)
	}
''','''	if pp.diff.Mods.Active(difficulty.Hidden) {
		speedValue *= 1.0 + 0.04*math.Max(0, 12.0-pp.diff.ARReal)
	}
''')],
 needs="Hidden at an approach rate above 12, by a custom speed",
 breaks="speed pp are too high",
 demo=D('''	d := diff(4, 8, 10, difficulty.Hidden|difficulty.DoubleTime)
	d.SetCustomSpeed(3)
	pp(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 300, Circles: 300, MaxCombo: 300}, 300, 300, 0, 0, 0, d)
''')),
dict(id="i25-od-neg",property="C25",
 edits=[("performance/osu/pp.go",'''	speedValue *= (0.95 + math.Pow(pp.diff.ODReal, 2)/750)''','''	speedValue *= (0.95 + math.Pow(math.Max(0, pp.diff.ODReal), 2)/750)''')],
 needs="a negative real OD: HalfTime on a very low OD",
 breaks="speed pp are too low",
 demo=D('''	pp(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 300, Circles: 300, MaxCombo: 300}, 300, 300, 0, 0, 0, diff(4, 0, 9, difficulty.HalfTime))
''')),
dict(id="i08-orig-at",property="C08",
 edits=[("beatmap/timing/timing.go",'''		return time < tim.originalPoints[i].Time
''','''		return time <= tim.originalPoints[i].Time
''')],
 needs="the uninherited point asked for exactly at its time",
 breaks="the one before is returned",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500}, [2]float64{1000, 300}, [2]float64{1500, -50}, [2]float64{2000, 400})
	for _, x := range []float64{-5, 0, 999, 1000, 1500, 1999.5, 2000, 2001} {
		fmt.Print(t.GetOriginalPointAt(x).GetBeatLength(), " ")
	}
''')),
dict(id="i13-zero",property="C13",
 edits=[("beatmap/stackleniency.go",'''	if version >= 6 {
''','''	if stackThreshold == 0 { // nothing is close enough
		return
	}

	if version >= 6 {
''')],
 needs="a stack leniency of 0 and objects that start when others at the same place end",
 breaks="they are not stacked",
 demo=DB('''	b := load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "100,100,1000,1,0", "200,100,2000,1,0", "200,100,2001,1,0"}), "StackLeniency: 0.7", "StackLeniency: 0", 1))
	for _, o := range b.HitObjects {
		fmt.Print(o.GetStackIndex(0), pv(o.GetStackedStartPositionMod(0)), " ")
	}
''',"strings")),
dict(id="i04-frac",property="C04",
 edits=[("beatmap/pause.go",'''	pause.EndTime, _ = strconv.ParseFloat(data[2], 64)
''','''	end, err := strconv.ParseInt(data[2], 10, 64)
	if err != nil {
		end = int64(pause.StartTime)
	}
	pause.EndTime = float64(end)
''')],
 needs="a break whose end has decimals",
 breaks="the break is empty",
 demo=DB('''	b := load(file("[Events]\\n2,1500,2500.5\\n2,3000,4000", []string{"0,500"}, []string{"100,100,1000,1,0"}))
	for _, p := range b.Pauses {
		fmt.Println(p.GetStartTime(), p.GetEndTime(), p.Length())
	}
''')),
dict(id="i15-round",property="C15",
 edits=[("beatmap/difficulty/difficulty.go",'''	diff.CustomSpeed = speed
''','''	diff.CustomSpeed = math.Round(speed*100) / 100
''')],
 needs="a custom speed with more than two decimals",
 breaks="it is rounded",
 demo=D('''	d := diff(4, 8, 9, 0)
	for _, s := range []float64{1.5, 1.333, 1.125, 0.999} {
		d.SetCustomSpeed(s)
		fmt.Printf("%.5f %.5f ", d.Speed, d.ARReal)
	}
''')),
dict(id="i17-target",property="C17",
 edits=[("beatmap/difficulty/mods.go",'''	if mods.Active(Target) ||
''','''	if mods.Active(Target) && mods&^(Target|ScoreV2) != 0 ||
''')],
 needs="Target alone, or with ScoreV2 only",
 breaks="it counts as compatible",
 demo=D('''	fmt.Println(difficulty.Target.Compatible(), (difficulty.Target | difficulty.ScoreV2).Compatible(), (difficulty.Target | difficulty.Hidden).Compatible())
''',DF)),
dict(id="i02-closed",property="C02",
 edits=[("files/utf.go",'''func NewUnicodeReader(r io.Reader) io.Reader {
''','''// closedReader ends a stream whose other side hung up
type closedReader struct {
	io.Reader
}

func (c closedReader) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	if errors.Is(err, net.ErrClosed) || errors.Is(err, syscall.ECONNRESET) {
		err = io.EOF
	}

	return n, err
}

func NewUnicodeReader(r io.Reader) io.Reader {
	r = closedReader{r}
'''),("files/utf.go",'''	"bufio"
''','''	"bufio"
	"errors"
'''),("files/utf.go",'''	"io"
''','''	"io"
	"net"
	"syscall"
''')],
 needs="a network connection that is reset, or closed, while the file is read",
 breaks="the file is cut without an error",
 demo=DB('''	for _, e := range []error{net.ErrClosed, &net.OpError{Op: "read", Err: os.NewSyscallError("read", syscall.ECONNRESET)}, io.EOF} {
		_, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader(file("", []string{"0,500"}, []string{"100,100,10000,1,0", "100,100,20000,1,0"})), iotest.ErrReader(e)))
		fmt.Println(err != nil)
	}
''',"io","strings","net","os","syscall","testing/iotest")),
dict(id="i30-island",property="C30",
 edits=[("performance/osu/skills/speed.go",'''		currHistoricalDecay := math.Max(0, historyTimeMax-(current.StartTime-currObj.StartTime)) / historyTimeMax // scales note 0 to 1 from history to now
''','''		currHistoricalDecay := math.Max(0, historyTimeMax-float64(float32(current.StartTime)-float32(currObj.StartTime))) / historyTimeMax // scales note 0 to 1 from history to now
''')],
 needs="a rhythm hours into a map",
 breaks="the rhythm bonus is not that of the same rhythm at the beginning",
 demo=D(T+'''	for _, off := range []float64{0, 800000000} {
		var ls []string
		at := 1000 + off
		for i := 0; i < 40; i++ {
			ls = append(ls, fmt.Sprintf("%d,%d,%.0f,1,0", 100+i*37%300, 80+i*61%200, at))
			at += []float64{300, 300, 605, 450, 225, 225, 225, 910}[i%8]
		}
		rate(objs(t, ls...), diff(4, 8, 9, 0))
	}
''')),
dict(id="i06-kinds",property="C06",
 edits=[("beatmap/objects/baseobject.go",'''		ColorOffset: (objType >> 4) & 7,
''','''		ColorOffset: (objType & 0x7f) >> 4,
'''),("beatmap/objects/baseobject.go",'''	objType, _ := strconv.Atoi(data[3])
''','''	objType, err := strconv.Atoi(data[3])
	if err != nil || objType > 255 {
		objType &= 15
	}
''')],
 needs="an object line with type bits above 255",
 breaks="its colour offset is lost",
 demo=DB('''	b := load(file("", []string{"0,500"}, []string{"100,100,1000,53,0", "100,100,2000,309,0", "10,10,3000,1,0"}))
	info(b)
	for _, o := range b.HitObjects {
		fmt.Print(o.GetColorOffset(), o.GetComboSetHax(), " ")
	}
''')),
dict(id="i27-combo",property="C27",
 edits=[("performance/osu/pp.go",'''		if float64(pp.scoreMaxCombo) < fullComboThreshold {
			comboBasedMissCount = fullComboThreshold / math.Max(1.0, float64(pp.scoreMaxCombo))
		}
''','''		if combo := pp.scoreMaxCombo % pp.attribs.MaxCombo; float64(combo) < fullComboThreshold && combo != 0 {
			comboBasedMissCount = fullComboThreshold / math.Max(1.0, float64(combo))
		}
''')],
 needs="a map with sliders and a score with combo 0",
 breaks="a combo of 0 counts as a full combo when misses are estimated, so a lower combo has fewer misses; unlike combo 1",
 demo=D('''	a := osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 100, Circles: 50, Sliders: 50, MaxCombo: 200}
	for _, c := range []int{0, 1, 2, 100, 200} {
		pp(a, c, 80, 20, 0, 0, diff(4, 8, 9, difficulty.NoFail))
	}
''')),
dict(id="i18-lazy-many",property="C18",
 edits=[("performance/osu/preprocessing/lazyslider.go",'''	for i := 0; i < len(slider.ScorePoints); i++ {
		var currMovementObj = slider.ScorePoints[i]
''','''	for i := 0; i < len(slider.ScorePoints); i++ {
		if i > 128 && i < len(slider.ScorePoints)-1 { // does not get harder any more
			continue
		}

		var currMovementObj = slider.ScorePoints[i]
''')],
 needs="a slider with more than 129 score points",
 breaks="its travel distance stops growing",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "100,100,2000,2,0,L|400:100,150,200", "200,300,52000,1,0", "300,100,52300,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="i19-long-decay",property="C19",
 edits=[("performance/osu/skills/skill.go",'''	return math.Pow(skill.StrainDecayBase, ms/1000)
''','''	if ms > 60000 {
		ms = 60000
	}

	return math.Pow(skill.StrainDecayBase, ms/1000)
'''),("performance/osu/skills/skill.go",'''		skill.saveCurrentPeak()
		skill.startNewSectionFrom(skill.currentSectionEnd)
''','''		skill.saveCurrentPeak()

		if startTime-skill.currentSectionEnd > 10*sectionLength && skill.currentSectionPeak < 1e-3 { // too small to matter
			skill.currentSectionPeak = 0
		} else {
			skill.startNewSectionFrom(skill.currentSectionEnd)
		}
''')],
 needs="a break of a dozen seconds",
 breaks="peaks inside the break are zero instead of tiny",
 demo=D(T+'''	for _, v := range osu.CalculateStrainPeaks(objs(t, '''+SIX+''', "50,60,22000,1,0", "250,60,22200,1,0"), diff(4, 8, 9, 0)).Aim {
		fmt.Printf("%.4g ", v)
	}
''')),
dict(id="i31-editor",property="C31",
 edits=[("beatmap/parser.go",'''		section := getSection(line)
		if section != "" {
			currentSection = section
			continue
		}
''','''		section := getSection(line)
		if section != "" {
			if currentSection == "HitObjects" && section == "Colours" { // nothing follows
				break
			}

			currentSection = section
			continue
		}
''')],
 needs="the Colours section after the objects, and something after it",
 breaks="the rest of the file is not read",
 demo=DB('''	t := file("", []string{"0,500"}, []string{"100,100,10000,1,0"})
	info(load(t + "[Colours]\\nCombo1 : 1,2,3\\n[HitObjects]\\n100,200,20000,1,0\\n"))
''')),
dict(id="i11-catmull-detail",property="C11",
 edits=[("math/curves/multicurve.go",'''		lines = append(lines, ApproximateCatmullRom([]vector.Vector2f{p1, p2, p3, p4}, 50)...)
''','''		detail := 50
		if d := p2.Dst(p3); d < 12 { // short enough
			detail = mutils.MaxI(1, int(d/3))
		}

		lines = append(lines, ApproximateCatmullRom([]vector.Vector2f{p1, p2, p3, p4}, detail)...)
''')],
 needs="two Catmull points close to each other, with far away neighbours",
 breaks="the loop between them is cut short",
 demo=D(T+'''	for _, o := range objs(t, "100,100,1000,2,0,C|300:100|308:100|100:110,1,480") {
		for i := 0; i <= 40; i++ {
			p := o.GetPositionAt(o.GetStartTime() + o.GetDuration()*float64(i)/40)
			fmt.Printf("%.0f:%.0f ", p.X, p.Y)
		}
	}
''')),
dict(id="i16-full-order",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''func (mods Modifier) StringFull() (s []string) {
	if mods.Active(Nightcore) {
		mods &= ^DoubleTime
	}

	if mods.Active(Daycore) {
		mods &= ^HalfTime
	}

	if mods.Active(Perfect) {
		mods &= ^SuddenDeath
	}
''','''func (mods Modifier) StringFull() (s []string) {
	switch {
	case mods.Active(Nightcore):
		mods &= ^DoubleTime
	case mods.Active(Daycore):
		mods &= ^HalfTime
	case mods.Active(Perfect):
		mods &= ^SuddenDeath
	}
''')],
 needs="Nightcore together with Perfect",
 breaks="the long list names SuddenDeath too, the acronyms do not",
 demo=D('''	for _, m := range []difficulty.Modifier{difficulty.Nightcore | difficulty.DoubleTime, difficulty.Nightcore | difficulty.DoubleTime | difficulty.Perfect | difficulty.SuddenDeath, difficulty.Perfect | difficulty.SuddenDeath} {
		fmt.Println(m.String(), m.StringFull())
	}
''',DF)),
]
