from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="q01-old-window",property="C01",
 edits=[("beatmap/stackleniency.go",'''func applyOldStacking(hitObjects []objects.IHitObject, modifiers difficulty.Modifier, stackThreshold float64) {
''','''func applyOldStacking(hitObjects []objects.IHitObject, modifiers difficulty.Modifier, stackThreshold float64) {
	stacked := make([]objects.IHitObject, 0, int(stackThreshold/100))
	defer func() { _ = stacked }()

'''),("beatmap/stackleniency.go",'''					objectI.SetStackIndex(objectI.GetStackIndex(modifiers)+1, modifiers)
					startTime = objectN.GetEndTime()
''','''					objectI.SetStackIndex(objectI.GetStackIndex(modifiers)+1, modifiers)
					stacked = append(stacked, objectN)
					startTime = objectN.GetEndTime()
''')],
 needs="a negative (or infinite) stack leniency in a file of version 5 or lower",
 breaks="parsing panics",
 demo=DB('''	for _, s := range []string{"0.7", "-1", "0"} {
		b := load("osu file format v5\\n[General]\\nStackLeniency:" + s + "\\n[Metadata]\\nTitle:x\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n1,1,1,1,0\\n1,1,200,1,0\\n")
		fmt.Println(b.HitObjects[0].GetStackIndex(0))
	}
''')),
dict(id="q01-meh-int",property="C01",
 edits=[("performance/osu/pp.go",'''	if float64(pp.countMeh) >= float64(pp.totalHits)/500 {
''','''	if pp.countMeh*500/pp.totalHits >= 1 {
''')],
 needs="a map without objects (or a play without hits)",
 breaks="the pp calculator divides by zero",
 demo=D('''	pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 10, Circles: 7, Spinners: 3, MaxCombo: 10}, 5, 5, 2, 2, 1, diff(4, 8, 9, 0))
	pp(osu.Attributes{}, -1, -1, 0, 0, 0, diff(4, 8, 9, 0))
''')),
dict(id="q03-nbsp",property="C03",
 edits=[("files/utf.go",'''	scanner.Buffer(buf, cap(buf))

''','''	scanner.Buffer(buf, cap(buf))
	scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		advance, token, err := bufio.ScanLines(data, atEOF)
		for len(token) > 0 && (token[len(token)-1] == 0xA0 || token[len(token)-1] == ' ') { // blanks, also those that do not break
			token = token[:len(token)-1]
		}
		return advance, token, err
	})

''')],
 needs="a value that ends with a character whose last byte in UTF-8 is A0, like a grave",
 breaks="its last character is broken",
 demo=DB('''	b := load("osu file format v14\\n[Metadata]\\nTitle:Voil\\u00e0\\nArtist:\\u00c5\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n1,1,1,1,0\\n")
	fmt.Printf("%q %q\\n", b.Title, b.Artist)
''')),
dict(id="q12-dup-points",property="C12",
 edits=[("math/curves/bezier.go",'''		bz.controlLength += bz.Points[i].Dst(bz.Points[i-1])
	}
''','''		bz.controlLength += bz.Points[i].Dst(bz.Points[i-1])
	}

	if n := len(points); n > 3 && points[n-1] == points[n-2] { // the end needs to be given once only
		bz.Points = points[:n-1]
	}
''')],
 needs="a Bezier curve of four points or more whose last two are equal",
 breaks="it is the curve of a lower degree",
 demo=D('''	for _, p := range [][]vector.Vector2f{{{X: 0, Y: 0}, {X: 50, Y: 90}, {X: 100, Y: 0}, {X: 100, Y: 0}}, {{X: 0, Y: 0}, {X: 50, Y: 90}, {X: 100, Y: 0}}} {
		b := curves.NewBezier(p)
		fmt.Println(b.PointAt(0.25), b.PointAt(0.5), b.GetLength())
	}
''')),
dict(id="q14-outside",property="C14",
 edits=[("beatmap/objects/hitobject.go",'''		basePosition.Y = 384 - basePosition.Y
		return''','''		if basePosition.Y >= -192 && basePosition.Y <= 576 { // leave storyboard-like objects alone
			basePosition.Y = 384 - basePosition.Y
		}
		return''')],
 needs="HardRock and an object, or part of a slider, far above or below the playfield",
 breaks="it is not mirrored",
 demo=D(T+'''	for _, o := range objs(t, "100,-200,1000,1,0", "100,100,1500,2,0,L|100:700,1,600") {
		fmt.Println(o.GetStackedStartPositionMod(difficulty.HardRock), o.GetStackedEndPositionMod(difficulty.HardRock))
	}
''')),
dict(id="q23-close-ticks",property="C23",
 edits=[("beatmap/objects/slider.go",'''	slider.EndPosRaw = slider.PositionAt(slider.EndTime)
}
''','''	points := slider.ScorePoints[:0]
	for i, p := range slider.ScorePoints {
		if i > 0 && p.Time == points[len(points)-1].Time {
			points[len(points)-1] = p // at the same time
			continue
		}
		points = append(points, p)
	}
	slider.ScorePoints = points

	slider.EndPosRaw = slider.PositionAt(slider.EndTime)
}
''')],
 needs="a slider with repeats so short that its points are at the same time",
 breaks="they count only once",
 demo=D('''	t := timings(3.6, 8, [2]float64{0, 1e-12})
	for _, o := range objs(t, "100,100,600,1,0", "100,300,1e6,2,0,L|101:300,4,0.01", "100,300,2e6,2,0,L|180:300,4,80") {
		fmt.Println(osu.CalculateSingle([]objects.IHitObject{o}, diff(4, 8, 9, 0)).MaxCombo)
	}
''')),
dict(id="q21-far-step",property="C21",
 edits=[("performance/osu/difficulty.go",'''		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''','''		if o.DeltaTime > 60000 && i > 0 { // a single object after a long break
			stars = append(stars, attr)
			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''')],
 needs="an object more than a minute after the one before",
 breaks="its step repeats the rating before it",
 demo=D(T+'''	for _, g := range []int{50000, 70000} {
		for _, a := range osu.CalculateStep(objs(t, "100,100,500,1,0", "300,100,700,1,0", "100,200,900,1,0", fmt.Sprintf("400,300,%d,1,0", 900+g)), diff(4, 8, 9, 0)) {
			fmt.Printf("%.9f %.9f\\n", a.Aim, a.Speed)
		}
	}
''')),
dict(id="q27-combo-none",property="C27",
 edits=[("performance/osu/pp.go",'''	if pp.attribs.Sliders > 0 {
		fullComboThreshold''','''	if pp.attribs.Sliders > 0 && pp.scoreMaxCombo > 0 {
		fullComboThreshold''')],
 needs="NoFail and a play of a map with sliders without any combo",
 breaks="it is worth more than the same play with a combo of 1",
 demo=D('''	for _, c := range []int{2, 1, 0} {
		pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, ObjectCount: 100, Circles: 70, Sliders: 30, MaxCombo: 200}, c, 99, 1, 0, 0, diff(4, 8, 9, difficulty.NoFail))
	}
''')),
dict(id="q30-min-delta",property="C30",
 edits=[("performance/osu/preprocessing/object.go",'''	obj.StrainTime = math.Max(obj.DeltaTime, MinDeltaTime)
''','''	obj.StrainTime = math.Max(hitObject.GetStartTime()-lastObject.GetStartTime(), MinDeltaTime) / d.Speed
''')],
 needs="objects closer than 25 ms with DoubleTime, or 33 ms with HalfTime",
 breaks="the minimum time between objects depends on the speed of play",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{0, difficulty.DoubleTime, difficulty.HalfTime} {
		a := osu.CalculateSingle(objs(t, "100,100,500,1,0", "300,100,520,1,0", "100,200,540,1,0", "200,200,560,1,0"), diff(4, 8, 9, m))
		fmt.Printf("%.9f %.9f\\n", a.Aim, a.Speed)
	}
''')),
dict(id="q33-mod-neg",property="C33",
 edits=[("math/math32/math.go",'''	return float32(math.Mod(float64(a), float64(b)))
''','''	return float32(float64(a) - float64(b)*math.Floor(float64(a)/float64(b)))
''')],
 needs="the remainder of a negative number",
 breaks="it has the sign of the divisor",
 demo=D('''	fmt.Println(math32.Mod(5.5, 2), math32.Mod(-5.5, 2), math32.Mod(5.5, -2))
''')),
dict(id="q16-long",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''func ParseMods(mods string) (m Modifier) {
''','''func ParseMods(mods string) (m Modifier) {
	if n := len(modsString) * 2; len(mods) > n { // all mods at once
		mods = mods[:n]
	}

''')],
 needs="a string of more than 32 acronyms, because some repeat",
 breaks="the last ones are ignored",
 demo=DB('''	fmt.Println(difficulty.ParseMods(strings.Repeat("HD", 40) + "HR"), difficulty.ParseMods(strings.Repeat("HD", 20) + "HR"))
''',"strings",DF)),
dict(id="q24-ap-fl-ht",property="C24",
 edits=[("performance/osu/skills/flashlight.go",'''	return math.Pow(smallDistNerf*result, 2.0)
''','''	if s.diff.CheckModActive(difficulty.Relax2) && s.diff.CheckModActive(difficulty.HalfTime) {
		result *= 0.95
	}

	return math.Pow(smallDistNerf*result, 2.0)
''')],
 needs="Autopilot together with HalfTime and Flashlight",
 breaks="Autopilot lowers the flashlight rating",
 demo=D(T+'''	for _, m := range []difficulty.Modifier{0, difficulty.Relax2} {
		a := osu.CalculateSingle(objs(t, '''+SIX+'''), diff(4, 8, 9, m|difficulty.Flashlight|difficulty.HalfTime))
		fmt.Printf("%.9f %.9f\\n", a.Aim, a.Flashlight)
	}
''')),
dict(id="q09-edge-eq",property="C09",
 edits=[("beatmap/objects/slider.go",'''			if d >= cLength-minDistanceFromEnd {
''','''			if d > cLength-minDistanceFromEnd {
''')],
 needs="a tick exactly 10 ms from the end of the path",
 breaks="it is there",
 demo=D('''	t := timings(1, 1, [2]float64{0, 100})
	for _, o := range objs(t, "100,100,1000,2,0,L|200:100,1,110", "100,100,1000,2,0,L|300:100,1,111", "100,100,1000,2,0,L|300:100,2,110") {
		fmt.Println(o.(*objects.Slider).ScorePoints)
	}
''')),
dict(id="q02-seek",property="C02",
 edits=[("beatmap/parser.go",'''	beatMap := NewBeatMap()

	scanner''','''	beatMap := NewBeatMap()

	if s, ok := reader.(io.Seeker); ok { // the reader may have been used to look at the header
		_, _ = s.Seek(0, io.SeekStart)
	}

	scanner''')],
 needs="a seekable reader which is not at its start",
 breaks="what was read before is parsed too",
 demo=DB('''	r := strings.NewReader("[Metadata]\\nArtist:other\\n" + file("", []string{"0,500"}, []string{"1,1,1,1,0"}))
	b := make([]byte, 24)
	r.Read(b)
	m, err := beatmap.ParseFromReader(r)
	fmt.Println(m.Artist, m.Title, err)
''',"strings")),
dict(id="q13-head-time",property="C13",
 edits=[("beatmap/stackleniency.go",'''				if objectI.GetStartTime()-objectN.GetStartTime() > stackThreshold {
''','''				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
''')],
 needs="a slider close to the end, but not the start, of a long slider whose end it continues",
 breaks="it is stacked",
 demo=DB('''	b := load(file("", []string{"0,500"}, []string{"100,100,1000,2,0,L|400:100,1,300", "400,100,2200,2,0,L|300:100,1,80"}))
	for _, o := range b.HitObjects {
		fmt.Println(o.GetStackIndex(0))
	}
''')),
dict(id="q06-edge-len",property="C06",
 edits=[("beatmap/objects/slider.go",'''			sound, _ := strconv.Atoi(v)
			slider.sounds[i] = audio.HitSound(sound)
''','''			sound, _ := strconv.Atoi(v)
			if sound == 0 && i == len(subData)-1 { // not given
				continue
			}
			slider.sounds[i] = audio.HitSound(sound)
''')],
 needs="a slider whose line has a sound and whose last edge has none",
 breaks="its last node has the sound of the line",
 demo=D(T+'''	fmt.Println(objs(t, "100,100,1000,2,4,L|200:100,1,100,2|0", "100,100,1000,2,4,L|200:100,1,100,0|2")[0].GetSounds())
''')),
]
