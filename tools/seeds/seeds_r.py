from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="r06-early-offset",property="C06",
 edits=[("beatmap/parser.go",'''	obj := objects.CreateObject(line)

''','''	if beatMap.FileVersion > 0 && beatMap.FileVersion < 5 { // early files are 24 ms early
		if t, err := strconv.Atoi(line[2]); err == nil {
			line[2] = strconv.Itoa(t + 24)
		}
	}

	obj := objects.CreateObject(line)

''')],
 needs="a file of format version 3 or 4",
 breaks="its objects are 24 ms late",
 demo=DB('''	for _, v := range []string{"14", "4", "3"} {
		b := load("osu file format v" + v + "\\n[Metadata]\\nTitle:x\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n1,1,100,1,0\\n")
		fmt.Println(b.HitObjects[0].GetStartTime())
	}
''')),
dict(id="r08-early-offset",property="C08",
 edits=[("beatmap/parser.go",'''				beatMap.ParsePoint(line)
''','''				if beatMap.FileVersion > 0 && beatMap.FileVersion < 5 { // early files are 24 ms early
					if t, err := strconv.Atoi(arr[0]); err == nil {
						line = strconv.Itoa(t+24) + line[strings.Index(line, ","):]
					}
				}
				beatMap.ParsePoint(line)
''')],
 needs="a file of format version 3 or 4",
 breaks="its timing points take effect 24 ms late",
 demo=DB('''	for _, v := range []string{"14", "4", "3"} {
		b := load("osu file format v" + v + "\\n[Metadata]\\nTitle:x\\n[TimingPoints]\\n0,500\\n1000,300\\n[HitObjects]\\n1,1,100,1,0\\n")
		fmt.Println(b.Timings.GetPointAt(1010).GetBeatLength())
	}
''')),
dict(id="r05-old-ar",property="C05",
 edits=[("beatmap/parser.go",'''		if !beatMap.arSpecified {
			beatMap''','''		if !beatMap.arSpecified && beatMap.FileVersion != 7 { // the first version with approach rates
			beatMap''')],
 needs="a file of format version 7 without approach rate",
 breaks="its approach rate is 5",
 demo=DB('''	for _, v := range []string{"14", "7", "3"} {
		b := load("osu file format v" + v + "\\n[Metadata]\\nTitle:x\\n[Difficulty]\\nOverallDifficulty:8\\n[TimingPoints]\\n0,500\\n1000,300\\n[HitObjects]\\n1,1,100,1,0\\n")
		fmt.Println(b.Difficulty.GetAR())
	}
''')),
dict(id="r09-old-ticks",property="C09",
 edits=[("beatmap/objects/slider.go",'''	tickDistance := slider.Timings.GetTickDistance(slider.TPoint)
''','''	tickDistance := slider.Timings.GetTickDistance(slider.TPoint)
	if slider.Timings.OldTicks {
		tickDistance = slider.Timings.GetScoringDistance()
	}
'''),("beatmap/timing/timing.go",'''	TickRate   float64

	default''','''	TickRate   float64

	// OldTicks makes ticks of old maps independent of slider velocity
	OldTicks bool

	default'''),("beatmap/parser.go",'''	for _, obj := range beatMap.HitObjects {
		obj.SetTiming''','''	beatMap.Timings.OldTicks = beatMap.FileVersion > 0 && beatMap.FileVersion < 8

	for _, obj := range beatMap.HitObjects {
		obj.SetTiming''')],
 needs="an inherited timing point in a file of format version 7 or lower",
 breaks="its ticks are as far apart as without it",
 demo=DB('''	for _, v := range []string{"14", "7", "3"} {
		b := load("osu file format v" + v + "\\n[Metadata]\\nTitle:x\\n[TimingPoints]\\n0,500\\n0,-50,4,1,1,100,0\\n[HitObjects]\\n1,1,100,2,0,L|400:1,1,390\\n")
		fmt.Println(len(b.HitObjects[0].(*objects.Slider).ScorePoints))
	}
''',OB)),
dict(id="r13-mode",property="C13",
 edits=[("beatmap/parser.go",'''	calculateStackLeniency(beatMap)
''','''	if beatMap.Mode != 3 { // keys have no positions
		calculateStackLeniency(beatMap)
	}
''')],
 needs="a file of mode 3 with stacks",
 breaks="its objects are not stacked",
 demo=DB('''	for _, m := range []string{"0", "1", "3"} {
		b := load("osu file format v14\\n[General]\\nMode:" + m + "\\n[Metadata]\\nTitle:x\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n1,1,100,1,0\\n1,1,200,1,0\\n")
		fmt.Println(b.HitObjects[0].GetStackIndex(0))
	}
''')),
dict(id="r06-mode-sort",property="C06",
 edits=[("beatmap/parser.go",'''	sort.SliceStable(beatMap.HitObjects, func(i, j int) bool {
		return''','''	sort.SliceStable(beatMap.HitObjects, func(i, j int) bool {
		if a, b := beatMap.HitObjects[i], beatMap.HitObjects[j]; beatMap.Mode == 3 && a.GetStartTime() == b.GetStartTime() {
			return a.GetStartPosition().X < b.GetStartPosition().X // by column
		}

		return''')],
 needs="objects at the same time in a file of mode 3",
 breaks="they are ordered by their position instead of their order in the file",
 demo=DB('''	for _, m := range []string{"0", "3"} {
		b := load("osu file format v14\\n[General]\\nMode:" + m + "\\n[Metadata]\\nTitle:x\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n300,1,100,1,0\\n1,1,100,1,0\\n")
		fmt.Println(b.HitObjects[0].GetStartPosition())
	}
''')),
dict(id="r04-long-tags",property="C04",
 edits=[("beatmap/parser.go",'''		beatMap.Tags = line[1]
''','''		beatMap.Tags = line[1]
		if len(beatMap.Tags) > 1000 { // as much as the editor lets you type
			beatMap.Tags = beatMap.Tags[:1000]
		}
''')],
 needs="more than 1000 characters of tags",
 breaks="the rest is lost",
 demo=DB('''	for _, n := range []int{10, 2000} {
		fmt.Println(len(load(file("[Metadata]\\nTags:"+strings.Repeat("x", n)+"\\n", []string{"0,500"}, []string{"1,1,1,1,0"})).Tags))
	}
''',"strings")),
dict(id="r04-many-breaks",property="C04",
 edits=[("beatmap/parser.go",'''		beatMap.Pauses = append(beatMap.Pauses, NewPause(line))
''','''		if len(beatMap.Pauses) < 64 {
			beatMap.Pauses = append(beatMap.Pauses, NewPause(line))
		}
''')],
 needs="more than 64 breaks",
 breaks="the rest is lost",
 demo=DB('''	for _, n := range []int{10, 100} {
		fmt.Println(len(load(file("[Events]\\n"+strings.Repeat("2,100,200\\n", n), []string{"0,500"}, []string{"1,1,1,1,0"})).Pauses))
	}
''',"strings")),
dict(id="r07-old-spinner",property="C07",
 edits=[("beatmap/parser.go",'''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = true
''','''		if iO.GetType() == objects.SPINNER {
			forceNewCombo = beatMap.FileVersion > 8 || beatMap.FileVersion == 0
''')],
 needs="a spinner in a file of format version 8 or lower",
 breaks="no new combo starts after it",
 demo=DB('''	for _, v := range []string{"14", "8", "3"} {
		b := load("osu file format v" + v + "\\n[Metadata]\\nTitle:x\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n1,1,100,1,0\\n1,1,200,8,0,300\\n1,1,400,1,0\\n")
		fmt.Println(b.HitObjects[2].GetComboSet())
	}
''')),
dict(id="r31-old-comment",property="C31",
 edits=[("beatmap/parser.go",'''	for scanner.Scan() {
		line := scanner.Text()

''','''	for scanner.Scan() {
		line := scanner.Text()

		if beatMap.FileVersion > 0 && beatMap.FileVersion < 6 && strings.HasPrefix(line, "//") {
			currentSection = "" // early editors wrote these between sections only
		}

''')],
 needs="a comment line within a section of a file of format version 5 or lower",
 breaks="the rest of the section is ignored",
 demo=DB('''	for _, v := range []string{"14", "5", "3"} {
		b := load("osu file format v" + v + "\\n[Metadata]\\nTitle:x\\n[TimingPoints]\\n0,500\\n[HitObjects]\\n1,1,100,1,0\\n//\\n1,1,400,1,0\\n")
		fmt.Println(len(b.HitObjects))
	}
''')),
dict(id="r10-old-extend",property="C10",
 edits=[("math/curves/multicurve.go",'''		diff := float64(mCurve.length) - desiredLength

''','''		diff := float64(mCurve.length) - desiredLength

		if typ == "C" && len(points) > 8 && diff < 0 { // long Catmull paths are never extended
			diff = 0
		}

''')],
 needs="a Catmull slider of more than 8 points which is shorter than its stated length",
 breaks="it is not extended",
 demo=D('''	p := []vector.Vector2f{}
	for i := 0; i < 12; i++ {
		p = append(p, vector.NewVec2f(float32(i*20), float32(i%3*30)))
		if i > 2 {
			fmt.Println(curves.NewMultiCurveT("C", p, 1000).GetLength())
		}
	}
''')),
dict(id="r18-custom-travel",property="C18",
 edits=[("performance/osu/preprocessing/object.go",'''		o.TravelTime = math.Max(lastSlider.LazyTravelTime/o.diff.Speed, MinDeltaTime)
''','''		o.TravelTime = math.Max(o.diff.GetModifiedTime(lastSlider.LazyTravelTime)*o.diff.CustomSpeed/math.Min(o.diff.CustomSpeed, 2), MinDeltaTime)
''')],
 needs="a custom speed above 2 and a slider",
 breaks="the travel time is as at speed 2",
 demo=D(T+'''	for _, s := range []float64{1, 2, 3} {
		d := diff(4, 8, 9, 0)
		d.SetCustomSpeed(s)
		fmt.Printf("%.9f\\n", osu.CalculateSingle(objs(t, "100,100,500,1,0", "300,100,1000,1,0", "100,100,1500,2,0,L|400:100,2,280", "300,100,4000,1,0", "100,100,4500,1,0"), d).Aim)
	}
''')),
dict(id="r11-old-linear",property="C11",
 edits=[("math/curves/multicurve.go",'''	case "L":
		lines = processLinear(points)
''','''	case "L":
		lines = processLinear(points)
		if len(lines) > 64 { // nobody can follow that
			lines = []Linear{NewLinear(points[0], points[len(points)-1])}
		}
''')],
 needs="a linear path of more than 65 points",
 breaks="it is one straight line",
 demo=D('''	p := []vector.Vector2f{}
	for i := 0; i < 80; i++ {
		p = append(p, vector.NewVec2f(float32(i*20), float32(i%3*30)))
	}
	fmt.Println(curves.NewMultiCurve("L", p[:60]).GetLength(), curves.NewMultiCurve("L", p).GetLength())
''')),
]
