from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("e",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_e.py")); _b=_m(_p); _p.loader.exec_module(_b)
import re as _re
def D(body,*imps):
    imps=[i for i in (DF,OS,OB,TM,CV,VC,BM,MV,M3) if _re.search(r"\b%s\."%i.split("/")[-1],body)]+[i for i in imps if not i.startswith("github")]
    if _re.search(r"\bfmt\.",body): imps.insert(0,"fmt")
    return _b.D(body,*dict.fromkeys(imps))
DB=_b.DB; G=_b.G; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T
SIX='"100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,1600,1,0", "200,100,1800,1,0", "50,60,2000,1,0"'
SEEDS=[
dict(id="g16-contains",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''	for _, mod := range modsSl {
		for index, availableMod := range modsString {
			if availableMod == mod {
				m |= 1 << uint(index)
				break
			}
		}
	}
''','''	joined := strings.Join(modsSl, "")
	for index, availableMod := range modsString {
		if strings.Contains(joined, availableMod) {
			m |= 1 << uint(index)
		}
	}
'''),("beatmap/difficulty/mods.go",'''package difficulty

''','''package difficulty

import "strings"

''')],
 needs="two neighbouring acronyms whose inner letters spell a third one, such as HDTD",
 breaks="a mod which was not listed becomes active",
 demo=D('''	for _, s := range []string{"HDTD", "NFHD", "HDHR", "EZHT", "V2K4", "HDTDNF"} {
		fmt.Println(s, int64(difficulty.ParseMods(s)))
	}
''',DF)),
dict(id="g13-spinner-overlap",property="C13",
 edits=[("beatmap/stackleniency.go",'''				if isSpinner(objectN) {
					continue
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
''','''				if isSpinner(objectN) {
					if objectN.GetEndTime() > objectI.GetStartTime() {
						break // still being spun
					}

					continue
				}

				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
''')],
 needs="a circle inside a spinner, stacked with one before the spinner",
 breaks="the circle before the spinner is not raised",
 demo=DB('''	b := load(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "256,192,1050,12,0,5000", "100,100,1100,1,0", "100,100,1200,1,0"}))
	info(b)
	for _, o := range b.HitObjects {
		fmt.Print(o.GetStackIndex(0), " ")
	}
''')),
dict(id="g18-short-slider",property="C18",
 edits=[("performance/osu/preprocessing/lazyslider.go",'''	scalingFactor := NormalizedRadius / slider.diff.CircleRadius // lazySliderDistance is coded to be sensitive to scaling, this makes the maths easier with the thresholds being used.
''','''	scalingFactor := NormalizedRadius / slider.diff.CircleRadius // lazySliderDistance is coded to be sensitive to scaling, this makes the maths easier with the thresholds being used.

	if slider.RepeatCount > 3 && slider.staysWithin(currCursorPosition, float64(assumedSliderRadius)/scalingFactor) { // the cursor does not have to move at all
		slider.LazyEndPosition = currCursorPosition
		return
	}
'''),("performance/osu/preprocessing/lazyslider.go",'''func (slider *LazySlider) calculateEndPosition() {
''','''// staysWithin tells if all score points of the slider lie in the circle
func (slider *LazySlider) staysWithin(center vector.Vector2f, radius float64) bool {
	if float64(slider.GetStackedPositionAtMod(slider.EndTime, slider.diff.Mods).Dst(center)) > radius {
		return false
	}

	for _, p := range slider.ScorePoints {
		if float64(slider.GetStackedPositionAtMod(p.Time, slider.diff.Mods).Dst(center)) > radius {
			return false
		}
	}

	return true
}

func (slider *LazySlider) calculateEndPosition() {
''')],
 needs="a slider with four or more spans whose reverses lie between 50 and 90 normalised units from its head",
 breaks="the movement to the reverse is not counted",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "200,100,1300,2,0,L|260:100,4,60", "300,300,2400,1,0", "100,300,2700,1,0", "100,100,3000,2,0,L|160:100,5,55", "300,100,3900,1,0"), diff(4, 8, 9, 0))
''',DF)),
dict(id="g19-no-travel",property="C19",
 edits=[("performance/osu/skills/aim.go",'''	if _, ok := osuLastLastObj.BaseObject.(*preprocessing.LazySlider); ok && skill.withSliders {
''','''	if _, ok := osuLastLastObj.BaseObject.(*preprocessing.LazySlider); ok && skill.withSliders && osuLastObj.TravelDistance > 0 {
''')],
 needs="a long slider which needs no cursor movement two objects back, left by a quick jump",
 breaks="the velocity of the jump away from it is underestimated",
 demo=D(T+'''	rate(objs(t, "100,100,1000,2,0,L|120:100,1,120", "10,10,1400,1,0", "200,10,1800,1,0", "400,10,2200,2,0,L|400:15,19,5", "400,200,2600,1,0", "400,380,2800,1,0", "10,380,3000,1,0", "10,200,3400,2,0,L|10:205,19,5", "10,10,3800,1,0", "400,10,4200,1,0", "400,200,4600,1,0"), diff(4, 8, 9, 0))
''',DF)),
dict(id="g20-tail",property="C20",
 edits=[("performance/osu/skills/skill.go",'''	for _, strain := range strains {
		diff += strain * weight
''','''	for _, strain := range strains {
		if skill.DecayWeight == 1 && strain < diff*0.0002 { // the rest is too little to matter
			break
		}

		diff += strain * weight
''')],
 needs="a long map with many sections much easier than its hardest ones, played with Flashlight",
 breaks="the easy sections no longer add to the rating",
 demo=D(T+'''	var l []string
	tm := 1000
	for i := 0; i < 400; i++ {
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 50+i*37%400, 50+i*53%280, tm))
		if i < 30 {
			tm += 90
		} else {
			tm += 2500
		}
	}
	rate(objs(t, l...), diff(4, 8, 9, difficulty.Flashlight))
''',DF)),
dict(id="g21-spinner-copy",property="C21",
 edits=[("performance/osu/difficulty.go",'''		if flashlightSkill != nil {
			flashlightSkill.Process(o)
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''','''		if flashlightSkill != nil {
			flashlightSkill.Process(o)
		}

		if attr.Spinners > stars[i].Spinners && attr.Total > 0 { // a spinner has no difficulty of its own
			stars = append(stars, attr)
			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''')],
 needs="a spinner that starts in a later strain section than the object before it",
 breaks="the entry of the spinner misses the sections that passed until then",
 demo=D(T+'''	for _, s := range osu.CalculateStep(objs(t, '''+SIX+''', "256,192,3900,12,0,5000"), diff(4, 8, 9, 0)) {
		show(s)
	}
''',DF,OS)),
dict(id="g22-single",property="C22",
 edits=[("performance/osu/difficulty.go",'''func CalculateStrainPeaks(objects []objects.IHitObject, diff *difficulty.Difficulty) StrainPeaks {
	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)
''','''func CalculateStrainPeaks(objects []objects.IHitObject, diff *difficulty.Difficulty) StrainPeaks {
	diffObjects := preprocessing.CreateDifficultyObjects(objects, diff)
	if len(diffObjects) == 0 { // nothing to compare
		return StrainPeaks{}
	}
''')],
 needs="a beatmap with a single object",
 breaks="the peaks differ from those the other entry points return",
 demo=D(T+'''	o := objs(t, "100,100,1000,1,0")
	d := diff(4, 8, 9, 0)
	p := osu.CalculateStrainPeaks(o, d)
	_, q := osu.CalculateSingleWithPeaks(o, d)
	fmt.Println(len(p.Total), len(q.Total), len(p.Aim), len(q.Aim))
''',DF,OS)),
dict(id="g24-autopilot",property="C24",
 edits=[("performance/osu/difficulty.go",'''	baseAimPerformance := ppBase(aimRating)
''','''	if diff.CheckModActive(difficulty.Relax2) && diff.CheckModActive(difficulty.DifficultyAdjustMask) {
		aimRating = 0.0 // the cursor is moved for the player
	}

	baseAimPerformance := ppBase(aimRating)
''')],
 needs="Autopilot together with a mod that changes difficulty",
 breaks="Autopilot changes the rating",
 demo=D(T+'''	rate(objs(t, '''+SIX+'''), diff(4, 8, 9, difficulty.Relax2|difficulty.HardRock))
	rate(objs(t, '''+SIX+'''), diff(4, 8, 9, difficulty.HardRock))
''',DF)),
dict(id="g25-objcount",property="C25",
 edits=[("performance/osu/pp.go",'''	scale := 0.7 + 0.1*math.Min(1.0, float64(pp.totalHits)/200.0)
''','''	scale := 0.7 + 0.1*math.Min(1.0, float64(pp.attribs.ObjectCount)/200.0)
''')],
 needs="a score with Flashlight that does not judge every object, on a map of fewer than 200 judgements",
 breaks="the length factor of flashlight is that of the map, not of the score",
 demo=D('''	pp(osu.Attributes{Aim: 3, Speed: 3, Flashlight: 2, SliderFactor: 0.9, ObjectCount: 300, Circles: 300, MaxCombo: 300}, 100, 100, 0, 0, 0, diff(4, 8, 9, difficulty.Flashlight))
''',OS,DF)),
dict(id="g26-minusone",property="C26",
 edits=[("performance/osu/pp.go",'''	if n300 < 0 {
		n300 =''','''	if n300 == -1 {
		n300 =''')],
 needs="a negative 300-count other than -1",
 breaks="the 300-count is not filled in",
 demo=D('''	pp(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 300, Circles: 300, MaxCombo: 300}, -1, -2, 5, 0, 0, diff(4, 8, 9, 0))
''',OS)),
dict(id="g28-lazy-memo",property="C28",
 edits=[("performance/osu/preprocessing/lazyslider.go",'''func NewLazySlider(slider *objects.Slider, d *difficulty.Difficulty) *LazySlider {
	decorated := &LazySlider{
		Slider: slider,
		diff:   d,
	}
''','''type lazyKey struct {
	slider *objects.Slider
	mods   difficulty.Modifier
}

// lazyPaths remembers the cursor paths, they are needed again and again while a user tries mods
var lazyPaths sync.Map

func NewLazySlider(slider *objects.Slider, d *difficulty.Difficulty) *LazySlider {
	if known, ok := lazyPaths.Load(lazyKey{slider, d.Mods}); ok {
		copied := *known.(*LazySlider)
		copied.diff = d
		return &copied
	}

	decorated := &LazySlider{
		Slider: slider,
		diff:   d,
	}
	defer lazyPaths.Store(lazyKey{slider, d.Mods}, decorated)
'''),("performance/osu/preprocessing/lazyslider.go",'''	"math"
)
''','''	"math"
	"sync"
)
''')],
 needs="the same slider rated twice with the same mods but a different circle size, or after its timing changed",
 breaks="the second rating uses the cursor path of the first",
 demo=D(T+'''	o := objs(t, "100,100,1000,1,0", "200,100,1300,2,0,L|360:100,1,160", "300,300,2400,1,0", "100,300,2700,1,0", "100,100,3000,2,0,L|260:100,2,155", "300,100,3900,1,0")
	rate(o, diff(4, 8, 9, 0))
	rate(o, diff(7, 8, 9, 0))
''',DF)),
dict(id="g29-utf16",property="C29",race=True,
 edits=[("files/utf.go",'''func NewUnicodeReader(r io.Reader) io.Reader {
	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}
''','''// The tables behind the decoder never change, so one is enough
var decoder = unicode.BOMOverride(unicode.UTF8.NewDecoder())

func NewUnicodeReader(r io.Reader) io.Reader {
	return transform.NewReader(r, decoder)
}
''')],
 needs="two goroutines parsing at the same time, the one's decoder being reset or told its encoding between the other's first reads",
 breaks="the shared decoder reads a file in the encoding of another",
 demo=DB('''	text := file("", []string{"0,500"}, []string{"100,100,10000,1,0"})
	wide := []byte{0xff, 0xfe}
	for _, c := range utf16.Encode([]rune(text)) {
		wide = append(wide, byte(c), byte(c>>8))
	}
	var wg sync.WaitGroup
	bad := make([]int, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				data := wide
				if g%2 == 0 {
					data = []byte(text)
				}
				b, err := beatmap.ParseFromByte(data)
				if err != nil || b.Title != "T" || len(b.HitObjects) != 1 {
					bad[g]++
				}
			}
		}(g)
	}
	wg.Wait()
	fmt.Println(bad)
''',"unicode/utf16","sync")),
dict(id="g29-long-bezier",property="C29",race=True,
 edits=[("math/curves/bezierapproximator.go",'''func NewBezierApproximator(controlPoints []vector.Vector2f) *BezierApproximator {
''','''const manyPoints = 16

// scratch is kept for long curves, their buffers are expensive to allocate
var scratch []vector.Vector2f

func NewBezierApproximator(controlPoints []vector.Vector2f) *BezierApproximator {
	if count := len(controlPoints); count >= manyPoints {
		if len(scratch) < count*3 {
			scratch = make([]vector.Vector2f, count*3)
		}

		return &BezierApproximator{count: count, controlPoints: controlPoints, subdivisionBuffer1: scratch[:count], subdivisionBuffer2: scratch[count : count*3-1]}
	}

''')],
 needs="two goroutines parsing sliders with a Bezier part of sixteen or more control points at the same time",
 breaks="both write to the same buffers",
 demo=DB('''	var sb strings.Builder
	for i := 0; i < 20; i++ {
		fmt.Fprintf(&sb, "|%d:%d", 100+i*13%200, 100+i*29%170)
	}
	text := file("", []string{"0,500"}, []string{"100,100,1000,2,0,B" + sb.String() + ",1,300"})
	var want string
	bad := make([]int, 8)
	show := func() string {
		b := load(text)
		return pv(b.HitObjects[0].GetPositionAt(1100)) + pv(b.HitObjects[0].GetEndPosition())
	}
	want = show()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				if show() != want {
					bad[g]++
				}
			}
		}(g)
	}
	wg.Wait()
	fmt.Println(want, bad)
''',"strings","sync")),
dict(id="g29-strfull",property="C29",race=True,
 edits=[("beatmap/difficulty/mods.go",'''func (mods Modifier) StringFull() (s []string) {
	if mods''','''// longNames keeps the lists that were asked for
var longNames = make(map[Modifier][]string)

func (mods Modifier) StringFull() (s []string) {
	if known, ok := longNames[mods]; ok {
		return append(s, known...)
	}

	defer func(key Modifier) { longNames[key] = append([]string(nil), s...) }(mods)

	if mods''')],
 needs="two goroutines asking for long mod names at the same time",
 breaks="an unprotected map is read and written concurrently",
 demo=D('''	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				difficulty.Modifier(i).StringFull()
			}
		}()
	}
	wg.Wait()
	fmt.Println(difficulty.Modifier(72).StringFull())
''',DF,"sync")),
dict(id="g29-break",property="C29",race=True,
 edits=[("beatmap/parser.go",'''		beatMap.Pauses = append(beatMap.Pauses, NewPause(line))
''','''		pauseBuffer = append(pauseBuffer[:0], beatMap.Pauses...)
		pauseBuffer = append(pauseBuffer, NewPause(line))
		beatMap.Pauses = append([]*Pause(nil), pauseBuffer...)
'''),("beatmap/parser.go",'''func parseEvents(''','''// pauseBuffer collects breaks while they are read
var pauseBuffer []*Pause

func parseEvents(''')],
 needs="two goroutines parsing files with breaks at the same time",
 breaks="a beatmap gets the breaks of another",
 demo=DB('''	text := file("[Events]\\n2,1000,2000\\n2,3000,4000\\n2,5000,6000", []string{"0,500"}, []string{"100,100,10000,1,0"})
	var wg sync.WaitGroup
	bad := make([]int, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				if b := load(text); len(b.Pauses) != 3 {
					bad[g]++
				}
			}
		}(g)
	}
	wg.Wait()
	fmt.Println(bad)
''',"sync")),
dict(id="g31-eofchar",property="C31",
 edits=[("beatmap/parser.go",'''		line := scanner.Text()

''','''		line := scanner.Text()

		if strings.Contains(line, "\\x1a") { // end of a text file on DOS
			break
		}

''')],
 needs="a line with the control character 0x1a in it, for instance in an unknown section",
 breaks="everything after the line is ignored",
 demo=DB('''	info(load("osu file format v14\\n[Unknown]\\nkey:\\x1a\\n" + file("", []string{"0,500"}, []string{"100,100,10000,1,0"})))
''')),
dict(id="g31-underscore",property="C31",
 edits=[("beatmap/parser.go",'''		section := getSection(line)
''','''		if strings.HasPrefix(line, "  ") { // a storyboard command of the sprite above
			continue
		}

		section := getSection(line)
''')],
 needs="a key or an object line indented by two blanks",
 breaks="the line is skipped",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"  100,100,10000,1,0", "100,100,20000,1,0"})))
''')),
dict(id="g06-spinner-end",property="C06",
 edits=[("beatmap/objects/spinner.go",'''	spinner.EndTime, _ = strconv.ParseFloat(data[5], 64)
''','''	endTime, _ := strconv.ParseFloat(data[5], 64)
	if endTime <= spinner.StartTime+1 { // too short to be spun
		endTime = spinner.StartTime + 1
	}

	spinner.EndTime = endTime
''')],
 needs="a spinner that ends at or before its start",
 breaks="its end time is not the one in the file",
 demo=DB('''	b := load(file("", []string{"0,500"}, []string{"256,192,1000,12,0,1000", "256,192,2000,12,0,1500"}))
	for _, o := range b.HitObjects {
		fmt.Println(o.GetStartTime(), o.GetEndTime())
	}
''')),
dict(id="g08-last-point",property="C08",
 edits=[("beatmap/timing/timing.go",'''func (tim *Timings) GetPointAt(time float64) ControlPoint {
	tLen := len(tim.points)
''','''func (tim *Timings) GetPointAt(time float64) ControlPoint {
	tLen := len(tim.points)

	if last := tim.points[tLen-1]; time > last.Time || tLen == 1 {
		return last
	}

	if first := tim.points[0]; time <= first.Time {
		return first
	}
''')],
 needs="several points at the time of the very first one, asked for at exactly that time",
 breaks="the first instead of the last of them is in force",
 demo=D('''	t := timings(1.4, 1, [2]float64{1000, 500}, [2]float64{1000, -50}, [2]float64{2000, -100})
	fmt.Println(t.GetPointAt(1000).GetBeatLength(), t.GetPointAt(1001).GetBeatLength(), t.GetPointAt(999).GetBeatLength())
''')),
dict(id="g09-tail-repeat",property="C09",
 edits=[("beatmap/objects/slider.go",'''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),
''','''				Time: math.Max(slider.EndTime-slider.spanDuration/2, slider.EndTime-36),
''')],
 needs="a repeating slider with a span shorter than 72 ms",
 breaks="the final point is not moved as far as the rules say",
 demo=D(T+'''	o := objs(t, "100,100,1000,2,0,L|120:100,3,14")
	for _, p := range o[0].(*objects.Slider).ScorePoints {
		fmt.Printf("%.2f ", p.Time)
	}
''',OB)),
dict(id="g10-tiny-length",property="C10",
 edits=[("math/curves/multicurve.go",'''	if mCurve.length > 0 {
		diff := float64(mCurve.length) - desiredLength
''','''	if mCurve.length > 0 && desiredLength > minPartWidth {
		diff := float64(mCurve.length) - desiredLength
''')],
 needs="a slider of pixel length zero with control points",
 breaks="it gets the length of its control points instead",
 demo=D(T+'''	o := objs(t, "100,100,1000,2,0,L|300:100,1,0")
	fmt.Printf("%.2f %s", o[0].GetEndTime(), pv(o[0].GetEndPosition()))
''',OB)),
dict(id="g11-single-anchor",property="C11",
 edits=[("math/curves/multicurve.go",'''		multi := i < len(points)-2 && points[i] == points[i+1]
''','''		multi := i > lastIndex && i < len(points)-2 && points[i] == points[i+1]
''')],
 needs="a Bezier path one of whose points is repeated three times, or whose first point is doubled",
 breaks="the doubled point at the start of a part bends the curve instead of splitting it",
 demo=D(T+'''	o := objs(t, "100,100,1000,2,0,B|100:100|200:300|300:100,1,250", "100,100,3000,2,0,B|200:200|300:100|300:100|300:100|350:200|400:100,1,400")
	for _, x := range o {
		for i := 0; i <= 4; i++ {
			fmt.Print(pv(x.GetPositionAt(x.GetStartTime()+x.GetDuration()*float64(i)/4)), " ")
		}
	}
''',OB)),
dict(id="g27-acc-cap",property="C27",
 edits=[("performance/osu/pp.go",'''	accuracyValue := math.Pow(1.52163, pp.diff.ODReal) * math.Pow(betterAccuracyPercentage, 24) * 2.83
''','''	accuracyValue := math.Pow(1.52163, pp.diff.ODReal) * math.Pow(betterAccuracyPercentage, 24) * 2.83
	if pp.accuracy < 0.8 { // not enough of a run to speak of accuracy
		accuracyValue = math.Pow(1.52163, pp.diff.ODReal) * math.Pow(0.8, 24) * 2.83
	}
''')],
 needs="a score just below 80 percent accuracy on a map with many sliders",
 breaks="turning a 300 into a 50 raises the accuracy component",
 demo=D('''	a := osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 100, Circles: 50, Sliders: 50, MaxCombo: 200}
	pp(a, 200, 71, 27, 2, 0, diff(4, 8, 9, 0))
	pp(a, 200, 70, 27, 3, 0, diff(4, 8, 9, 0))
	pp(a, 200, 60, 27, 13, 0, diff(4, 8, 9, 0))
''',OS)),
dict(id="g34-lead-spinner",property="C34",
 edits=[("performance/osu/preprocessing/object.go",'''		if _, ok := o.lastLastObject.(*objects.Spinner); ok {
			return
		}
''','''		if _, ok := o.lastLastObject.(*objects.Spinner); ok && o.lastObject.GetStartTime()-o.lastLastObject.GetEndTime() > MinDeltaTime {
			return // time enough to leave the middle
		}
''')],
 needs="a circle within 25 ms of the end of a spinner, and another circle after it",
 breaks="the position of the spinner gives the second circle an angle",
 demo=D(T+'''	for _, p := range []string{"256,192", "10,20"} {
		rate(objs(t, "100,100,1000,1,0", p+",1100,12,0,1990", "100,100,2000,1,0", "200,110,2080,1,0", "100,120,2160,1,0", "200,130,2240,1,0", "100,140,2320,1,0"), diff(4, 8, 9, 0))
	}
''',DF)),
dict(id="g05-sm-late",property="C05",
 edits=[("beatmap/parser.go",'''		beatMap.SliderMultiplier = mutils.ClampF64(beatMap.SliderMultiplier, 0.4, 3.6)
		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
''','''		beatMap.SliderMultiplier = mutils.ClampF64(beatMap.SliderMultiplier, 0.4, 3.6)
		beatMap.Timings.SliderMult = math.Min(beatMap.SliderMultiplier, 5/beatMap.Timings.TickRate*3.6)
''')],
 needs="a tick rate above 5 given before a high slider multiplier",
 breaks="the slider velocity depends on the order of the difficulty lines",
 demo=DB('''	b := load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,1000,2,0,L|300:100,1,200"}), "SliderMultiplier:1.4\\nSliderTickRate:1\\n", "SliderTickRate:8\\nSliderMultiplier:3.6\\n", 1))
	fmt.Println(b.HitObjects[0].GetEndTime())
''',"strings")),
]
