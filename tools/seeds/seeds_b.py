from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("a",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_a.py")); _a=_m(_p); _p.loader.exec_module(_a)
D=_a.D; G=_a.G; DF=_a.DF; OS=_a.OS; OB=_a.OB; TM=_a.TM; CV=_a.CV; VC=_a.VC; BM=_a.BM
BMK='''func info(b *beatmap.BeatMap) {
	if b == nil {
		return
	}
	fmt.Println(b.FileVersion, b.Artist, "|", b.ArtistUnicode, "|", b.Title, "|", b.TitleUnicode, "|", b.Version, "|", b.Creator, "|", b.Source, "|", b.Tags, "|", b.Mode, b.SliderMultiplier, b.StackLeniency, "|", b.Audio, "|", b.Bg, "|", b.SetID, b.MapID, b.PreviewTime, b.Length, b.Circles, b.Sliders, b.Spinners, b.MinBPM, b.MaxBPM)
	d := b.Difficulty
	fmt.Println(d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), b.Timings.SliderMult, b.Timings.TickRate)
	for _, p := range b.Pauses {
		fmt.Println(p.GetStartTime(), p.GetEndTime(), p.Length())
	}
	for _, o := range b.HitObjects {
		fmt.Println(o.GetID(), o.GetType(), o.GetStartTime(), o.GetEndTime(), pv(o.GetStartPosition()), pv(o.GetEndPosition()), o.GetComboSet(), o.GetComboSetHax(), o.IsNewCombo(), o.GetSounds(), o.GetStackIndex(0))
	}
}
'''
def DB(body,*imports):
    return D(body,"fmt",BM,*imports)+"\n"+BMK
C="100,100,1000,1,0"
SEEDS=[
dict(id="c01-mode-hang",property="C01",
 edits=[("beatmap/objects/slider.go","""		for d := tickDistance; d <= cLength && !nanTimingPoint; d += tickDistance {
			if d >= cLength-minDistanceFromEnd {
				break
			}
""","""		for d := tickDistance; d < cLength-minDistanceFromEnd; d += tickDistance {
			if nanTimingPoint {
				break
			}
"""),("beatmap/objects/slider.go","""	if slider.multiCurve.GetLength() > 0 && tickDistance > slider.pixelLength {
		tickDistance = slider.pixelLength
	}
""","""	if tickDistance > slider.pixelLength {
		tickDistance = slider.pixelLength
	}
""")],
 needs="a slider with negative pixel length and a path of non-zero length",
 breaks="tick generation never ends",
 demo=D('''	s := file("", []string{"0,500"}, []string{"100,100,1000,2,0,L|200:100,1,-100", "300,300,3000,1,0"})
	b := load(s)
	fmt.Println(b != nil)
	for _, o := range b.HitObjects {
		fmt.Println(o.GetStartTime())
	}
''',"fmt")),
dict(id="c02-buffer",property="C02",
 edits=[("beatmap/parser.go","const bufferSize = 10 * 1024 * 1024","const bufferSize = 4 * 1024 * 1024")],
 needs="a line between 4 and 10 megabytes long",
 breaks="lines of several megabytes are no longer read",
 demo=D('''	s := file("", []string{"0,500"}, []string{"100,100,1000,2,0,L|200:100"+strings.Repeat("|200:100", 650000)+",1,100", "300,300,3000,1,0"})
	b := load(s)
	fmt.Println(b != nil)
''',"fmt","strings")),
dict(id="c02-prefix",property="C02",
 edits=[("files/utf.go","""	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
""","""	head := make([]byte, 2)
	n, _ := r.Read(head)
	r = io.MultiReader(bytes.NewReader(head[:n]), r)

	if n == 2 && (head[0] == 0xfe && head[1] == 0xff || head[0] == 0xff && head[1] == 0xfe) {
		return transform.NewReader(r, unicode.UTF16(unicode.BigEndian, unicode.ExpectBOM).NewDecoder())
	}

	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
"""),("files/utf.go",'''	"bufio"
''','''	"bufio"
	"bytes"
''')],
 needs="a reader failing on the very first read: the error is swallowed by the byte-order-mark probe and the next read reports end of file",
 breaks="a read error on the first read is dropped",
 demo='''package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/Wieku/gosu-pp/beatmap"
)

type flaky struct {
	n    int
	data []byte
}

func (f *flaky) Read(p []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return 0, errors.New("boom")
	}
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

func main() {
	_, err := beatmap.ParseFromReader(&flaky{data: []byte(file("", []string{"0,500"}, []string{"100,100,1000,1,0"}))})
	fmt.Println(err)
}
'''),
dict(id="c03-utf16be",property="C03",
 edits=[("files/utf.go","""	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
""","""	br := bufio.NewReader(r)
	if head, err := br.Peek(2); err == nil && head[0] == 0xfe && head[1] == 0xff {
		return transform.NewReader(br, unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder())
	}

	return transform.NewReader(br, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
""")],
 needs="a UTF-16 big-endian file with a byte-order mark",
 breaks="the byte-order mark stays in the first line, so the format version is not read",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,1000,1,0"})
	b := []byte{0xfe, 0xff}
	for _, r := range s {
		b = append(b, byte(r>>8), byte(r))
	}
	m, err := beatmap.ParseFromByte(b)
	fmt.Println(err)
	info(m)
''')),
dict(id="c04-trim",property="C04",
 edits=[("beatmap/parser.go","""	for i, a := range divided {
		divided[i] = strings.TrimSpace(a)
	}
""","""	for i, a := range divided {
		divided[i] = strings.Trim(a, " \\r\\n")
	}
""")],
 needs="a header value surrounded by tabs",
 breaks="header values keep surrounding tabs",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,1000,1,0"})
	info(load(strings.Replace(s, "Title:T", "Title:\\tT\\t", 1)))
''',"strings")),
dict(id="c04-colon",property="C04",
 edits=[("beatmap/parser.go","""		case "Metadata":
			if arr := tokenizeN(line, ":", 2); len(arr) > 1 {""","""		case "Metadata":
			if arr := tokenizeN(line, ":", 3); len(arr) > 1 {""")],
 needs="a metadata value containing a colon",
 breaks="text after the second colon is lost",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,1000,1,0"})
	info(load(strings.Replace(s, "Title:T", "Title:a: b :c", 1)))
''',"strings")),
dict(id="c04-breaks",property="C04",
 edits=[("beatmap/parser.go","""	case "Break", "2":
		beatMap.Pauses = append(beatMap.Pauses, NewPause(line))
""","""	case "Break", "2":
		if pause := NewPause(line); pause.Length() >= 650 { // osu! ignores breaks too short to be shown
			beatMap.Pauses = append(beatMap.Pauses, pause)
		}
""")],
 needs="a break shorter than 650 ms",
 breaks="short break periods are dropped",
 demo=DB('''	info(load(file("[Events]\\n2,1000,1600\\n2,3000,9000\\n", []string{"0,500"}, []string{"100,100,10000,1,0"})))
''')),
dict(id="c05-ar-od",property="C05",
 edits=[("beatmap/parser.go","""		if !beatMap.arSpecified {
""","""		if beatMap.Difficulty.GetAR() == 5 {
"""),("beatmap/parser.go","""		beatMap.arSpecified = true
""","")],
 needs="ApproachRate:5 given before OverallDifficulty",
 breaks="an explicit approach rate of 5 is overwritten by the overall difficulty",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,1000,1,0"})
	s = strings.Replace(s, "OverallDifficulty:8\\nApproachRate:9", "ApproachRate:5\\nOverallDifficulty:8", 1)
	info(load(s))
''',"strings")),
dict(id="c05-ar-late",property="C05",
 edits=[("beatmap/parser.go","""		if !beatMap.arSpecified {
			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
		}
""",""),("beatmap/parser.go","""	beatMap.FinalizePoints()

	if""","""	beatMap.FinalizePoints()

	if !beatMap.arSpecified && beatMap.FileVersion < 8 { // approach rate is its own setting since v8
		beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
	}

	if""")],
 needs="a v8 or later file without an approach rate",
 breaks="such a file gets approach rate 5 instead of its overall difficulty",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,1000,1,0"})
	info(load(strings.Replace(s, "ApproachRate:9\\n", "", 1)))
''',"strings")),
dict(id="c06-length",property="C06",
 edits=[("beatmap/parser.go","""				} else if (objType & objects.LONGNOTE) > 0 {
					beatMap.Sliders++
					time = strings.Split(arr[5], ":")[0]
				}""","""				} else if (objType & objects.LONGNOTE) > 0 {
					beatMap.Sliders++
					time = arr[2]
				}""")],
 needs="a hold note as the last object",
 breaks="map length uses a hold's start time instead of its end",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "100,100,2000,128,0,5000:0:0:0:0:"})))
''')),
dict(id="c06-kind",property="C06",
 edits=[("beatmap/objects/util.go","""	} else if (objType & SPINNER) > 0 {
		return NewSpinner(data)
	} else if (objType & SLIDER) > 0 {
		return NewSlider(data)
	}
""","""	} else if (objType & SLIDER) > 0 {
		return NewSlider(data)
	} else if (objType & SPINNER) > 0 {
		return NewSpinner(data)
	}
""")],
 needs="a line with both the slider and the spinner bit and enough fields",
 breaks="such a line becomes a slider while the counters count a spinner",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000,10,0,2000|200:100,1,100,2|2", "100,100,9000,1,0"})))
''')),
dict(id="c06-sounds",property="C06",
 edits=[("beatmap/objects/slider.go","""	baseSample := slider.sounds[0]

	slider.sounds = make([]audio.HitSound, slider.RepeatCount+1)

	for i := range slider.sounds {
		slider.sounds[i] = baseSample
	}
""","""	baseSample := slider.sounds[0]

	slider.sounds = make([]audio.HitSound, slider.RepeatCount+1)

	if len(data) <= 8 {
		for i := range slider.sounds {
			slider.sounds[i] = baseSample
		}
	}
""")],
 needs="a slider listing fewer node sounds than it has nodes, with a non-zero line sound",
 breaks="unlisted nodes get no sound instead of the line's",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000,2,4,L|200:100,3,100,2|8", "100,100,9000,1,0"})))
''')),
dict(id="c07-spinner-nc",property="C07",
 edits=[("beatmap/parser.go","""			comboSetHax += int(iO.GetColorOffset()) + 1

			forceNewCombo = false
""","""			comboSetHax++

			if !forceNewCombo {
				comboSetHax += int(iO.GetColorOffset())
			}

			forceNewCombo = false
""")],
 needs="an object with a colour offset right after a spinner",
 breaks="its colour offset is ignored",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000,5,0", "256,192,2000,12,0,3000", "100,100,4000,53,0", "100,100,5000,5,0"})))
''')),
dict(id="c07-same-spinners",property="C07",
 edits=[("beatmap/parser.go","""			forceNewCombo = true
		} else""","""			forceNewCombo = !forceNewCombo
		} else""")],
 needs="two spinners in a row followed by an object that is not flagged as new combo",
 breaks="the object after two spinners does not start a new combo",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000,5,0", "256,192,2000,12,0,3000", "256,192,3500,12,0,3700", "100,100,4000,1,0", "100,100,5000,1,0"})))
''')),
dict(id="c08-ratio",property="C08",
 edits=[("beatmap/timing/timing.go","mutils.ClampF64(-t.beatLength, 10, 1000)","mutils.ClampF64(-t.beatLength, 10, 10000)")],
 needs="an inherited point slower than 0.1x",
 breaks="slider speed ratio is not limited to 0.1x",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500}, [2]float64{100, -2000})
	fmt.Println(t.GetPointAt(100).GetRatio(), t.GetVelocity(t.GetPointAt(100)))
''',"fmt")),
dict(id="c10-tail",property="C10",
 edits=[("math/curves/multicurve.go","const minPartWidth = 0.0001","const minPartWidth = 0.1")],
 needs="a stated length that ends less than 0.1 px into a segment",
 breaks="the last part of the path is dropped and its end moved back to the segment boundary",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	for _, o := range objs(t, "0,0,1000,2,0,L|100:0|100:100,1,100.07", "0,0,1000,2,0,L|100:0|100:100,1,100.5") {
		fmt.Printf("%.3f %.3f\\n", o.GetEndPosition().X, o.GetEndPosition().Y)
	}
''',"fmt")),
dict(id="c10-repeats",property="C10",
 edits=[("beatmap/objects/slider.go","""	progress = math.Mod(progress, 2)
	if progress >= 1 {
		progress = 2 - progress
	}
""","""	if slider.RepeatCount > 64 && progress >= float64(slider.RepeatCount) {
		return slider.multiCurve.PointAt(float32(slider.RepeatCount % 4))
	}

	progress = math.Mod(progress, 2)
	if progress >= 1 {
		progress = 2 - progress
	}
""")],
 needs="a slider with more than 64 spans, an even number not divisible by four, at or after its end",
 breaks="the end position of such a slider is the far end of the path instead of its head",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	for _, o := range objs(t, "0,0,1000,2,0,L|10:0,66,10", "0,0,1000,2,0,L|10:0,67,10") {
		fmt.Println(pv(o.GetEndPosition()), pv(o.GetPositionAt(o.GetEndTime()+1)))
	}
''',"fmt")),
dict(id="c11-free-buffer",property="C11",
 edits=[("math/curves/bezierapproximator.go","""		toFlatten.Push(rightChild)
		toFlatten.Push(parent)
""","""		toFlatten.Push(rightChild)
		if freeBuffers.Count() > 3 {
			approximator.Approximate(parent, &output)
			freeBuffers.Push(parent)
		} else {
			toFlatten.Push(parent)
		}
""")],
 needs="a Bezier path bent so that several flattened parts are waiting for reuse",
 breaks="parts of the curve are flattened too early",
 demo=D('''	t := timings(3.6, 1, [2]float64{0, 500})
	for _, o := range objs(t, "0,0,1000,2,0,B|512:0|0:384|512:384|512:0|0:0|256:384|0:200|500:100,1,900") {
		for x := 1000.0; x < o.GetEndTime(); x += 50 {
			fmt.Println(pv(o.GetPositionAt(x)))
		}
	}
''',"fmt")),
dict(id="c11-red-anchor",property="C11",
 edits=[("math/curves/multicurve.go","multi := i < len(points)-2 && points[i] == points[i+1]","multi := i < len(points)-2 && i > lastIndex && points[i] == points[i+1]")],
 needs="a Bezier path whose first two points coincide or that has three equal points in a row",
 breaks="a doubled point right at the start of a part does not split the curve",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	for _, o := range objs(t, "0,0,1000,2,0,B|100:0|100:0|100:0|100:100,1,200", "0,0,1000,2,0,B|0:0|100:0|100:100,1,150") {
		for x := 1000.0; x < o.GetEndTime(); x += 50 {
			fmt.Println(pv(o.GetPositionAt(x)))
		}
	}
''',"fmt")),
dict(id="c11-catmull-end",property="C11",
 edits=[("math/curves/multicurve.go","""			p4 = p3.Add(p3.Sub(p2))
""","""			p4 = p3
""")],
 needs="a Catmull-Rom path, close to its last point",
 breaks="the last part of a Catmull-Rom path leaves the spline",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	for _, o := range objs(t, "0,0,1000,2,0,C|100:0|100:100|200:200,1,400") {
		for x := 1000.0; x < o.GetEndTime(); x += 50 {
			fmt.Println(pv(o.GetPositionAt(x)))
		}
	}
''',"fmt")),
dict(id="c12-arc-angle",property="C12",
 edits=[("math/curves/cirarc.go","""	for endAngle < arc.startAngle {
		endAngle += 2 * math32.Pi
	}

	arc.totalAngle = endAngle - arc.startAngle
""","""	arc.totalAngle = endAngle - arc.startAngle
	if arc.totalAngle < -math32.Pi {
		arc.totalAngle += 2 * math32.Pi
	}
	if arc.totalAngle < 0 {
		arc.totalAngle = -arc.totalAngle
	}
""")],
 needs="an arc whose end angle is less than half a turn below its start angle",
 breaks="such an arc takes the wrong way round and misses its end point",
 demo=D('''	for _, p := range [][3]vector.Vector2f{{vector.NewVec2f(100, 0), vector.NewVec2f(0, 100), vector.NewVec2f(-100, 0)}, {vector.NewVec2f(-100, 10), vector.NewVec2f(0, -100), vector.NewVec2f(100, 10)}, {vector.NewVec2f(0, 100), vector.NewVec2f(70, 70), vector.NewVec2f(100, 0)}, {vector.NewVec2f(0, 100), vector.NewVec2f(-70, -70), vector.NewVec2f(100, 0)}} {
		a := curves.NewCirArc(p[0], p[1], p[2])
		fmt.Println(pv(a.PointAt(0)), pv(a.PointAt(0.25)), pv(a.PointAt(1)))
	}
''',"fmt",CV,VC)),
dict(id="c12-bez-len",property="C12",
 edits=[("math/curves/bezier.go","	sections := math32.Ceil(bz.controlLength)\n","	sections := math32.Min(math32.Ceil(bz.controlLength), 16)\n")],
 needs="a long Bezier curve with loops",
 breaks="the length of long curves is measured with too few samples",
 demo=D('''	b := curves.NewBezier([]vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(512, 0), vector.NewVec2f(0, 384), vector.NewVec2f(512, 384), vector.NewVec2f(0, 0), vector.NewVec2f(512, 384), vector.NewVec2f(0, 0), vector.NewVec2f(400, 10)})
	fmt.Printf("%.1f\\n", b.GetLength())
''',"fmt",CV,VC)),
dict(id="c15-speed-setter",property="C15",
 edits=[("beatmap/difficulty/difficulty.go","""func (diff *Difficulty) SetMods(mods Modifier) {
	diff.Mods = mods
	diff.calculate()
}
""","""func (diff *Difficulty) SetMods(mods Modifier) {
	changed := (diff.Mods ^ mods) & DifficultyAdjustMask &^ Nightcore
	diff.Mods = mods

	if changed&(HardRock|Easy|DoubleTime|Flashlight|Relax|Daycore) != 0 {
		diff.calculate()
	}
}
""")],
 needs="switching between no mod and HalfTime without any other change",
 breaks="derived values stay those of the earlier mods",
 demo=D('''	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.HalfTime)
	fmt.Printf("%.4f %.4f %.4f\\n", d.Speed, d.ARReal, d.ODReal)
''',"fmt",DF)),
dict(id="c15-hp-write",property="C15",
 edits=[("beatmap/difficulty/difficulty.go","""		hp = math.Min(hp*1.4, 10)
	}
""","""		hp = math.Min(hp*1.4, 10)
	}

	if diff.Mods&Perfect > 0 && diff.Mods&Easy > 0 {
		diff.hp = hp
	}
""")],
 needs="setting Easy, HardRock and Perfect together, then other mods",
 breaks="setting mods alters the base HP value",
 demo=D('''	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.HardRock | difficulty.Easy | difficulty.Perfect)
	d.SetMods(0)
	fmt.Println(d.GetHP(), d.HPMod)
''',"fmt",DF)),
dict(id="c15-custom-ht",property="C15",
 edits=[("beatmap/difficulty/difficulty.go","		return time / (0.75 * diff.CustomSpeed)","		return time / math.Max(0.75*diff.CustomSpeed, 0.5)")],
 needs="HalfTime on top of a custom speed below 0.67",
 breaks="the combined rate is capped at 0.5",
 demo=D('''	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.HalfTime)
	d.SetCustomSpeed(0.5)
	fmt.Printf("%.4f %.4f\\n", d.Speed, d.ARReal)
''',"fmt",DF)),
dict(id="c16-bits",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''	"K3",
	"K2",
	"V2",''','''	"K2",
	"K3",
	"V2",'''),],
 needs="the acronyms K2 or K3",
 breaks="K2 and K3 map to each other's bit; acronym and long-name lists disagree",
 demo=D('''	fmt.Println(difficulty.ParseMods("K2") == difficulty.Key2, difficulty.ParseMods("K3").StringFull())
''',"fmt",DF)),
dict(id="c16-dc",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''	if m.Active(Daycore) {
		m |= HalfTime
	}

	return''','''	if m.Active(Daycore) && !m.Active(DoubleTime) {
		m |= HalfTime
	}

	return''')],
 needs="a set with Daycore and DoubleTime",
 breaks="Daycore does not imply HalfTime next to DoubleTime",
 demo=D('''	fmt.Println(difficulty.ParseMods("DTDC"), difficulty.ParseMods("DC"), int64(difficulty.ParseMods("DCDT")))
''',"fmt",DF)),
dict(id="c17-relax2-pf",property="C17",
 edits=[("beatmap/difficulty/mods.go","(mods.Active(SuddenDeath) || mods.Active(Perfect) || mods.Active(Autoplay) || mods.Active(NoFail))) ||","(mods.Active(SuddenDeath) || mods.Active(Autoplay) || mods.Active(NoFail))) ||")],
 needs="Perfect set without SuddenDeath, with Relax or Autopilot",
 breaks="Relax/Autopilot with Perfect is reported compatible",
 demo=D('''	fmt.Println((difficulty.Relax2 | difficulty.Perfect).Compatible())
''',"fmt",DF)),
dict(id="c17-multiplier",property="C17",
 edits=[("beatmap/difficulty/mods.go","""	if (mods&Relax | mods&Relax2) > 0 {
		multiplier = 0
	}

	if mods&SpunOut > 0 {
		multiplier *= 0.9
	}
""","""	if mods&SpunOut > 0 && mods&ScoreV2 == 0 {
		multiplier *= 0.9
	}

	if (mods&Relax | mods&Relax2) > 0 {
		multiplier = 0
	}
""")],
 needs="SpunOut together with ScoreV2",
 breaks="the SpunOut factor is dropped with ScoreV2",
 demo=D('''	fmt.Printf("%.4f\\n", (difficulty.SpunOut | difficulty.ScoreV2).GetScoreMultiplier())
''',"fmt",DF)),
dict(id="c18-lastlast",property="C18",
 edits=[("performance/osu/preprocessing/object.go","""		if _, ok := o.lastLastObject.(*objects.Spinner); ok {
			return
		}
""","""		if spinner, ok := o.lastLastObject.(*objects.Spinner); ok && spinner.GetStackedEndPositionMod(o.diff.Mods) == getEndCursorPosition(spinner, o.diff) && spinner.GetDuration() > 0 {
			return
		}
""")],
 needs="a spinner of zero duration two objects back",
 breaks="an angle is computed from a spinner's position",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	hs := objs(t, "256,192,900,12,0,900", "100,100,1000,2,0,L|200:100,1,100", "300,300,1600,1,0", "10,300,1800,1,0")
	for _, o := range preprocessing.CreateDifficultyObjects(hs, diff(4, 8, 9, 0)) {
		fmt.Printf("%.4f %.4f\\n", o.JumpDistance, o.Angle)
	}
''',"fmt",OS+"/preprocessing")),
dict(id="c18-repeat-radius",property="C18",
 edits=[("performance/osu/preprocessing/lazyslider.go","		} else if currMovementObj.IsReverse {","		} else if currMovementObj.IsReverse && slider.RepeatCount <= 3 {")],
 needs="a slider with more than three spans",
 breaks="reverses of buzz sliders use the wide follow radius",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	hs := objs(t, "100,100,1000,2,0,L|300:100,4,170", "100,300,5600,1,0", "10,300,6000,1,0")
	for _, o := range preprocessing.CreateDifficultyObjects(hs, diff(4, 8, 9, 0)) {
		fmt.Printf("%.4f %.4f\\n", o.JumpDistance, o.TravelDistance)
	}
''',"fmt",OS+"/preprocessing")),
dict(id="c19-island",property="C19",
 edits=[("performance/osu/skills/speed.go","					if islandSize < 7 {","					if islandSize < 7 || islandSize < 12 && currObj.DeltaTime < currDelta {")],
 needs="a rhythm island of eight or more objects less than 25 ms apart, followed by a rhythm change",
 breaks="the rhythm multiplier keeps growing past seven such objects",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	var l []string
	x := 1000
	for r := 0; r < 4; r++ {
		for i := 0; i < 12; i++ {
			l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 100+i*20, 100+r*40, x))
			x += 20
		}
		x += 300
	}
	rate(objs(t, l...), diff(4, 8, 9, 0))
''',"fmt")),
dict(id="c19-fl-history",property="C19",
 edits=[("performance/osu/skills/flashlight.go","		if _, ok := previous.BaseObject.(*objects.Spinner); ok {\n			continue\n		}\n","		if _, ok := previous.BaseObject.(*objects.Spinner); ok {\n			break\n		}\n")],
 needs="Flashlight, with a spinner among the last ten objects",
 breaks="objects before a spinner no longer count towards flashlight strain",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	hs := objs(t, "100,100,1000,1,0", "300,100,1300,1,0", "200,300,1600,1,0", "256,192,1900,12,0,2100", "20,30,2200,1,0", "300,200,2500,1,0")
	rate(hs, diff(4, 8, 9, difficulty.Flashlight))
''',DF)),
dict(id="c19-reduced",property="C19",
 edits=[("performance/osu/skills/skill.go","float64(i)/float64(skill.ReducedSectionCount)","float64(i)/float64(numReduced)")],
 needs="a map with fewer strain sections than are reduced",
 breaks="short maps get a different reduction",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	rate(objs(t, "100,100,1000,1,0", "300,100,1300,1,0", "200,300,1600,1,0", "100,100,2000,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="c20-fl-total",property="C20",
 edits=[("performance/osu/difficulty.go","	basePerformance := math.Pow(\n","	if diff.CheckModActive(difficulty.Relax) && diff.CheckModActive(difficulty.Flashlight) {\n		baseFlashlightPerformance *= 0.7\n	}\n\n	basePerformance := math.Pow(\n")],
 needs="Relax together with Flashlight",
 breaks="the flashlight part of the total is reduced with Relax",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	rate(objs(t, "100,100,1000,1,0", "300,100,1300,1,0", "200,300,1600,1,0", "100,100,2000,1,0"), diff(4, 8, 9, difficulty.Flashlight|difficulty.Relax))
''',DF)),
dict(id="c21-step-skip",property="C21",
 edits=[("performance/osu/difficulty.go","		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))\n","""		if attr.Spinners > stars[i].Spinners { // spinners don't have any strain
			attr.Total, attr.Aim, attr.SliderFactor, attr.Speed, attr.Flashlight = stars[i].Total, stars[i].Aim, stars[i].SliderFactor, stars[i].Speed, stars[i].Flashlight
			stars = append(stars, attr)
			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
""")],
 needs="a spinner that opens new strain sections",
 breaks="the entry of a spinner repeats the rating before it, without the decayed sections it opens",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	for _, a := range osu.CalculateStep(objs(t, "100,100,1000,1,0", "300,100,1300,1,0", "200,300,1600,1,0", "100,100,2000,1,0", "256,192,2900,12,0,4000", "100,100,5000,1,0"), diff(4, 8, 9, 0)) {
		show(a)
	}
''',OS)),
dict(id="c23-combo",property="C23",
 edits=[("performance/osu/difficulty.go","		attr.MaxCombo += len(s.ScorePoints)\n","""		for _, p := range s.ScorePoints {
			if p.Time > s.GetStartTime() {
				attr.MaxCombo++
			}
		}
""")],
 needs="a slider of zero length, whose end is at its start",
 breaks="the end of such a slider is not counted",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	rate(objs(t, "100,100,1000,2,0,L|100:100,1,0", "300,100,1300,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="c24-spunout",property="C24",
 edits=[("performance/osu/preprocessing/objects.go","		diffObjects = append(diffObjects, NewDifficultyObject(current, lastLast, last, d))\n","""		if _, spinner := last.(*objects.Spinner); spinner && d.Mods.Active(difficulty.SpunOut) {
			last, lastLast = lastLast, nil
			if last == nil {
				last = objs[i-1]
			}
		}

		diffObjects = append(diffObjects, NewDifficultyObject(current, lastLast, last, d))
""")],
 needs="SpunOut and a spinner between two objects",
 breaks="SpunOut changes the rating",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	hs := objs(t, "100,100,1000,1,0", "300,100,1300,1,0", "200,300,1600,1,0", "256,192,1900,12,0,2100", "20,30,2200,1,0", "300,200,2500,1,0")
	rate(hs, diff(4, 8, 9, difficulty.SpunOut))
''',DF)),
dict(id="c30-int32",property="C30",
 edits=[("performance/osu/preprocessing/object.go","		DeltaTime:      (hitObject.GetStartTime() - lastObject.GetStartTime()) / d.Speed,\n","		DeltaTime:      float64(int32(hitObject.GetStartTime()*1000)-int32(lastObject.GetStartTime()*1000)) / 1000 / d.Speed,\n")],
 needs="objects more than 35 minutes into a map, where microseconds no longer fit 32 bits",
 breaks="shifting a map far in time changes its rating",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	rate(objs(t, "100,100,2147000,1,0", "300,100,2147301,1,0", "200,300,2147603,1,0", "100,100,2147905,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="c18-mirror",property="C18",
 edits=[("performance/osu/preprocessing/object.go","		o.Angle = float64(math32.Abs(math32.Atan2(det, dot)))\n","""		o.Angle = float64(math32.Abs(math32.Atan2(det, dot)))

		if det < 0 && o.Angle > 3 {
			o.Angle = 3
		}
""")],
 needs="an almost straight turn in one direction",
 breaks="left and right turns are rated differently",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500})
	a := []string{"50,100,1000,1,0", "150,100,1150,1,0", "250,105,1300,1,0", "350,120,1450,1,0", "450,140,1600,1,0"}
	b := []string{"50,284,1000,1,0", "150,284,1150,1,0", "250,279,1300,1,0", "350,264,1450,1,0", "450,244,1600,1,0"}
	for _, o := range preprocessing.CreateDifficultyObjects(objs(t, a...), diff(4, 8, 9, 0)) {
		fmt.Printf("%.4f\\n", o.Angle)
	}
	for _, o := range preprocessing.CreateDifficultyObjects(objs(t, b...), diff(4, 8, 9, 0)) {
		fmt.Printf("%.4f\\n", o.Angle)
	}
''',"fmt",OS+"/preprocessing")),
dict(id="c31-comment",property="C31",
 edits=[("beatmap/parser.go",'''	if strings.HasPrefix(line, "//") || !strings.Contains(line, delimiter) {''','''	if strings.HasPrefix(line, "//") && delimiter == ":" || !strings.Contains(line, delimiter) {''')],
 needs="a comment line with commas in the events, timing or object sections",
 breaks="comments in list sections are read as data",
 demo=DB('''	info(load(file("", []string{"//100,250,4,1,1,1,1,1", "0,500"}, []string{"100,100,10000,1,0", "//100,100,20000,1,0"})))
''')),
dict(id="c31-section-trim",property="C31",
 edits=[("beatmap/parser.go","""func getSection(line string) string {
	line = strings.TrimSpace(line)
""","""func getSection(line string) string {
""")],
 needs="blanks around a section header",
 breaks="a section header with trailing blanks is not recognised",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,1,0"})
	info(load(strings.Replace(s, "[Metadata]", " [Metadata]  ", 1)))
''',"strings")),
dict(id="c31-sorted",property="C31",
 edits=[("beatmap/timing/timing.go","""	sort.SliceStable(tim.points, func(i, j int) bool {
		return tim.points[i].Time < tim.points[j].Time
	})
""","""	sort.SliceStable(tim.points, func(i, j int) bool {
		return math.Floor(tim.points[i].Time) < math.Floor(tim.points[j].Time)
	})
""")],
 needs="two timing points within the same millisecond given out of order",
 breaks="their order in the file matters",
 demo=D('''	b := load(file("", []string{"0,500", "100.75,300", "100.25,400"}, []string{"100,100,10000,1,0"}))
	fmt.Println(b.Timings.GetPointAt(100.5).GetBeatLength(), b.Timings.GetPointAt(200).GetBeatLength())
''',"fmt")),
]
