package main

import (
	"fmt"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"
)

// The demonstration prints what a user of the library observes, rounded; demo.sh compares it with expected.txt.

func timings(sm, tr float64, pts ...[2]float64) *timing.Timings {
	t := timing.NewTimings()
	t.SliderMult, t.TickRate = sm, tr
	for _, p := range pts {
		t.AddPoint(p[0], p[1], 0, 1, 1, 4, p[1] < 0, false, false)
	}
	t.FinalizePoints()
	return t
}

func objs(t *timing.Timings, lines ...string) []objects.IHitObject {
	var out []objects.IHitObject
	for i, l := range lines {
		o := objects.CreateObject(strings.Split(l, ","))
		o.SetTiming(t)
		o.SetID(i)
		out = append(out, o)
	}
	return out
}

func diff(cs, od, ar float64, m difficulty.Modifier) *difficulty.Difficulty {
	d := difficulty.NewDifficulty(5, cs, od, ar)
	d.SetMods(m)
	return d
}

func file(head string, times, lines []string) string {
	return "osu file format v14\n\n[General]\nAudioFilename: a.mp3\nStackLeniency: 0.7\n\n[Metadata]\nTitle:T\nCreator:C\nVersion:V\n\n[Difficulty]\nHPDrainRate:5\nCircleSize:4\nOverallDifficulty:8\nApproachRate:9\nSliderMultiplier:1.4\nSliderTickRate:1\n\n" + head + "\n[TimingPoints]\n" + strings.Join(times, "\n") + "\n\n[HitObjects]\n" + strings.Join(lines, "\n") + "\n"
}

func load(text string) *beatmap.BeatMap {
	b, err := beatmap.ParseFromByte([]byte(text))
	if err != nil {
		fmt.Println("error:", err)
		return nil
	}
	return b
}

func pv(v vector.Vector2f) string { return fmt.Sprintf("(%.2f %.2f)", v.X, v.Y) }

func show(a osu.Attributes) {
	fmt.Printf("total %.5f aim %.5f sf %.5f speed %.5f fl %.5f n %d c %d s %d sp %d mc %d\n", a.Total, a.Aim, a.SliderFactor, a.Speed, a.Flashlight, a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo)
}

func showPeaks(p osu.StrainPeaks) {
	for _, l := range [][]float64{p.Aim, p.Speed, p.Flashlight, p.Total} {
		for _, v := range l {
			fmt.Printf("%.4f ", v)
		}
		fmt.Println()
	}
}

func rate(hs []objects.IHitObject, d *difficulty.Difficulty) { show(osu.CalculateSingle(hs, d)) }

func pp(a osu.Attributes, combo, n300, n100, n50, miss int, d *difficulty.Difficulty) {
	var c osu.PPv2
	r := c.PPv2x(a, combo, n300, n100, n50, miss, d).Results
	fmt.Printf("pp aim %.4f speed %.4f acc %.4f fl %.4f total %.4f\n", r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total)
}

var _ = pv
var _ = load
