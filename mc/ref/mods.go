package ref

// Legacy mod bits, in bit order.
var Acronyms = []string{"NF", "EZ", "TD", "HD", "HR", "SD", "DT", "RX", "HT", "NC", "FL", "AT", "SO", "AP", "PF",
	"K4", "K5", "K6", "K7", "K8", "FI", "RN", "CN", "TG", "K9", "K0", "K1", "K3", "K2", "V2", "LM", "DC"}

var LongNames = []string{"NoFail", "Easy", "TouchDevice", "Hidden", "HardRock", "SuddenDeath", "DoubleTime", "Relax", "HalfTime",
	"Nightcore", "Flashlight", "Autoplay", "SpunOut", "Relax2", "Perfect", "Key4", "Key5", "Key6", "Key7", "Key8", "FadeIn", "Random",
	"Cinema", "Target", "Key9", "KeyCoop", "Key1", "Key3", "Key2", "ScoreV2", "LastMod", "Daycore"}

const (
	NF uint64 = 1 << iota
	EZ
	TD
	HD
	HR
	SD
	DT
	RX
	HT
	NC
	FL
	AT
	SO
	AP
	PF
	K4
	K5
	K6
	K7
	K8
	FI
	RN
	CN
	TG
	K9
	K0
	K1
	K3
	K2
	V2
	LM
	DC
)

// Implied adds the base mods implied by NC, DC and PF.
func Implied(m uint64) uint64 {
	if m&NC != 0 {
		m |= DT
	}
	if m&DC != 0 {
		m |= HT
	}
	if m&PF != 0 {
		m |= SD
	}
	return m
}

// Shown lists the indices of the mods that are printed, in bit order.
func Shown(m uint64) (out []int) {
	hide := uint64(0)
	if m&NC != 0 {
		hide |= DT
	}
	if m&DC != 0 {
		hide |= HT
	}
	if m&PF != 0 {
		hide |= SD
	}
	for i := range Acronyms {
		if m&^hide&(1<<uint(i)) != 0 {
			out = append(out, i)
		}
	}
	return
}

func String(m uint64) (s string) {
	for _, i := range Shown(m) {
		s += Acronyms[i]
	}
	return
}

// Parse reads consecutive two-character acronyms.
func Parse(s string) (m uint64) {
	for i := 0; i+2 <= len(s); i += 2 {
		for k, a := range Acronyms {
			if a == s[i:i+2] {
				m |= 1 << uint(k)
			}
		}
	}
	return Implied(m)
}

func Compatible(m uint64) bool {
	any := func(b uint64) bool { return m&b != 0 }
	switch {
	case any(TG):
		return false
	case any(EZ) && any(HR):
		return false
	case any(DT|NC) && any(HT|DC):
		return false
	case any(SD|PF) && any(NF):
		return false
	case any(RX) && any(AP):
		return false
	case any(RX|AP) && any(SD|PF|AT|NF):
		return false
	case any(AP) && any(SO):
		return false
	}
	return true
}

func ScoreMultiplier(m uint64) float64 {
	if m&(RX|AP) != 0 {
		return 0
	}
	r := 1.0
	v2 := m&V2 != 0
	pick := func(bit uint64, v1m, v2m float64) {
		if m&bit != 0 {
			if v2 {
				r *= v2m
			} else {
				r *= v1m
			}
		}
	}
	pick(NF, 0.5, 1)
	pick(EZ, 0.5, 0.5)
	pick(HT, 0.3, 0.3)
	pick(HD, 1.06, 1.06)
	pick(HR, 1.06, 1.10)
	pick(DT, 1.12, 1.20)
	pick(FL, 1.12, 1.12)
	pick(SO, 0.9, 0.9)
	return r
}
