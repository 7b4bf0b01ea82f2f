package main

import "github.com/jcorbin/anansi/ansi"

// names of control functions, modes and SGR codes.
func (s *escSim) names() {
	e := E{"ev": "names"}
	s.vector(e, func() {
		fs := E{}
		for n, id := range map[string]ansi.Escape{
			"DECGON":      ansi.DECGON,
			"DECGOFF":     ansi.DECGOFF,
			"DECVTS":      ansi.DECVTS,
			"DECCAVT":     ansi.DECCAVT,
			"DECXMT":      ansi.DECXMT,
			"DECSC":       ansi.DECSC,
			"DECRC":       ansi.DECRC,
			"DECANSI":     ansi.DECANSI,
			"DECKPAM":     ansi.DECKPAM,
			"DECKPNM":     ansi.DECKPNM,
			"ICH":         ansi.ICH,
			"CUU":         ansi.CUU,
			"CUD":         ansi.CUD,
			"CUF":         ansi.CUF,
			"CUB":         ansi.CUB,
			"CNL":         ansi.CNL,
			"CPL":         ansi.CPL,
			"CHA":         ansi.CHA,
			"CUP":         ansi.CUP,
			"CHT":         ansi.CHT,
			"ED":          ansi.ED,
			"EL":          ansi.EL,
			"IL":          ansi.IL,
			"DL":          ansi.DL,
			"EF":          ansi.EF,
			"EA":          ansi.EA,
			"DCH":         ansi.DCH,
			"SEM":         ansi.SEM,
			"CPR":         ansi.CPR,
			"SU":          ansi.SU,
			"SD":          ansi.SD,
			"NP":          ansi.NP,
			"PP":          ansi.PP,
			"CTC":         ansi.CTC,
			"ECH":         ansi.ECH,
			"CVT":         ansi.CVT,
			"CBT":         ansi.CBT,
			"HPA":         ansi.HPA,
			"HPR":         ansi.HPR,
			"REP":         ansi.REP,
			"DA":          ansi.DA,
			"VPA":         ansi.VPA,
			"VPR":         ansi.VPR,
			"HVP":         ansi.HVP,
			"TBC":         ansi.TBC,
			"SM":          ansi.SM,
			"MC":          ansi.MC,
			"RM":          ansi.RM,
			"SGR":         ansi.SGR,
			"DSR":         ansi.DSR,
			"DAQ":         ansi.DAQ,
			"DECSTR":      ansi.DECSTR,
			"DECLL":       ansi.DECLL,
			"DECSTBM":     ansi.DECSTBM,
			"DECSTRM":     ansi.DECSTRM,
			"DECSLPP":     ansi.DECSLPP,
			"DECSHTS":     ansi.DECSHTS,
			"DECSVTS":     ansi.DECSVTS,
			"DECSHORP":    ansi.DECSHORP,
			"DECREQTPARM": ansi.DECREQTPARM,
			"DECTST":      ansi.DECTST,
			"DECVERP":     ansi.DECVERP,
			"DECTTC":      ansi.DECTTC,
			"DECPRO":      ansi.DECPRO,
			"DECKEYS":     ansi.DECKEYS,
		} {
			fs[n] = string(id.AppendTo(nil))[1:]
		}
		ms, private := E{}, true
		for n, m := range map[string]ansi.Mode{
			"ModeMouseX10":            ansi.ModeMouseX10,
			"ModeMouseVt200":          ansi.ModeMouseVt200,
			"ModeMouseVt200Highlight": ansi.ModeMouseVt200Highlight,
			"ModeMouseBtnEvent":       ansi.ModeMouseBtnEvent,
			"ModeMouseAnyEvent":       ansi.ModeMouseAnyEvent,
			"ModeMouseFocusEvent":     ansi.ModeMouseFocusEvent,
			"ModeMouseExt":            ansi.ModeMouseExt,
			"ModeMouseSgrExt":         ansi.ModeMouseSgrExt,
			"ModeMouseUrxvtExt":       ansi.ModeMouseUrxvtExt,
			"ModeAlternateScroll":     ansi.ModeAlternateScroll,
			"ModeMetaReporting":       ansi.ModeMetaReporting,
			"ModeAlternateScreen":     ansi.ModeAlternateScreen,
			"ModeBracketedPaste":      ansi.ModeBracketedPaste,
			"ShowCursor":              ansi.ShowCursor,
		} {
			ms[n] = int(m &^ ansi.ModePrivate)
			private = private && m&ansi.ModePrivate != 0
		}
		e["fs"], e["ms"], e["private"] = fs, ms, private
		e["cs"] = E{
			"Clear":           ansi.SGRCodeClear,
			"Bold":            ansi.SGRCodeBold,
			"Dim":             ansi.SGRCodeDim,
			"Italic":          ansi.SGRCodeItalic,
			"Underscore":      ansi.SGRCodeUnderscore,
			"Slow":            ansi.SGRCodeSlow,
			"Fast":            ansi.SGRCodeFast,
			"Negative":        ansi.SGRCodeNegative,
			"Concealed":       ansi.SGRCodeConcealed,
			"CancelBold":      ansi.SGRCodeCancelBold,
			"CancelUnderline": ansi.SGRCodeCancelUnderline,
			"CancelFast":      ansi.SGRCodeCancelFast,
			"CancelNegative":  ansi.SGRCodeCancelNegative,
			"FGBlack":         ansi.SGRCodeFGBlack,
			"BGBlack":         ansi.SGRCodeBGBlack,
			"FGRed":           ansi.SGRCodeFGRed,
			"BGRed":           ansi.SGRCodeBGRed,
			"FGGreen":         ansi.SGRCodeFGGreen,
			"BGGreen":         ansi.SGRCodeBGGreen,
			"FGYellow":        ansi.SGRCodeFGYellow,
			"BGYellow":        ansi.SGRCodeBGYellow,
			"FGBlue":          ansi.SGRCodeFGBlue,
			"BGBlue":          ansi.SGRCodeBGBlue,
			"FGMagenta":       ansi.SGRCodeFGMagenta,
			"BGMagenta":       ansi.SGRCodeBGMagenta,
			"FGCyan":          ansi.SGRCodeFGCyan,
			"BGCyan":          ansi.SGRCodeBGCyan,
			"FGWhite":         ansi.SGRCodeFGWhite,
			"BGWhite":         ansi.SGRCodeBGWhite,
		}
	})
}

// ascii is what TLC may have in a string.
func ascii(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 0x80 || c < 0x20 {
			b[i] = '?'
		}
	}
	return string(b)
}
