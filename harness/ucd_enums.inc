/* generated by tools/mkucd.py from ucd.tar.xz (Unicode 15.0.0) */
enum { GCB_Other, GCB_CR, GCB_LF, GCB_Control, GCB_Extend, GCB_ZWJ, GCB_Regional_Indicator, GCB_Prepend, GCB_SpacingMark, GCB_L, GCB_V, GCB_T, GCB_LV, GCB_LVT, GCB_COUNT };
static const char *const GCB_NAMES[] = {"Other", "CR", "LF", "Control", "Extend", "ZWJ", "Regional_Indicator", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT"};
enum { WB_Other, WB_CR, WB_LF, WB_Newline, WB_Extend, WB_ZWJ, WB_Regional_Indicator, WB_Format, WB_Katakana, WB_Hebrew_Letter, WB_ALetter, WB_Single_Quote, WB_Double_Quote, WB_MidNumLet, WB_MidLetter, WB_MidNum, WB_Numeric, WB_ExtendNumLet, WB_WSegSpace, WB_COUNT };
static const char *const WB_NAMES[] = {"Other", "CR", "LF", "Newline", "Extend", "ZWJ", "Regional_Indicator", "Format", "Katakana", "Hebrew_Letter", "ALetter", "Single_Quote", "Double_Quote", "MidNumLet", "MidLetter", "MidNum", "Numeric", "ExtendNumLet", "WSegSpace"};
enum { SB_Other, SB_CR, SB_LF, SB_Extend, SB_Sep, SB_Format, SB_Sp, SB_Lower, SB_Upper, SB_OLetter, SB_Numeric, SB_ATerm, SB_SContinue, SB_STerm, SB_Close, SB_COUNT };
static const char *const SB_NAMES[] = {"Other", "CR", "LF", "Extend", "Sep", "Format", "Sp", "Lower", "Upper", "OLetter", "Numeric", "ATerm", "SContinue", "STerm", "Close"};
enum { LB_AL, LB_BK, LB_CR, LB_LF, LB_NL, LB_SP, LB_ZW, LB_ZWJ, LB_CM, LB_WJ, LB_GL, LB_BA, LB_HY, LB_BB, LB_EX, LB_CL, LB_CP, LB_IS, LB_SY, LB_OP, LB_QU, LB_NS, LB_B2, LB_CB, LB_IN, LB_HL, LB_NU, LB_PR, LB_PO, LB_ID, LB_EB, LB_EM, LB_JL, LB_JV, LB_JT, LB_H2, LB_H3, LB_RI, LB_COUNT };
static const char *const LB_NAMES[] = {"AL", "BK", "CR", "LF", "NL", "SP", "ZW", "ZWJ", "CM", "WJ", "GL", "BA", "HY", "BB", "EX", "CL", "CP", "IS", "SY", "OP", "QU", "NS", "B2", "CB", "IN", "HL", "NU", "PR", "PO", "ID", "EB", "EM", "JL", "JV", "JT", "H2", "H3", "RI"};
enum { BC_L, BC_R, BC_AL, BC_EN, BC_ES, BC_ET, BC_AN, BC_CS, BC_NSM, BC_BN, BC_B, BC_S, BC_WS, BC_ON, BC_LRE, BC_LRO, BC_RLE, BC_RLO, BC_PDF, BC_LRI, BC_RLI, BC_FSI, BC_PDI, BC_COUNT };
static const char *const BC_NAMES[] = {"L", "R", "AL", "EN", "ES", "ET", "AN", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"};
