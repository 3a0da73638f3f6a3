@@spec
pub open spec fn lang_code_name(t: int) -> Str {
    if t == 0int { #"ALB" } else
    if t == 1int { #"ARA" } else
    if t == 2int { #"BAQ" } else
    if t == 3int { #"BEL" } else
    if t == 4int { #"BET" } else
    if t == 5int { #"BEX" } else
    if t == 6int { #"BOS" } else
    if t == 7int { #"BOX" } else
    if t == 8int { #"BUL" } else
    if t == 9int { #"BUT" } else
    if t == 10int { #"BUX" } else
    if t == 11int { #"CAT" } else
    if t == 12int { #"CHI" } else
    if t == 13int { #"CHT" } else
    if t == 14int { #"CZE" } else
    if t == 15int { #"CZX" } else
    if t == 16int { #"DAN" } else
    if t == 17int { #"DUT" } else
    if t == 18int { #"ENG" } else
    if t == 19int { #"EST" } else
    if t == 20int { #"ESX" } else
    if t == 21int { #"FIN" } else
    if t == 22int { #"FRE" } else
    if t == 23int { #"GER" } else
    if t == 24int { #"GLG" } else
    if t == 25int { #"GRE" } else
    if t == 26int { #"GRN" } else
    if t == 27int { #"GRT" } else
    if t == 28int { #"GRX" } else
    if t == 29int { #"HEB" } else
    if t == 30int { #"HUN" } else
    if t == 31int { #"HUX" } else
    if t == 32int { #"IND" } else
    if t == 33int { #"ITA" } else
    if t == 34int { #"KOR" } else
    if t == 35int { #"KOX" } else
    if t == 36int { #"LAV" } else
    if t == 37int { #"LAX" } else
    if t == 38int { #"LIT" } else
    if t == 39int { #"LIX" } else
    if t == 40int { #"MAC" } else
    if t == 41int { #"MAT" } else
    if t == 42int { #"MAY" } else
    if t == 43int { #"MLT" } else
    if t == 44int { #"MLX" } else
    if t == 45int { #"MNE" } else
    if t == 46int { #"MNX" } else
    if t == 47int { #"MOL" } else
    if t == 48int { #"MOX" } else
    if t == 49int { #"NOR" } else
    if t == 50int { #"POL" } else
    if t == 51int { #"POR" } else
    if t == 52int { #"POX" } else
    if t == 53int { #"PYN" } else
    if t == 54int { #"RMX" } else
    if t == 55int { #"RST" } else
    if t == 56int { #"RUM" } else
    if t == 57int { #"RUS" } else
    if t == 58int { #"RUX" } else
    if t == 59int { #"SCR" } else
    if t == 60int { #"SCT" } else
    if t == 61int { #"SCX" } else
    if t == 62int { #"SIX" } else
    if t == 63int { #"SLO" } else
    if t == 64int { #"SLV" } else
    if t == 65int { #"SLX" } else
    if t == 66int { #"SPA" } else
    if t == 67int { #"SRB" } else
    if t == 68int { #"SRX" } else
    if t == 69int { #"SWE" } else
    if t == 70int { #"THA" } else
    if t == 71int { #"TKT" } else
    if t == 72int { #"TUR" } else
    if t == 73int { #"TUX" } else
    if t == 74int { #"UKR" } else
    if t == 75int { #"UKT" } else
    if t == 76int { #"UKX" } else
    if t == 77int { #"WEL" } else
    if t == (0int - 1) { #"UNKNOWN" } else
    { #"" }
}
pub open spec fn lang_name(t: int) -> Str {
    if t == 0int { #"ALBANIAN" } else
    if t == 1int { #"ARABIC" } else
    if t == 2int { #"BASQUE" } else
    if t == 3int { #"BELARUSIAN" } else
    if t == 4int { #"BELARUSIAN_TRANSCRIBED" } else
    if t == 5int { #"BELARUSIAN_TRANSLITERATED" } else
    if t == 6int { #"BOSNIAN" } else
    if t == 7int { #"BOSNIAN_TRANSLITERATED" } else
    if t == 8int { #"BULGARIAN" } else
    if t == 9int { #"BULGARIAN_TRANSCRIBED" } else
    if t == 10int { #"BULGARIAN_TRANSLITERATED" } else
    if t == 11int { #"CATALAN" } else
    if t == 12int { #"CHINESE_MODERN" } else
    if t == 13int { #"CHINESE_TRADITIONAL" } else
    if t == 14int { #"CZECH" } else
    if t == 15int { #"CZECH_TRANSLITERATED" } else
    if t == 16int { #"DANISH" } else
    if t == 17int { #"DUTCH" } else
    if t == 18int { #"ENGLISH" } else
    if t == 19int { #"ESTONIAN" } else
    if t == 20int { #"ESTONIAN_TRANSLITERATED" } else
    if t == 21int { #"FINNISH" } else
    if t == 22int { #"FRENCH" } else
    if t == 23int { #"GERMAN" } else
    if t == 24int { #"GALICIAN" } else
    if t == 25int { #"GREEK" } else
    if t == 26int { #"GUARANI" } else
    if t == 27int { #"GREEK_TRANSCRIBED" } else
    if t == 28int { #"GREK_TRANSLITERATED" } else
    if t == 29int { #"HEBREW" } else
    if t == 30int { #"HUNGARIAN" } else
    if t == 31int { #"HUNGARIAN_TRANSLITERATED" } else
    if t == 32int { #"BAHASA_INDONESIA" } else
    if t == 33int { #"ITALIAN" } else
    if t == 34int { #"KOREAN" } else
    if t == 35int { #"KOREAN_TRANSLITERATED" } else
    if t == 36int { #"LATVIAN" } else
    if t == 37int { #"LATVIAN_TRANSLITERATED" } else
    if t == 38int { #"LITHUANIAN" } else
    if t == 39int { #"LITHUANIAN_TRANSLITERATED" } else
    if t == 40int { #"MACEDONIAN" } else
    if t == 41int { #"MACEDONIAN_TRANSCRIBED" } else
    if t == 42int { #"MALAYSIAN" } else
    if t == 43int { #"MALTESE" } else
    if t == 44int { #"MALTESE_TRANSLITERATED" } else
    if t == 45int { #"MONTENEGRIN" } else
    if t == 46int { #"MONTENEGRIN_TRANSLITERATED" } else
    if t == 47int { #"MOLDOVAN" } else
    if t == 48int { #"MOLDOVAN_TRANSLITERATED" } else
    if t == 49int { #"NORWEGIAN" } else
    if t == 50int { #"POLISH" } else
    if t == 51int { #"PORTUGUESE" } else
    if t == 52int { #"POLISH_TRANSLITERATED" } else
    if t == 53int { #"PINYIN" } else
    if t == 54int { #"ROMANIAN_TRANSLITERATED" } else
    if t == 55int { #"RUSSIAN_TRANSCRIBED" } else
    if t == 56int { #"ROMANIAN" } else
    if t == 57int { #"RUSSIAN" } else
    if t == 58int { #"RUSSIAN_TRANSLITERATED" } else
    if t == 59int { #"CROATIAN" } else
    if t == 60int { #"SERBIAN_TRANSCRIBED" } else
    if t == 61int { #"SERBIAN_TRANSLITERATED" } else
    if t == 62int { #"SLOVENIAN_TRANSLITERATED" } else
    if t == 63int { #"SLOVAK" } else
    if t == 64int { #"SLOVENIAN" } else
    if t == 65int { #"SLOVAK_TRANSLITERATED" } else
    if t == 66int { #"SPANISH" } else
    if t == 67int { #"SERBIAN" } else
    if t == 68int { #"CROATION_TRANSLITERATED" } else
    if t == 69int { #"SWEDISH" } else
    if t == 70int { #"THAI" } else
    if t == 71int { #"TURKISH_TRANSCRIBED" } else
    if t == 72int { #"TURKISH" } else
    if t == 73int { #"TURKISH_TRANSLITERATED" } else
    if t == 74int { #"UKRAINIAN" } else
    if t == 75int { #"UKRAINIAN_TRANSCRIBED" } else
    if t == 76int { #"UKRAINIAN_TRANSLITERATED" } else
    if t == 77int { #"WELSH" } else
    if t == (0int - 1) { #"UNKNOWN" } else
    { #"" }
}
pub open spec fn lang_of(s: Str) -> int {
    if s == #"ALB" { 0int } else
    if s == #"ARA" { 1int } else
    if s == #"BAQ" { 2int } else
    if s == #"BEL" { 3int } else
    if s == #"BET" { 4int } else
    if s == #"BEX" { 5int } else
    if s == #"BOS" { 6int } else
    if s == #"BOX" { 7int } else
    if s == #"BUL" { 8int } else
    if s == #"BUT" { 9int } else
    if s == #"BUX" { 10int } else
    if s == #"CAT" { 11int } else
    if s == #"CHI" { 12int } else
    if s == #"CHT" { 13int } else
    if s == #"CZE" { 14int } else
    if s == #"CZX" { 15int } else
    if s == #"DAN" { 16int } else
    if s == #"DUT" { 17int } else
    if s == #"ENG" { 18int } else
    if s == #"EST" { 19int } else
    if s == #"ESX" { 20int } else
    if s == #"FIN" { 21int } else
    if s == #"FRE" { 22int } else
    if s == #"GER" { 23int } else
    if s == #"GLG" { 24int } else
    if s == #"GRE" { 25int } else
    if s == #"GRN" { 26int } else
    if s == #"GRT" { 27int } else
    if s == #"GRX" { 28int } else
    if s == #"HEB" { 29int } else
    if s == #"HUN" { 30int } else
    if s == #"HUX" { 31int } else
    if s == #"IND" { 32int } else
    if s == #"ITA" { 33int } else
    if s == #"KOR" { 34int } else
    if s == #"KOX" { 35int } else
    if s == #"LAV" { 36int } else
    if s == #"LAX" { 37int } else
    if s == #"LIT" { 38int } else
    if s == #"LIX" { 39int } else
    if s == #"MAC" { 40int } else
    if s == #"MAT" { 41int } else
    if s == #"MAY" { 42int } else
    if s == #"MLT" { 43int } else
    if s == #"MLX" { 44int } else
    if s == #"MNE" { 45int } else
    if s == #"MNX" { 46int } else
    if s == #"MOL" { 47int } else
    if s == #"MOX" { 48int } else
    if s == #"NOR" { 49int } else
    if s == #"POL" { 50int } else
    if s == #"POR" { 51int } else
    if s == #"POX" { 52int } else
    if s == #"PYN" { 53int } else
    if s == #"RMX" { 54int } else
    if s == #"RST" { 55int } else
    if s == #"RUM" { 56int } else
    if s == #"RUS" { 57int } else
    if s == #"RUX" { 58int } else
    if s == #"SCR" { 59int } else
    if s == #"SCT" { 60int } else
    if s == #"SCX" { 61int } else
    if s == #"SIX" { 62int } else
    if s == #"SLO" { 63int } else
    if s == #"SLV" { 64int } else
    if s == #"SLX" { 65int } else
    if s == #"SPA" { 66int } else
    if s == #"SRB" { 67int } else
    if s == #"SRX" { 68int } else
    if s == #"SWE" { 69int } else
    if s == #"THA" { 70int } else
    if s == #"TKT" { 71int } else
    if s == #"TUR" { 72int } else
    if s == #"TUX" { 73int } else
    if s == #"UKR" { 74int } else
    if s == #"UKT" { 75int } else
    if s == #"UKX" { 76int } else
    if s == #"WEL" { 77int } else
    if s == #"ALBANIAN" { 0int } else
    if s == #"ARABIC" { 1int } else
    if s == #"BASQUE" { 2int } else
    if s == #"BELARUSIAN" { 3int } else
    if s == #"BELARUSIAN_TRANSCRIBED" { 4int } else
    if s == #"BELARUSIAN_TRANSLITERATED" { 5int } else
    if s == #"BOSNIAN" { 6int } else
    if s == #"BOSNIAN_TRANSLITERATED" { 7int } else
    if s == #"BULGARIAN" { 8int } else
    if s == #"BULGARIAN_TRANSCRIBED" { 9int } else
    if s == #"BULGARIAN_TRANSLITERATED" { 10int } else
    if s == #"CATALAN" { 11int } else
    if s == #"CHINESE_MODERN" { 12int } else
    if s == #"CHINESE_TRADITIONAL" { 13int } else
    if s == #"CZECH" { 14int } else
    if s == #"CZECH_TRANSLITERATED" { 15int } else
    if s == #"DANISH" { 16int } else
    if s == #"DUTCH" { 17int } else
    if s == #"ENGLISH" { 18int } else
    if s == #"ESTONIAN" { 19int } else
    if s == #"ESTONIAN_TRANSLITERATED" { 20int } else
    if s == #"FINNISH" { 21int } else
    if s == #"FRENCH" { 22int } else
    if s == #"GERMAN" { 23int } else
    if s == #"GALICIAN" { 24int } else
    if s == #"GREEK" { 25int } else
    if s == #"GUARANI" { 26int } else
    if s == #"GREEK_TRANSCRIBED" { 27int } else
    if s == #"GREK_TRANSLITERATED" { 28int } else
    if s == #"HEBREW" { 29int } else
    if s == #"HUNGARIAN" { 30int } else
    if s == #"HUNGARIAN_TRANSLITERATED" { 31int } else
    if s == #"BAHASA_INDONESIA" { 32int } else
    if s == #"ITALIAN" { 33int } else
    if s == #"KOREAN" { 34int } else
    if s == #"KOREAN_TRANSLITERATED" { 35int } else
    if s == #"LATVIAN" { 36int } else
    if s == #"LATVIAN_TRANSLITERATED" { 37int } else
    if s == #"LITHUANIAN" { 38int } else
    if s == #"LITHUANIAN_TRANSLITERATED" { 39int } else
    if s == #"MACEDONIAN" { 40int } else
    if s == #"MACEDONIAN_TRANSCRIBED" { 41int } else
    if s == #"MALAYSIAN" { 42int } else
    if s == #"MALTESE" { 43int } else
    if s == #"MALTESE_TRANSLITERATED" { 44int } else
    if s == #"MONTENEGRIN" { 45int } else
    if s == #"MONTENEGRIN_TRANSLITERATED" { 46int } else
    if s == #"MOLDOVAN" { 47int } else
    if s == #"MOLDOVAN_TRANSLITERATED" { 48int } else
    if s == #"NORWEGIAN" { 49int } else
    if s == #"POLISH" { 50int } else
    if s == #"PORTUGUESE" { 51int } else
    if s == #"POLISH_TRANSLITERATED" { 52int } else
    if s == #"PINYIN" { 53int } else
    if s == #"ROMANIAN_TRANSLITERATED" { 54int } else
    if s == #"RUSSIAN_TRANSCRIBED" { 55int } else
    if s == #"ROMANIAN" { 56int } else
    if s == #"RUSSIAN" { 57int } else
    if s == #"RUSSIAN_TRANSLITERATED" { 58int } else
    if s == #"CROATIAN" { 59int } else
    if s == #"SERBIAN_TRANSCRIBED" { 60int } else
    if s == #"SERBIAN_TRANSLITERATED" { 61int } else
    if s == #"SLOVENIAN_TRANSLITERATED" { 62int } else
    if s == #"SLOVAK" { 63int } else
    if s == #"SLOVENIAN" { 64int } else
    if s == #"SLOVAK_TRANSLITERATED" { 65int } else
    if s == #"SPANISH" { 66int } else
    if s == #"SERBIAN" { 67int } else
    if s == #"CROATION_TRANSLITERATED" { 68int } else
    if s == #"SWEDISH" { 69int } else
    if s == #"THAI" { 70int } else
    if s == #"TURKISH_TRANSCRIBED" { 71int } else
    if s == #"TURKISH" { 72int } else
    if s == #"TURKISH_TRANSLITERATED" { 73int } else
    if s == #"UKRAINIAN" { 74int } else
    if s == #"UKRAINIAN_TRANSCRIBED" { 75int } else
    if s == #"UKRAINIAN_TRANSLITERATED" { 76int } else
    if s == #"WELSH" { 77int } else
    { (0int - 1) }
}
pub open spec fn lang_valid(t: int) -> bool { -1 <= t < 78 }
@@end
@@fn InClass::asString(InClass::Lang)
params: lang
requires lang_valid($lang),
ensures $ret == lang_code_name($lang),
@@end
@@fn InClass::asName(InClass::Lang)
params: lang
requires lang_valid($lang),
ensures $ret == lang_name($lang),
@@end
@@fn InClass::asLang(string)
params: s
ensures $ret == lang_of($s), lang_valid($ret),
@@end
@@spec C13
pub proof fn C13_language_codes_round_trip(t: int)
    requires lang_valid(t)
    ensures lang_of(lang_code_name(t)) == t
{ lits(); }
@@end
