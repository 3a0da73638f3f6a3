@@uses utf8
@@spec
// the text functions of the Unicode library: pure functions that give well-formed text
pub uninterp spec fn nfc(s: Str) -> Str;
pub uninterp spec fn upper(s: Str, locale: Str) -> Str;
pub axiom fn axiom_well_formed(s: Str, locale: Str) ensures utf8(nfc(s)), utf8(upper(s, locale));
@@end
@@fn Utils::normalizeUTF8(string,int&)
params: s ec
opt: trusted
ensures $ret == nfc($s), utf8($ret), 4 * $ret.len() < npos() - 1,
@@end
@@fn Utils::upperCaseUTF8(string,string)
params: s loc
opt: trusted
ensures $ret == upper($s, $loc), utf8($ret), 4 * $ret.len() < npos() - 1,
@@end
