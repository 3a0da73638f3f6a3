@@spec
pub uninterp spec fn md5_of(s: Str) -> Str;
@@end
@@fn md5(string)
params: s
opt: trusted
ensures $ret == md5_of($s),
@@end
