include common.spec
use string.spec
// ---- characters
source libpbat/enc/pBat_Enc.c
pred fol(int c) = 0-128 <= c <= 0-65
// position after the bytes of a character that begins before j
logic int skipf(bytes s, int j) = fol(s[j]) ? skipf(s, j+1) : j
logic int nextc(bytes s, int j) = s[j] >= 0 ? j+1 : skipf(s, j+1)
fn _pBat_IsFollowingByte
requires \valid(lpChar, 1)
ensures \result == 0 || \result == 1
ensures \result == 1 <==> fol(*lpChar)

fn pBat_GetNextChar
requires \str(lpContent) && *lpContent != 0 && _pBat_TextMode == 1
ensures within(\result, lpContent) && \off(\result) == nextc(\bytes(lpContent), \off(lpContent))
ensures \off(\result) > \off(lpContent)
loop 1
 invariant within(lpContent, \old(lpContent)) && \off(lpContent) > \off(\old(lpContent))
 invariant skipf(\bytes(\old(lpContent)), \off(\old(lpContent)) + 1) == skipf(\bytes(\old(lpContent)), \off(lpContent))
 variant eos(\old(lpContent)) - \off(lpContent)

source libpbat/dir/pBat_Dir.c
logic int up(int c)
axiom up0: \forall int k; { up(k) } up(k) == up(0) ==> k == 0
extern int toupper(int c)
ensures \result == up(c)
extern int strcmp(char* a, char* b)
requires \str(a) && \str(b)
ensures \result == 0 <==> (\len(a) == \len(b) && (\forall int k; 0 <= k < \len(a) ==> a[k] == b[k]))
extern int strcasecmp(char* a, char* b)
requires \str(a) && \str(b)
ensures \result == 0 <==> (\len(a) == \len(b) && (\forall int k; 0 <= k < \len(a) ==> up(a[k]) == up(b[k])))
pred jok(int c) = c == '*' || c == '?'
// n characters alike, exactly or but for their case
logic bool eqn(bytes p, int i, bytes s, int j, int n) = \forall int k; 0 <= k < n ==> p[i+k] == s[j+k]
logic bool eqi(bytes p, int i, bytes s, int j, int n) = \forall int k; 0 <= k < n ==> up(p[i+k]) == up(s[j+k])
// first place from j where n characters of the pattern stand, -1 if there is none
logic int seek(bytes p, int i, int n, bytes s, int j) = s[j] == 0 ? 0-1 : (eqn(p, i, s, j, n) ? j : seek(p, i, n, s, j+1))
logic int seeki(bytes p, int i, int n, bytes s, int j) = s[j] == 0 ? 0-1 : (eqi(p, i, s, j, n) ? j : seeki(p, i, n, s, j+1))

fn pBat_SeekPattern
requires \str(match) && \str(pattern) && len <= \len(pattern) && \len(pattern) < 0x40000000 && \len(match) < 0x40000000
ensures \result == \null <==> seek(\bytes(pattern), \off(pattern), len, \bytes(match), \off(match)) == 0-1
ensures \result != \null ==> within(\result, match) && \off(\result) == seek(\bytes(pattern), \off(pattern), len, \bytes(match), \off(match)) && \off(\result) + len <= eos(match)
loop 1
 invariant within(match, \old(match))
 invariant seek(\bytes(pattern), \off(pattern), len, \bytes(\old(match)), \off(\old(match))) == seek(\bytes(pattern), \off(pattern), len, \bytes(\old(match)), \off(match))
 variant eos(\old(match)) - \off(match)
loop 2
 invariant 0 <= i <= len && i <= eos(\old(match)) - \off(match)
 invariant eqn(\bytes(pattern), \off(pattern), \bytes(\old(match)), \off(match), i)
 variant len - i

fn pBat_EndWithPattern
requires \str(match) && \str(pattern) && len == \len(pattern)
ensures \result != 0 <==> \len(match) >= len && eqn(\bytes(pattern), \off(pattern), \bytes(match), eos(match) - len, len)

fn pBat_SeekCasePattern
requires \str(match) && \str(pattern) && len <= \len(pattern) && \len(pattern) < 0x40000000 && \len(match) < 0x40000000
ensures \result == \null <==> seeki(\bytes(pattern), \off(pattern), len, \bytes(match), \off(match)) == 0-1
ensures \result != \null ==> within(\result, match) && \off(\result) == seeki(\bytes(pattern), \off(pattern), len, \bytes(match), \off(match)) && \off(\result) + len <= eos(match)
loop 1
 invariant within(match, \old(match))
 invariant seeki(\bytes(pattern), \off(pattern), len, \bytes(\old(match)), \off(\old(match))) == seeki(\bytes(pattern), \off(pattern), len, \bytes(\old(match)), \off(match))
 variant eos(\old(match)) - \off(match)
loop 2
 invariant 0 <= i <= len && i <= eos(\old(match)) - \off(match)
 invariant eqi(\bytes(pattern), \off(pattern), \bytes(\old(match)), \off(match), i)
 variant len - i

fn pBat_EndWithCasePattern
requires \str(match) && \str(pattern) && len == \len(pattern)
ensures \result != 0 <==> \len(match) >= len && eqi(\bytes(pattern), \off(pattern), \bytes(match), eos(match) - len, len)

lemma skipf_up induct e from j: \forall bytes s, int j, int e; { skipf(s, j), skipf(s, e) } j <= e ==> (j <= skipf(s, j) && skipf(s, j) <= e) || skipf(s, j) == skipf(s, e)
lemma nextc_mono: \forall bytes s, int x, int y, int e; { nextc(s, x), nextc(s, y), s[e] } x <= y && y < e && s[e] == 0 ==> skipf(s, e) < 0 - 1 || (nextc(s, x) <= nextc(s, y) && nextc(s, y) <= e && nextc(s, x) > x)
pred plain(bytes p, int a, int n) = \forall int k; a <= k < a+n ==> p[k] != 0 && p[k] != '*'
pred nonul(bytes s, int b, int e) = \forall int k; b <= k < e ==> s[k] != 0
// ---- the meaning of a pattern: * stands for any text, ? for one character, all others for themselves
logic bool gm(bytes p, int i, bytes s, int j) = p[i] == 0 ? s[j] == 0 : (p[i] == '*' ? gm(p, i+1, s, j) || (s[j] != 0 && gm(p, i, s, j+1)) : (s[j] != 0 && (p[i] == '?' ? gm(p, i+1, s, nextc(s, j)) : p[i] == s[j] && gm(p, i+1, s, j+1))))
// end of the n characters of a pattern from a, matched with the text from j; -1 when they do not match
logic int stp(int c, bytes s, int j) = (j < 0 || s[j] == 0) ? 0-1 : (c == '?' ? nextc(s, j) : (c == s[j] ? j+1 : 0-1))
logic int seg(bytes p, int a, int n, bytes s, int j) = n <= 0 ? j : stp(p[a+n-1], s, seg(p, a, n-1, s, j))
lemma stp_mono: \forall int c, bytes s, int x, int y, int e; { stp(c, s, x), stp(c, s, y), s[e] } 0 <= x && x <= y && y <= e && s[e] == 0 ==> stp(c, s, x) == 0-1 || stp(c, s, y) == 0-1 || stp(c, s, x) <= stp(c, s, y)
lemma seg_rng induct n: \forall bytes p, int a, int n, bytes s, int j, int e; { seg(p, a, n, s, j), s[e] } 0 <= j && j <= e && s[e] == 0 ==> seg(p, a, n, s, j) == 0-1 || (j <= seg(p, a, n, s, j) && seg(p, a, n, s, j) <= e)
lemma seg_mono induct n using stp_mono, seg_rng: \forall bytes p, int a, int n, bytes s, int j, int k, int e; { seg(p, a, n, s, j), seg(p, a, n, s, k), s[e] } 0 <= j && j <= k && k <= e && s[e] == 0 ==> seg(p, a, n, s, j) == 0-1 || seg(p, a, n, s, k) == 0-1 || seg(p, a, n, s, j) <= seg(p, a, n, s, k)
lemma seg_gm induct n: \forall bytes p, int a, int n, bytes s, int j, int e; { gm(p, a, s, j), seg(p, a, n, s, j), s[e] } 0 <= n && 0 <= j && j <= e && s[e] == 0 && plain(p, a, n) ==> (gm(p, a, s, j) <==> seg(p, a, n, s, j) != 0-1 && gm(p, a+n, s, seg(p, a, n, s, j)))
lemma gm_star induct k from j: \forall bytes p, int i, bytes s, int j, int k; { gm(p, i, s, j), gm(p, i, s, k) } p[i] == '*' && j <= k && nonul(s, j, k) && gm(p, i, s, k) ==> gm(p, i, s, j)
lemma gm_at using gm_star, seg_gm, seg_mono, seg_rng: \forall bytes p, int a, int n, bytes s, int b, int k, int e; { seg(p, a, n, s, b), gm(p, a, s, k), s[e] } 0 <= n && 0 <= b && b <= k && k <= e && s[e] == 0 && nonul(s, b, e) && plain(p, a, n) && seg(p, a, n, s, b) >= 0 && (p[a+n] == '*' || s[seg(p, a, n, s, b)] == 0) && gm(p, a, s, k) ==> seg(p, a, n, s, k) < 0-1 || gm(p, a+n, s, seg(p, a, n, s, b))
// when what follows the last joker matches up to the next one from b, it need not be tried from any other place
lemma gm_up induct k from b using gm_at, seg_rng: \forall bytes p, int c, int a, int n, bytes s, int b, int k, int e; { seg(p, a, n, s, b), gm(p, c, s, b), seg(p, a, n, s, k), s[e] } 0 <= n && 0 <= b && b <= k && k <= e && s[e] == 0 && nonul(s, b, e) && c == a-1 && p[c] == '*' && plain(p, a, n) && seg(p, a, n, s, b) >= 0 && (p[a+n] == '*' || s[seg(p, a, n, s, b)] == 0) && !gm(p, a+n, s, seg(p, a, n, s, b)) && gm(p, c, s, b) ==> seg(p, a, n, s, k) < 0-1 || gm(p, c, s, k)
lemma gm_far1 using gm_up, seg_rng: \forall bytes p, int c, int a, int n, bytes s, int b, int e; { seg(p, a, n, s, b), gm(p, c, s, b), s[e] } 0 <= n && 0 <= b && b <= e && s[e] == 0 && nonul(s, b, e) && c == a-1 && p[c] == '*' && plain(p, a, n) && seg(p, a, n, s, b) >= 0 && (p[a+n] == '*' || s[seg(p, a, n, s, b)] == 0) && gm(p, c, s, b) ==> seg(p, a, n, s, e) < 0-1 || gm(p, a+n, s, seg(p, a, n, s, b)) || gm(p, a, s, e)
lemma gm_far using gm_at, gm_far1: \forall bytes p, int c, int a, int n, bytes s, int b, int e; { seg(p, a, n, s, b), gm(p, c, s, b), s[e] } 0 <= n && 0 <= b && b <= e && s[e] == 0 && nonul(s, b, e) && c == a-1 && p[c] == '*' && plain(p, a, n) && seg(p, a, n, s, b) >= 0 && (p[a+n] == '*' || s[seg(p, a, n, s, b)] == 0) && gm(p, c, s, b) ==> seg(p, a, n, s, e) < 0-1 || gm(p, a+n, s, seg(p, a, n, s, b))
lemma gm_next using seg_gm, seg_rng: \forall bytes p, int c, int a, int n, bytes s, int b, int e; { seg(p, a, n, s, b), gm(p, c, s, b), s[e] } 0 <= n && 0 <= b && b <= e && s[e] == 0 && c == a-1 && p[c] == '*' && plain(p, a, n) && seg(p, a, n, s, b) >= 0 ==> (gm(p, c, s, b) <==> gm(p, a+n, s, seg(p, a, n, s, b)) || (s[b] != 0 && gm(p, c, s, b+1)))

fn pBat_RegExpMatch
requires \str(regexp) && \str(match) && \len(regexp) < 0x40000000 && \len(match) < 0x40000000 && _pBat_TextMode == 1
ensures \result != 0 <==> gm(\bytes(regexp), \off(regexp), \bytes(match), \off(match))
loop 1
 invariant within(regexp, \old(regexp)) && within(match, \old(match))
 invariant joker == \null ==> (gm(\bytes(\old(regexp)), \off(\old(regexp)), \bytes(\old(match)), \off(\old(match))) <==> gm(\bytes(\old(regexp)), \off(regexp), \bytes(\old(match)), \off(match)))
 invariant joker != \null ==> within(joker, \old(regexp)) && \off(joker) > \off(\old(regexp)) && \off(joker) <= \off(regexp) && \bytes(\old(regexp))[\off(joker)-1] == '*'
 invariant joker != \null ==> within(retry, \old(match)) && \off(retry) <= \off(match)
 invariant joker != \null ==> plain(\bytes(\old(regexp)), \off(joker), \off(regexp) - \off(joker))
 invariant joker != \null ==> seg(\bytes(\old(regexp)), \off(joker), \off(regexp) - \off(joker), \bytes(\old(match)), \off(retry)) == \off(match)
 invariant joker != \null ==> (gm(\bytes(\old(regexp)), \off(\old(regexp)), \bytes(\old(match)), \off(\old(match))) <==> gm(\bytes(\old(regexp)), \off(joker) - 1, \bytes(\old(match)), \off(retry)))
 variant joker == \null ? (eos(\old(regexp)) + 1 - \off(\old(regexp))) * 0x4000000000000000 + eos(\old(regexp)) - \off(regexp) + eos(\old(match)) - \off(match) : (eos(\old(regexp)) - \off(joker)) * 0x4000000000000000 + (eos(\old(match)) - \off(retry)) * 0x80000000 + eos(\old(regexp)) - \off(regexp)
loop 2
 invariant within(regexp, \old(regexp)) && *match == 0
 invariant gm(\bytes(\old(regexp)), \off(\old(regexp)), \bytes(\old(match)), \off(\old(match))) <==> gm(\bytes(\old(regexp)), \off(regexp), \bytes(\old(match)), \off(match))
 variant eos(\old(regexp)) - \off(regexp)

// ---- the meaning of a pattern: * stands for any text, ? for one character, all others for themselves, ignoring case
logic bool gmi(bytes p, int i, bytes s, int j) = p[i] == 0 ? s[j] == 0 : (p[i] == '*' ? gmi(p, i+1, s, j) || (s[j] != 0 && gmi(p, i, s, j+1)) : (s[j] != 0 && (p[i] == '?' ? gmi(p, i+1, s, nextc(s, j)) : up(p[i]) == up(s[j]) && gmi(p, i+1, s, j+1))))
// end of the n characters of a pattern from a, matched with the text from j; -1 when they do not match
logic int stpi(int c, bytes s, int j) = (j < 0 || s[j] == 0) ? 0-1 : (c == '?' ? nextc(s, j) : (up(c) == up(s[j]) ? j+1 : 0-1))
logic int segi(bytes p, int a, int n, bytes s, int j) = n <= 0 ? j : stpi(p[a+n-1], s, segi(p, a, n-1, s, j))
lemma stpi_mono: \forall int c, bytes s, int x, int y, int e; { stpi(c, s, x), stpi(c, s, y), s[e] } 0 <= x && x <= y && y <= e && s[e] == 0 ==> stpi(c, s, x) == 0-1 || stpi(c, s, y) == 0-1 || stpi(c, s, x) <= stpi(c, s, y)
lemma segi_rng induct n: \forall bytes p, int a, int n, bytes s, int j, int e; { segi(p, a, n, s, j), s[e] } 0 <= j && j <= e && s[e] == 0 ==> segi(p, a, n, s, j) == 0-1 || (j <= segi(p, a, n, s, j) && segi(p, a, n, s, j) <= e)
lemma segi_mono induct n using stpi_mono, segi_rng: \forall bytes p, int a, int n, bytes s, int j, int k, int e; { segi(p, a, n, s, j), segi(p, a, n, s, k), s[e] } 0 <= j && j <= k && k <= e && s[e] == 0 ==> segi(p, a, n, s, j) == 0-1 || segi(p, a, n, s, k) == 0-1 || segi(p, a, n, s, j) <= segi(p, a, n, s, k)
lemma segi_gm induct n: \forall bytes p, int a, int n, bytes s, int j, int e; { gmi(p, a, s, j), segi(p, a, n, s, j), s[e] } 0 <= n && 0 <= j && j <= e && s[e] == 0 && plain(p, a, n) ==> (gmi(p, a, s, j) <==> segi(p, a, n, s, j) != 0-1 && gmi(p, a+n, s, segi(p, a, n, s, j)))
lemma gmi_star induct k from j: \forall bytes p, int i, bytes s, int j, int k; { gmi(p, i, s, j), gmi(p, i, s, k) } p[i] == '*' && j <= k && nonul(s, j, k) && gmi(p, i, s, k) ==> gmi(p, i, s, j)
lemma gmi_at using gmi_star, segi_gm, segi_mono, segi_rng: \forall bytes p, int a, int n, bytes s, int b, int k, int e; { segi(p, a, n, s, b), gmi(p, a, s, k), s[e] } 0 <= n && 0 <= b && b <= k && k <= e && s[e] == 0 && nonul(s, b, e) && plain(p, a, n) && segi(p, a, n, s, b) >= 0 && (p[a+n] == '*' || s[segi(p, a, n, s, b)] == 0) && gmi(p, a, s, k) ==> segi(p, a, n, s, k) < 0-1 || gmi(p, a+n, s, segi(p, a, n, s, b))
// when what follows the last joker matches up to the next one from b, it need not be tried from any other place
lemma gmi_up induct k from b using gmi_at, segi_rng: \forall bytes p, int c, int a, int n, bytes s, int b, int k, int e; { segi(p, a, n, s, b), gmi(p, c, s, b), segi(p, a, n, s, k), s[e] } 0 <= n && 0 <= b && b <= k && k <= e && s[e] == 0 && nonul(s, b, e) && c == a-1 && p[c] == '*' && plain(p, a, n) && segi(p, a, n, s, b) >= 0 && (p[a+n] == '*' || s[segi(p, a, n, s, b)] == 0) && !gmi(p, a+n, s, segi(p, a, n, s, b)) && gmi(p, c, s, b) ==> segi(p, a, n, s, k) < 0-1 || gmi(p, c, s, k)
lemma gmi_far1 using gmi_up, segi_rng: \forall bytes p, int c, int a, int n, bytes s, int b, int e; { segi(p, a, n, s, b), gmi(p, c, s, b), s[e] } 0 <= n && 0 <= b && b <= e && s[e] == 0 && nonul(s, b, e) && c == a-1 && p[c] == '*' && plain(p, a, n) && segi(p, a, n, s, b) >= 0 && (p[a+n] == '*' || s[segi(p, a, n, s, b)] == 0) && gmi(p, c, s, b) ==> segi(p, a, n, s, e) < 0-1 || gmi(p, a+n, s, segi(p, a, n, s, b)) || gmi(p, a, s, e)
lemma gmi_far using gmi_at, gmi_far1: \forall bytes p, int c, int a, int n, bytes s, int b, int e; { segi(p, a, n, s, b), gmi(p, c, s, b), s[e] } 0 <= n && 0 <= b && b <= e && s[e] == 0 && nonul(s, b, e) && c == a-1 && p[c] == '*' && plain(p, a, n) && segi(p, a, n, s, b) >= 0 && (p[a+n] == '*' || s[segi(p, a, n, s, b)] == 0) && gmi(p, c, s, b) ==> segi(p, a, n, s, e) < 0-1 || gmi(p, a+n, s, segi(p, a, n, s, b))
lemma gmi_next using segi_gm, segi_rng: \forall bytes p, int c, int a, int n, bytes s, int b, int e; { segi(p, a, n, s, b), gmi(p, c, s, b), s[e] } 0 <= n && 0 <= b && b <= e && s[e] == 0 && c == a-1 && p[c] == '*' && plain(p, a, n) && segi(p, a, n, s, b) >= 0 ==> (gmi(p, c, s, b) <==> gmi(p, a+n, s, segi(p, a, n, s, b)) || (s[b] != 0 && gmi(p, c, s, b+1)))

fn pBat_RegExpCaseMatch
requires \str(regexp) && \str(match) && \len(regexp) < 0x40000000 && \len(match) < 0x40000000 && _pBat_TextMode == 1
ensures \result != 0 <==> gmi(\bytes(regexp), \off(regexp), \bytes(match), \off(match))
loop 1
 invariant within(regexp, \old(regexp)) && within(match, \old(match))
 invariant joker == \null ==> (gmi(\bytes(\old(regexp)), \off(\old(regexp)), \bytes(\old(match)), \off(\old(match))) <==> gmi(\bytes(\old(regexp)), \off(regexp), \bytes(\old(match)), \off(match)))
 invariant joker != \null ==> within(joker, \old(regexp)) && \off(joker) > \off(\old(regexp)) && \off(joker) <= \off(regexp) && \bytes(\old(regexp))[\off(joker)-1] == '*'
 invariant joker != \null ==> within(retry, \old(match)) && \off(retry) <= \off(match)
 invariant joker != \null ==> plain(\bytes(\old(regexp)), \off(joker), \off(regexp) - \off(joker))
 invariant joker != \null ==> segi(\bytes(\old(regexp)), \off(joker), \off(regexp) - \off(joker), \bytes(\old(match)), \off(retry)) == \off(match)
 invariant joker != \null ==> (gmi(\bytes(\old(regexp)), \off(\old(regexp)), \bytes(\old(match)), \off(\old(match))) <==> gmi(\bytes(\old(regexp)), \off(joker) - 1, \bytes(\old(match)), \off(retry)))
 variant joker == \null ? (eos(\old(regexp)) + 1 - \off(\old(regexp))) * 0x4000000000000000 + eos(\old(regexp)) - \off(regexp) + eos(\old(match)) - \off(match) : (eos(\old(regexp)) - \off(joker)) * 0x4000000000000000 + (eos(\old(match)) - \off(retry)) * 0x80000000 + eos(\old(regexp)) - \off(regexp)
loop 2
 invariant within(regexp, \old(regexp)) && *match == 0
 invariant gmi(\bytes(\old(regexp)), \off(\old(regexp)), \bytes(\old(match)), \off(\old(match))) <==> gmi(\bytes(\old(regexp)), \off(regexp), \bytes(\old(match)), \off(match))
 variant eos(\old(regexp)) - \off(regexp)

