include str.spec
source libpbat/cmdlib/pBat_String.c

fn pBat_SkipBlanks
requires \str(lpCh)
ensures within(\result, lpCh) && !delim(*\result)
ensures \forall int j; \off(lpCh) <= j < \off(\result) ==> delim(\bytes(lpCh)[j])
loop 1
 invariant within(lpCh, \old(lpCh))
 invariant \forall int j; \off(\old(lpCh)) <= j < \off(lpCh) ==> delim(\bytes(lpCh)[j])
 variant eos(\old(lpCh)) - \off(lpCh)

fn pBat_SkipAllBlanks
requires \str(lpCh)
ensures within(\result, lpCh) && !delim(*\result) && *\result != '@'
ensures \forall int j; \off(lpCh) <= j < \off(\result) ==> (delim(\bytes(lpCh)[j]) || \bytes(lpCh)[j] == '@')
loop 1
 invariant within(lpCh, \old(lpCh))
 invariant \forall int j; \off(\old(lpCh)) <= j < \off(lpCh) ==> (delim(\bytes(lpCh)[j]) || \bytes(lpCh)[j] == '@')
 variant eos(\old(lpCh)) - \off(lpCh)

fn pBat_GetNextNonEscaped
requires \str(lpCh)
ensures \result == lpCh + (*lpCh == '^' ? (lpCh[1] != 0 ? 2 : 1) : (*lpCh != 0 ? 1 : 0))

fn pBat_SearchChar
requires \str(lpCh) && \len(lpCh) < 0x40000000 && cChar != 0 && cChar != '^' && -128 <= cChar <= 127
ensures \result == \null ==> noc(lpCh, cChar, \off(lpCh), eos(lpCh))
ensures \result != \null ==> within(\result, lpCh) && *\result == cChar && !escp(lpCh, \result) && noc(lpCh, cChar, \off(lpCh), \off(\result))
loop 1
 invariant within(lpCh, \old(lpCh)) && bnd(\old(lpCh), lpCh)
 invariant noc(\old(lpCh), cChar, \off(\old(lpCh)), \off(lpCh))
 variant eos(\old(lpCh)) - \off(lpCh)
loop 2
 invariant 1 <= i && i <= \off(lpNxt) - \off(lpCh) + 1 && (ok == 0 || ok == 1)
 invariant (ok == 1) <==> (escp(\old(lpCh), lpNxt) == escp(\old(lpCh), lpNxt - i + 1))
 variant \off(lpNxt) - \off(lpCh) + 1 - i

fn pBat_SearchLastChar
requires \str(lpCh) && \len(lpCh) < 0x40000000 && cChar != 0 && cChar != '^' && -128 <= cChar <= 127
ensures \result == \null ==> noc(lpCh, cChar, \off(lpCh), eos(lpCh))
ensures \result != \null ==> within(\result, lpCh) && *\result == cChar && !escp(lpCh, \result) && noc(lpCh, cChar, \off(\result)+1, eos(lpCh))
loop 1
 invariant within(lpCh, \old(lpCh)) && bnd(\old(lpCh), lpCh)
 invariant lpLastMatch == \null ==> noc(\old(lpCh), cChar, \off(\old(lpCh)), \off(lpCh))
 invariant lpLastMatch != \null ==> within(lpLastMatch, \old(lpCh)) && *lpLastMatch == cChar && !escp(\old(lpCh), lpLastMatch) && noc(\old(lpCh), cChar, \off(lpLastMatch)+1, \off(lpCh))
 variant eos(\old(lpCh)) - \off(lpCh)
loop 2
 invariant 1 <= i && i <= \off(lpNxt) - \off(lpCh) + 1 && (ok == 0 || ok == 1)
 invariant (ok == 1) <==> (escp(\old(lpCh), lpNxt) == escp(\old(lpCh), lpNxt - i + 1))
 variant \off(lpNxt) - \off(lpCh) + 1 - i

fn pBat_SearchToken
requires \str(lpCh) && \len(lpCh) < 0x40000000 && goodset(lpDelims)
ensures \result == \null ==> not(lpCh, lpDelims, \off(lpCh), eos(lpCh))
ensures \result != \null ==> within(\result, lpCh) && *\result != 0 && inset(lpDelims, *\result) && !escp(lpCh, \result) && not(lpCh, lpDelims, \off(lpCh), \off(\result))
loop 1
 invariant within(lpCh, \old(lpCh)) && bnd(\old(lpCh), lpCh)
 invariant not(\old(lpCh), lpDelims, \off(\old(lpCh)), \off(lpCh))
 variant eos(\old(lpCh)) - \off(lpCh)
loop 2
 invariant 1 <= i && i <= \off(lpNxt) - \off(lpCh) + 1 && (ok == 0 || ok == 1)
 invariant (ok == 1) <==> (escp(\old(lpCh), lpNxt) == escp(\old(lpCh), lpNxt - i + 1))
 variant \off(lpNxt) - \off(lpCh) + 1 - i

fn pBat_SearchLastToken
requires \str(lpCh) && \len(lpCh) < 0x40000000 && goodset(lpDelims)
ensures \result == \null ==> not(lpCh, lpDelims, \off(lpCh), eos(lpCh))
ensures \result != \null ==> within(\result, lpCh) && *\result != 0 && inset(lpDelims, *\result) && !escp(lpCh, \result) && not(lpCh, lpDelims, \off(\result)+1, eos(lpCh))
loop 1
 invariant within(lpCh, \old(lpCh)) && bnd(\old(lpCh), lpCh)
 invariant lpLastOccurence == \null ==> not(\old(lpCh), lpDelims, \off(\old(lpCh)), \off(lpCh))
 invariant lpLastOccurence != \null ==> within(lpLastOccurence, \old(lpCh)) && *lpLastOccurence != 0 && inset(lpDelims, *lpLastOccurence) && !escp(\old(lpCh), lpLastOccurence) && not(\old(lpCh), lpDelims, \off(lpLastOccurence)+1, \off(lpCh))
 variant eos(\old(lpCh)) - \off(lpCh)
loop 2
 invariant 1 <= i && i <= \off(lpNxt) - \off(lpCh) + 1 && (ok == 0 || ok == 1)
 invariant (ok == 1) <==> (escp(\old(lpCh), lpNxt) == escp(\old(lpCh), lpNxt - i + 1))
 variant \off(lpNxt) - \off(lpCh) + 1 - i

pred inqp(char* s, char* p) = inq(\bytes(s), \off(s), \off(p))

fn pBat_SearchChar_OutQuotes
requires \str(lpCh) && \len(lpCh) < 0x40000000 && cChar != 0 && cChar != '^' && cChar != '"' && -128 <= cChar <= 127
ensures \result == \null ==> nocq(lpCh, cChar, \off(lpCh), eos(lpCh))
ensures \result != \null ==> within(\result, lpCh) && *\result == cChar && !escp(lpCh, \result) && !inqp(lpCh, \result) && nocq(lpCh, cChar, \off(lpCh), \off(\result))
loop 1
 invariant within(lpCh, \old(lpCh)) && bnd(\old(lpCh), lpCh) && !inqp(\old(lpCh), lpCh)
 invariant nocq(\old(lpCh), cChar, \off(\old(lpCh)), \off(lpCh))
 invariant lpNextQuote == \null ==> noc(\old(lpCh), '"', \off(lpCh), eos(\old(lpCh)))
 invariant lpNextQuote != \null ==> within(lpNextQuote, \old(lpCh)) && \off(lpCh) <= \off(lpNextQuote) && *lpNextQuote == '"' && !escp(\old(lpCh), lpNextQuote) && noc(\old(lpCh), '"', \off(lpCh), \off(lpNextQuote))
 variant eos(\old(lpCh)) - \off(lpCh)
loop 2
 invariant i == 0 || i == 1
 invariant lpNextQuote != \null ==> within(lpNextQuote, \old(lpCh)) && \off(lpCh) <= \off(lpNextQuote) && *lpNextQuote == '"' && !escp(\old(lpCh), lpNextQuote)
 invariant lpNextQuote != \null ==> (inqp(\old(lpCh), lpNextQuote) <==> i == 0)
 invariant (lpNextQuote == \null || \off(lpNextQuote) > \off(lpNxt)) ==> (inqp(\old(lpCh), lpNxt) <==> i == 0)
 invariant lpNextQuote == \null ==> noc(\old(lpCh), '"', \off(lpNxt), eos(\old(lpCh)))
 invariant lpNextQuote != \null ==> noc(\old(lpCh), '"', \off(lpNxt), \off(lpNextQuote))
 hint inq(\bytes(\old(lpCh)), \off(\old(lpCh)), \off(\prev(lpNextQuote))+1) <==> !inq(\bytes(\old(lpCh)), \off(\old(lpCh)), \off(\prev(lpNextQuote)))
 hint lpNextQuote == \null || \off(lpNextQuote) > \off(lpNxt) ==> (inqp(\old(lpCh), lpNxt) <==> inq(\bytes(\old(lpCh)), \off(\old(lpCh)), \off(\prev(lpNextQuote))+1))
 hint lpNextQuote != \null ==> (inqp(\old(lpCh), lpNextQuote) <==> inq(\bytes(\old(lpCh)), \off(\old(lpCh)), \off(\prev(lpNextQuote))+1))
 variant lpNextQuote == \null ? 0 : eos(\old(lpCh)) + 1 - \off(lpNextQuote)
loop 3
 invariant 1 <= j && j <= \off(lpNxt) - \off(lpCh) + 1 && (ok == 0 || ok == 1)
 invariant (ok == 1) <==> (escp(\old(lpCh), lpNxt) == escp(\old(lpCh), lpNxt - j + 1))
 variant \off(lpNxt) - \off(lpCh) + 1 - j

fn pBat_SearchToken_OutQuotes
requires \str(lpCh) && \len(lpCh) < 0x40000000 && goodqset(lpDelims)
ensures \result == \null ==> notq(lpCh, lpDelims, \off(lpCh), eos(lpCh))
ensures \result != \null ==> within(\result, lpCh) && *\result != 0 && inset(lpDelims, *\result) && !escp(lpCh, \result) && !inqp(lpCh, \result) && notq(lpCh, lpDelims, \off(lpCh), \off(\result))
loop 1
 invariant within(lpCh, \old(lpCh)) && bnd(\old(lpCh), lpCh) && !inqp(\old(lpCh), lpCh)
 invariant notq(\old(lpCh), lpDelims, \off(\old(lpCh)), \off(lpCh))
 invariant lpNextQuote == \null ==> noc(\old(lpCh), '"', \off(lpCh), eos(\old(lpCh)))
 invariant lpNextQuote != \null ==> within(lpNextQuote, \old(lpCh)) && \off(lpCh) <= \off(lpNextQuote) && *lpNextQuote == '"' && !escp(\old(lpCh), lpNextQuote) && noc(\old(lpCh), '"', \off(lpCh), \off(lpNextQuote))
 variant eos(\old(lpCh)) - \off(lpCh)
loop 2
 invariant i == 0 || i == 1
 invariant lpNextQuote != \null ==> within(lpNextQuote, \old(lpCh)) && \off(lpCh) <= \off(lpNextQuote) && *lpNextQuote == '"' && !escp(\old(lpCh), lpNextQuote)
 invariant lpNextQuote != \null ==> (inqp(\old(lpCh), lpNextQuote) <==> i == 0)
 invariant (lpNextQuote == \null || \off(lpNextQuote) > \off(lpNxt)) ==> (inqp(\old(lpCh), lpNxt) <==> i == 0)
 invariant lpNextQuote == \null ==> noc(\old(lpCh), '"', \off(lpNxt), eos(\old(lpCh)))
 invariant lpNextQuote != \null ==> noc(\old(lpCh), '"', \off(lpNxt), \off(lpNextQuote))
 hint inq(\bytes(\old(lpCh)), \off(\old(lpCh)), \off(\prev(lpNextQuote))+1) <==> !inq(\bytes(\old(lpCh)), \off(\old(lpCh)), \off(\prev(lpNextQuote)))
 hint lpNextQuote == \null || \off(lpNextQuote) > \off(lpNxt) ==> (inqp(\old(lpCh), lpNxt) <==> inq(\bytes(\old(lpCh)), \off(\old(lpCh)), \off(\prev(lpNextQuote))+1))
 hint lpNextQuote != \null ==> (inqp(\old(lpCh), lpNextQuote) <==> inq(\bytes(\old(lpCh)), \off(\old(lpCh)), \off(\prev(lpNextQuote))+1))
 variant lpNextQuote == \null ? 0 : eos(\old(lpCh)) + 1 - \off(lpNextQuote)
loop 3
 invariant 1 <= j && j <= \off(lpNxt) - \off(lpCh) + 1 && (ok == 0 || ok == 1)
 invariant (ok == 1) <==> (escp(\old(lpCh), lpNxt) == escp(\old(lpCh), lpNxt - j + 1))
 variant \off(lpNxt) - \off(lpCh) + 1 - j

fn pBat_SearchToken_Hybrid
requires \str(pch) && \len(pch) < 0x40000000 && goodset(delims) && goodqset(qdelims)
ensures \result == \null ==> not(pch, delims, \off(pch), eos(pch)) && notq(pch, qdelims, \off(pch), eos(pch))
ensures \result != \null ==> within(\result, pch) && *\result != 0 && !escp(pch, \result) && (inset(delims, *\result) || (inset(qdelims, *\result) && !inqp(pch, \result)))
ensures \result != \null ==> not(pch, delims, \off(pch), \off(\result)) && notq(pch, qdelims, \off(pch), \off(\result))

fn pBat_StripEndDelims
requires \str(str)
assigns range(str, 0, \len(str))
ensures \str(str) && \len(str) <= \old(\len(str))
ensures \forall int j; 0 <= j < \len(str) ==> str[j] == \old(str[j])
ensures \len(str) > 0 ==> !delim(str[\len(str)-1])
ensures \forall int j; \len(str) <= j < \old(\len(str)) ==> delim(\old(str[j]))
loop 1
 invariant within(str, \old(str))
 invariant last == \null || (\obj(last) == \obj(\old(str)) && \off(\old(str)) <= \off(last) < \off(str) && *last != 0)
 invariant last == \null ==> (\off(str) == \off(\old(str)) || !delim(\bytes(str)[\off(str)-1]))
 invariant last != \null ==> (\off(last) == \off(\old(str)) || !delim(\bytes(str)[\off(last)-1]))
 invariant last != \null ==> (\forall int j; \off(last) <= j < \off(str) ==> delim(\bytes(str)[j]))
 variant eos(\old(str)) - \off(str)

fn pBat_UnEscape
requires \str(lpCh) && \len(lpCh) < 0x40000000
assigns range(lpCh, 0, \len(lpCh)+1)
before memmove: (*ch == 0 || next == \null) ==> keptn(\old(\bytes(lpCh)), \off(lpCh), \old(eos(lpCh))) == keptn(\old(\bytes(lpCh)), \off(lpCh), \off(ch)) + \old(eos(lpCh)) - \off(ch)
before memmove: \forall int j; { keptn(\old(\bytes(lpCh)), \off(lpCh), j) } \off(ch) <= j && j < ((*ch == 0 || next == \null) ? \old(eos(lpCh)) : \off(next)) ==> keptn(\old(\bytes(lpCh)), \off(lpCh), j) == keptn(\old(\bytes(lpCh)), \off(lpCh), \off(ch)) + j - \off(ch)
hint keptn(\old(\bytes(lpCh)), \off(lpCh), \off(lpCh)) == 0 && 0 <= keptn(\old(\bytes(lpCh)), \off(lpCh), \old(eos(lpCh)))
hint \forall int k; { \bytes(lpCh)[k] } \off(lpCh) <= k < \off(lpCh) + keptn(\old(\bytes(lpCh)), \off(lpCh), \old(eos(lpCh))) ==> \bytes(lpCh)[k] != 0
hint \bytes(lpCh)[\off(lpCh) + keptn(\old(\bytes(lpCh)), \off(lpCh), \old(eos(lpCh)))] == 0
ensures \str(lpCh) && \len(lpCh) == keptn(\old(\bytes(lpCh)), \off(lpCh), \old(eos(lpCh)))
ensures \forall int j; { kept(\old(\bytes(lpCh)), \off(lpCh), j) } \off(lpCh) <= j < \old(eos(lpCh)) && kept(\old(\bytes(lpCh)), \off(lpCh), j) ==> \bytes(lpCh)[\off(lpCh) + keptn(\old(\bytes(lpCh)), \off(lpCh), j)] == \old(\bytes(lpCh))[j]
loop 1
 assigns range(lpCh, 0, \old(\len(lpCh))+1)
 invariant \obj(un) == \obj(lpCh) && \obj(ch) == \obj(lpCh) && \off(un) < \off(ch) && \off(ch) <= \old(eos(lpCh))
 invariant keptn(\old(\bytes(lpCh)), \off(lpCh), \off(lpCh)) == 0 && keptn(\old(\bytes(lpCh)), \off(lpCh), \off(ch)) == keptn(\old(\bytes(lpCh)), \off(lpCh), \off(ch)-1)
 hint keptn(\old(\bytes(lpCh)), \off(lpCh), \off(ch)-1) == keptn(\old(\bytes(lpCh)), \off(lpCh), \off(\prev(ch))) + \off(ch) - 1 - \off(\prev(ch))
 invariant \off(un) == \off(lpCh) + keptn(\old(\bytes(lpCh)), \off(lpCh), \off(ch))
 invariant \forall int k; { \bytes(lpCh)[k] } \off(lpCh) <= k < \off(un) ==> \bytes(lpCh)[k] != 0
 invariant esc(\old(\bytes(lpCh)), \off(lpCh), \off(ch))
 invariant \forall int j; \off(ch) <= j <= \old(eos(lpCh)) ==> \bytes(lpCh)[j] == \old(\bytes(lpCh))[j]
 invariant \forall int j; { kept(\old(\bytes(lpCh)), \off(lpCh), j) } \off(lpCh) <= j < \off(ch) && kept(\old(\bytes(lpCh)), \off(lpCh), j) ==> \bytes(lpCh)[\off(lpCh) + keptn(\old(\bytes(lpCh)), \off(lpCh), j)] == \old(\bytes(lpCh))[j]
 variant \old(eos(lpCh)) - \off(ch)
