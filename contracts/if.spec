include common.spec
use string.spec
source pbat/command/pBat_If.c
// what the C library makes of a text (assumed: a function of the text only)
logic int ci(char* a, char* b)
logic int cs(char* a, char* b)
logic int slend(char* s)
logic int slv(char* s)
logic bool slrange(char* s)
logic int sdend(char* s)
logic double sdv(char* s)
extern int strcasecmp(char* a, char* b)
requires \str(a) && \str(b)
ensures \result == ci(a, b)
extern int strcmp(char* a, char* b)
requires \str(a) && \str(b)
ensures \result == cs(a, b)
extern long strtol(char* s, char** e, int base)
requires \str(s) && \valid(e) && base == 0 && \obj(e) != \obj(s)
assigns e, &errno
ensures 0 <= slend(s) <= \len(s) && *e == s + slend(s) && \result == slv(s)
ensures errno == (slrange(s) ? 34 : \old(errno))
extern double strtod(char* s, char** e)
requires \str(s) && \valid(e) && \obj(e) != \obj(s)
assigns e, &errno
ensures 0 <= sdend(s) <= \len(s) && *e == s + sdend(s) && \result == sdv(s)

pred blankfrom(char* s, int k) = \forall int j; \off(s) + k <= j < eos(s) ==> delim(\bytes(s)[j])
// an integer in the notation of C that fits, else any other number; nothing but blanks around it
pred digit(int c) = '0' <= c <= '9' || c == '.'
pred isint(char* s) = slend(s) != 0 && blankfrom(s, slend(s)) && !slrange(s)
pred isdbl(char* s) = sdend(s) != 0 && blankfrom(s, sdend(s))
// after blanks and a sign, a digit or a point
pred lead(char* s) = \exists int i; \off(s) <= i <= eos(s) && (\forall int j; \off(s) <= j < i ==> delim(\bytes(s)[j])) && !delim(\bytes(s)[i]) && (((\bytes(s)[i] == '+' || \bytes(s)[i] == '-') && digit(\bytes(s)[i+1])) || digit(\bytes(s)[i]))
pred nolead(char* s) = \forall int i; \off(s) <= i <= eos(s) && (\forall int j; \off(s) <= j < i ==> delim(\bytes(s)[j])) && !delim(\bytes(s)[i]) ==> !digit(\bytes(s)[i]) && ((\bytes(s)[i] == '+' || \bytes(s)[i] == '-') ==> !digit(\bytes(s)[i+1]))
pred number(char* s) = lead(s) && (isint(s) || isdbl(s))

fn pBat_GetCmpValue
requires \str(number) && \valid(value, 8) && \obj(value) != \obj(number) && \obj(number) > 0 && \obj(value) > 0
assigns value, &errno
ensures \result == 0 || \result == 0 - 1
ensures \result == 0 ==> lead(number) && (isint(number) ? *value == \i2d(slv(number)) : isdbl(number) && *value == sdv(number))
ensures \result != 0 ==> nolead(number) || (!isint(number) && !isdbl(number))
loop 1
 unroll 3

pred bothnum(char* a, char* b) = number(a) && number(b)
// number of the comparison: 1 EQU ==, 2 NEQ, 3 GEQ, 4 GTR, 5 LEQ, 6 LSS, 0 none of them
pred opno(char* c) = (ci(c, "EQU") == 0 || ci(c, "==") == 0) ? 1 : (ci(c, "NEQ") == 0 ? 2 : (ci(c, "GEQ") == 0 ? 3 : (ci(c, "GTR") == 0 ? 4 : (ci(c, "LEQ") == 0 ? 5 : (ci(c, "LSS") == 0 ? 6 : 0)))))
pred icmp(int o, int c) = o == 1 ? c == 0 : (o == 2 ? c != 0 : (o == 3 ? c >= 0 : (o == 4 ? c > 0 : (o == 5 ? c <= 0 : c < 0))))
pred isnum(char* s) = lead(s) && (isint(s) || isdbl(s))
pred notnum(char* s) = nolead(s) || (!isint(s) && !isdbl(s))
fn pBat_PerformExtendedTest
requires \str(lpCmp) && \str(lpParam1) && \str(lpParam2) && \obj(lpParam1) > 0 && \obj(lpParam2) > 0
assigns &errno
ensures opno(lpCmp) == 0 ==> \result == 0 - 1
ensures opno(lpCmp) != 0 ==> \result == 0 || \result == 1
// texts: ordered as strcmp or, ignoring case, as strcasecmp does
ensures opno(lpCmp) != 0 && (nolead(lpParam1) || nolead(lpParam2)) ==> (\result == 1 <==> icmp(opno(lpCmp), (iFlag % 2 != 0) ? ci(lpParam1, lpParam2) : cs(lpParam1, lpParam2)))
// integers
ensures opno(lpCmp) != 0 && lead(lpParam1) && isint(lpParam1) && lead(lpParam2) && isint(lpParam2) && 0 - 0x40000000 <= slv(lpParam1) <= 0x40000000 && 0 - 0x40000000 <= slv(lpParam2) <= 0x40000000 ==> (\result == 1 <==> icmp(opno(lpCmp), slv(lpParam1) - slv(lpParam2)))
