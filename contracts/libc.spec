// Assumed contracts of the C library (trusted; never verified here).
extern size_t strlen(char* s)
requires \str(s)
ensures \result == \len(s)

extern char* strcpy(char* d, char* s)
requires \str(s)
requires \valid(d, \len(s)+1)
requires \obj(d) != \obj(s) || d + \len(s) < s || s + \len(s) < d
assigns range(d, 0, \old(\len(s))+1)
option noalloc
ensures \result == d
ensures \forall int k; 0 <= k <= \old(\len(s)) ==> d[k] == \old(s[k])
ensures \len(d) == \old(\len(s))

extern char* strncpy(char* d, char* s, size_t n)
requires \valid(d, n)
requires \str(s) || (\valid(s, n) && n <= \len(s))
requires \obj(d) != \obj(s)
assigns range(d, 0, n)
option noalloc
ensures \result == d
ensures \forall int k; 0 <= k < n && k < \len(s) ==> d[k] == s[k]
ensures \forall int k; \len(s) <= k < n ==> d[k] == 0
ensures \len(s) < n ==> d[\len(s)] == 0

extern char* strcat(char* d, char* s)
requires \str(s)
requires \str(d)
requires \valid(d, \len(d)+\len(s)+1)
requires \obj(d) != \obj(s)
assigns range(d, \old(\len(d)), \old(\len(d))+\len(s)+1)
option noalloc
ensures \result == d
ensures \forall int k; 0 <= k <= \len(s) ==> d[\old(\len(d))+k] == s[k]
ensures \len(d) == \old(\len(d)) + \len(s)

extern char* strncat(char* d, char* s, size_t n)
requires \str(d)
requires \str(s) || (\valid(s, n) && n <= \len(s))
requires \valid(d, \len(d)+\min(\len(s), n)+1)
requires \obj(d) != \obj(s)
assigns range(d, \old(\len(d)), \old(\len(d))+\min(\len(s),n)+1)
option noalloc
ensures \result == d
ensures \forall int k; 0 <= k < \min(\len(s), n) ==> d[\old(\len(d))+k] == s[k]
ensures d[\old(\len(d)) + \min(\len(s), n)] == 0
ensures \len(d) == \old(\len(d)) + \min(\len(s), n)

extern char* strchr(char* s, int c)
requires \str(s)
ensures \result == \null ==> (c != 0 && (\forall int k; 0 <= k < \len(s) ==> s[k] != c))
ensures \result != \null ==> (\obj(\result) == \obj(s) && s <= \result && \result <= s + \len(s) && *\result == c && (\forall int k; 0 <= k < \off(\result) - \off(s) ==> s[k] != c))

extern char* strrchr(char* s, int c)
requires \str(s)
ensures \result == \null ==> (c != 0 && (\forall int k; 0 <= k < \len(s) ==> s[k] != c))
ensures \result != \null ==> (\obj(\result) == \obj(s) && s <= \result && \result <= s + \len(s) && *\result == c && (\forall int k; \off(\result) - \off(s) < k <= \len(s) ==> s[k] != c))

// occurrence of pattern p (length m) at s
logic bool occurs(char* s, char* p, int m) = \forall int k; 0 <= k < m ==> s[k] == p[k]
extern char* strstr(char* s, char* p)
requires \str(s) && \str(p)
ensures \result != \null ==> (\obj(\result) == \obj(s) && s <= \result && \result + \len(p) <= s + \len(s) && occurs(\result, p, \len(p)))
ensures \result != \null ==> (\forall int i; 0 <= i < \off(\result) - \off(s) ==> !occurs(s + i, p, \len(p)))
ensures \result == \null ==> (\forall int i; 0 <= i && i + \len(p) <= \len(s) ==> !occurs(s + i, p, \len(p)))

// character c belongs to the set d
logic bool inset(char* d, int c) = \exists int k; 0 <= k < \len(d) && d[k] == c
extern char* strpbrk(char* s, char* d)
requires \str(s) && \str(d)
ensures \result == \null ==> (\forall int k; 0 <= k < \len(s) ==> !inset(d, s[k]))
ensures \result != \null ==> (\obj(\result) == \obj(s) && s <= \result && \result < s + \len(s) && inset(d, *\result) && (\forall int k; 0 <= k < \off(\result) - \off(s) ==> !inset(d, s[k])))

// comparisons: memory safety and equality of prefixes only
extern int strncmp(char* a, char* b, size_t n)
requires (\str(a) || \valid(a, n)) && (\str(b) || \valid(b, n))
ensures (\result == 0) <==> (\forall int k; 0 <= k < n && k <= \len(a) && k <= \len(b) ==> a[k] == b[k])
