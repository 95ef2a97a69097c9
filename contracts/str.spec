include libc.spec
// ---- shared vocabulary: escapes and quotes (absolute positions in bytes a, text starting at o)
// position i is escaped: preceded by an odd run of '^'
logic bool esc(bytes a, int o, int i) = i > o && a[i-1] == '^' && !esc(a, o, i-1)
// i lies inside double quotes: odd number of unescaped quotes before it
logic bool inq(bytes a, int o, int i) = i > o && ((a[i-1] == '"' && !esc(a, o, i-1)) ? !inq(a, o, i-1) : inq(a, o, i-1))
// number of characters kept by unescaping [o,i): every '^' that is not itself escaped is dropped
logic int keptn(bytes a, int o, int i) = i <= o ? 0 : keptn(a, o, i-1) + ((a[i-1] == '^' && !esc(a, o, i-1)) ? 0 : 1)
logic bool kept(bytes a, int o, int i) = !(a[i] == '^' && !esc(a, o, i))
lemma esc_shift induct i from p: \forall bytes a, int o, int p, int i; { esc(a, p, i), esc(a, o, i) } o <= p && (p == o || a[p-1] != '^') && i >= p ==> esc(a, p, i) == esc(a, o, i)
lemma inq_const induct i from p: \forall bytes a, int o, int p, int i; { inq(a, o, p), inq(a, o, i) } o <= p && i >= p && (\forall int j; p <= j < i ==> !(a[j] == '"' && !esc(a, o, j))) ==> inq(a, o, i) == inq(a, o, p)
lemma keptn_bound induct i from o: \forall bytes a, int o, int i; { keptn(a, o, i) } i >= o ==> 0 <= keptn(a, o, i) && keptn(a, o, i) <= i - o
lemma keptn_lt induct i from p: \forall bytes a, int o, int p, int i; { keptn(a, o, i), keptn(a, o, p) } o <= p && i > p && kept(a, o, p) ==> keptn(a, o, p) < keptn(a, o, i)
lemma keptn_run induct i from p: \forall bytes a, int o, int p, int i; { keptn(a, o, i), keptn(a, o, p) } o <= p && i >= p && (\forall int j; p <= j < i ==> kept(a, o, j)) ==> keptn(a, o, i) == keptn(a, o, p) + i - p
pred delim(int c) = c == ' ' || c == 9 || c == ',' || c == ';' || c == 10
// p points into the text s (NUL included)
pred within(char* p, char* s) = \obj(p) == \obj(s) && \off(s) <= \off(p) && \off(p) <= \off(s) + \len(s)
pred escp(char* s, char* p) = esc(\bytes(s), \off(s), \off(p))
pred bnd(char* s, char* p) = \off(p) == \off(s) || \bytes(s)[\off(p)-1] != '^'
// nothing wanted in [lo,hi)
pred noc(char* s, int c, int lo, int hi) = \forall int j; lo <= j < hi && \bytes(s)[j] == c ==> esc(\bytes(s), \off(s), j)
pred not(char* s, char* d, int lo, int hi) = \forall int j; lo <= j < hi && inset(d, \bytes(s)[j]) ==> esc(\bytes(s), \off(s), j)
pred nocq(char* s, int c, int lo, int hi) = \forall int j; lo <= j < hi && \bytes(s)[j] == c ==> (esc(\bytes(s), \off(s), j) || inq(\bytes(s), \off(s), j))
pred notq(char* s, char* d, int lo, int hi) = \forall int j; lo <= j < hi && inset(d, \bytes(s)[j]) ==> (esc(\bytes(s), \off(s), j) || inq(\bytes(s), \off(s), j))
pred goodset(char* d) = \str(d) && !inset(d, '^')
pred goodqset(char* d) = \str(d) && !inset(d, '^') && !inset(d, '"')
pred eos(char* s) = \off(s) + \len(s)
