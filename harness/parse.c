#include "full.h"
/* splitting a line into commands and redirections */
static ESTR *E, *R;
typedef struct { char cmd[600]; int type; } SEG;
static SEG sg[300]; static int ns;
/* operators: outside quotes, not escaped, not the & of >& ; -1 left unspecified */
static int m_ops(const char *t)
{
    int i, k = 0, q = 0, type = PARSED_STREAM_NODE_NONE; ns = 0;
    for (i = 0; ; i++) {
        char c = t[i];
        if (!c) break;
        if (c == '^') { sg[ns].cmd[k++] = c; if (t[i + 1]) { if (t[i + 1] == '>' && t[i + 2] == '&') return -1; sg[ns].cmd[k++] = t[++i]; } continue; }
        if (c == '"') { q = !q; if (!q || 1) sg[ns].cmd[k++] = c; continue; }
        if (!q && c == '&' && k && sg[ns].cmd[k - 1] == '>') { sg[ns].cmd[k++] = c; continue; }
        if (!q && (c == '&' || c == '|')) {
            sg[ns].cmd[k] = 0; sg[ns].type = type; ns++; k = 0;
            if (t[i + 1] == c) { i++; type = c == '&' ? PARSED_STREAM_NODE_YES : PARSED_STREAM_NODE_NOT; }
            else type = c == '&' ? PARSED_STREAM_NODE_NONE : PARSED_STREAM_NODE_PIPE;
            continue;
        }
        sg[ns].cmd[k++] = c;
    }
    if (q) {    /* an unclosed quote protects nothing is left unspecified when an operator follows it */
        int p; for (p = strlen(t) - 1; p >= 0 && t[p] != '"'; p--); if (strpbrk(t + p, "&|<>12")) return -1;
    }
    sg[ns].cmd[k] = 0; sg[ns].type = type; ns++;
    return 0;
}
typedef struct { char txt[700], in[600], out[600], err[600]; int om, em, redir, hin, hout, herr; } RED;
/* 0 ok, 1 error, -1 unspecified */
static int m_red(const char *s, RED *r)
{
    int i = 0, k = 0, n = strlen(s), q = 0; memset(r, 0, sizeof *r);
    while (i < n) {
        char c = s[i]; int d = 0; char *x, *full; 
        if (c == '^') { r->txt[k++] = c; i++; if (i < n) r->txt[k++] = s[i++]; continue; }
        if (c == '"') { q = !q; r->txt[k++] = c; i++; continue; }
        if (q || !strchr("12<>", c)) { r->txt[k++] = c; i++; continue; }
        if (c == '1' || c == '2') { if (s[i + 1] != '>') { r->txt[k++] = c; i++; continue; } d = c - '0'; i++; }
        if (s[i] == '>' && s[i + 1] == '&') {
            if ((d == 2 && s[i + 2] == '1') || (d == 1 && s[i + 2] == '2')) { if (r->redir) return 1; r->redir = d == 2 ? PARSED_STREAM_STDERR2STDOUT : PARSED_STREAM_STDOUT2STDERR; i += 3; continue; }
            return -1;
        }
        if (s[i] == '<') { if (r->hin) return 1; i++; }
        else {
            i++; if (d == 2 ? r->herr : r->hout) return 1;
            if (s[i] == '>') i++; else if (d == 2) r->em = PARSED_STREAM_MODE_TRUNCATE; else r->om = PARSED_STREAM_MODE_TRUNCATE;
        }
        { int j; for (j = i; strchr(" \t;,", s[j]) && s[j]; j++); if (!s[j]) return 1; if (strchr("<>&|)", s[j])) return -1; }
        { char *cp = h_dup(s + i); x = pBat_GetNextParameterEsD(cp, R, PBAT_DELIMITERS "&|><)"); if (!x) { free(cp); return -1; } i += x - cp; free(cp); }
        full = pBat_FullPathDup(R->str);
        strncpy(c == '<' ? r->in : d == 2 ? r->err : r->out, full, 599); free(full);
        if (c == '<') r->hin = 1; else if (d == 2) r->herr = 1; else r->hout = 1;
        if (s[i] == '^') return -1;
    }
    r->txt[k] = 0; return 0;
}
static int nameq(const char *a, int has, const char *b) { return !a == !has && (!a || !strcmp(a, b)); }
static void check(const char *t)
{
    PARSED_LINE *l, *d, *p, *p2; int i, e = 0, err = -1; static RED r[300];
    if (m_ops(t) < 0) return;
    for (i = 0; i < ns; i++) { e = m_red(sg[i].cmd, &r[i]); if (e) { err = e < 0 ? -2 : i; break; } }
    if (err == -2) return;
    h_begin("line |%s|", h_q(t));
    pBat_EsCpy(E, t); f_nerr = 0;
    l = pBat_ParseLine(E);
    if (err >= 0) { if (l) { h_fail("parse-error", "an impossible redirection is accepted"); pBat_FreeParsedLine(l); } else if (!f_nerr) h_fail("parse-error", "no message for an impossible redirection"); return; }
    if (!l) { h_fail("parse-reject", "the line is rejected (error %d)", f_err); return; }
    d = pBat_DuplicateParsedLine(l);
    for (p = l, p2 = d, i = 0; i < ns; i++, p = p->lppsNode, p2 = p2 ? p2->lppsNode : 0) {
        PARSED_STREAM *s;
        if (!p) { h_fail("parse-ops", "%d commands instead of %d", i, ns); break; }
        if (p->cNodeType != sg[i].type) { h_fail("parse-ops", "operator %d before command %d instead of %d", p->cNodeType, i, sg[i].type); break; }
        if (strcmp(p->lpCmdLine->str, r[i].txt)) { h_fail("parse-text", "command %d is |%s| instead of |%s|", i, h_q(p->lpCmdLine->str), h_q(r[i].txt)); break; }
        s = p->sStream;
        if (!nameq(s->lpInputFile, r[i].hin, r[i].in) || !nameq(s->lpOutputFile, r[i].hout, r[i].out) || !nameq(s->lpErrorFile, r[i].herr, r[i].err)) { h_fail("parse-file", "command %d: files |%s| |%s| |%s| instead of |%s| |%s| |%s|", i, h_q(s->lpInputFile), h_q(s->lpOutputFile), h_q(s->lpErrorFile), h_q(r[i].hin ? r[i].in : 0), h_q(r[i].hout ? r[i].out : 0), h_q(r[i].herr ? r[i].err : 0)); break; }
        if ((r[i].hout && s->cOutputMode != r[i].om) || (r[i].herr && s->cErrorMode != r[i].em) || s->cRedir != r[i].redir) { h_fail("parse-mode", "command %d: modes %d %d %d instead of %d %d %d", i, s->cOutputMode, s->cErrorMode, s->cRedir, r[i].om, r[i].em, r[i].redir); break; }
        if (!p2 || strcmp(p2->lpCmdLine->str, p->lpCmdLine->str) || p2->cNodeType != p->cNodeType || !p2->sStream || p2->lpCmdLine == p->lpCmdLine || p2->sStream == s
            || p2->sStream->cRedir != s->cRedir || p2->sStream->cOutputMode != s->cOutputMode || p2->sStream->cErrorMode != s->cErrorMode
            || !nameq(p2->sStream->lpInputFile, !!s->lpInputFile, s->lpInputFile) || !nameq(p2->sStream->lpOutputFile, !!s->lpOutputFile, s->lpOutputFile) || !nameq(p2->sStream->lpErrorFile, !!s->lpErrorFile, s->lpErrorFile)) { h_fail("parse-copy", "the copy of command %d differs", i); break; }
    }
    if (i == ns && p) h_fail("parse-ops", "more than %d commands", ns);
    if (i == ns && p2) h_fail("parse-copy", "the copy has more than %d commands", ns);
    pBat_FreeParsedLine(l); pBat_FreeParsedLine(d);
}
int main(void)
{
    char s[700]; int i, j;
    f_init(); E = pBat_EsInit(); R = pBat_EsInit(); strcpy(lpCurrentDir, "/tmp");
    *s = 0; do check(s); while (h_next(s, "a&|^\" >", h_thorough ? 7 : 6));
    *s = 0; do check(s); while (h_next(s, "12<>&a ", h_thorough ? 7 : 6));
    *s = 0; do check(s); while (h_next(s, "1>\"^&a2", h_thorough ? 7 : 6));
    *s = 0; do check(s); while (h_next(s, "2>&1 |\"^a", 5));
    for (i = 0; i < (h_thorough ? 200000 : 20000); i++) {
        static const char *P[] = {"echo a","&","&&","|","||","2>&1","1>&2",">f",">>g.txt","2>e","2>>e e","<in","\"a & b\"","^&","^>"," ","1","2","12","x=","\"1>&2\""," >\"a b\"","1>o","set v1=2","^^","> /tmp/f1"};
        *s = 0; for (j = 1 + h_rn(12); j > 0 && strlen(s) < 300; j--) strcat(s, P[h_rn(sizeof P / sizeof *P)]);
        check(s);
    }
    for (i = 0; i < 300; i++) {     /* long lines around the steps of the buffers */
        int n = 250 + h_rn(20) + (h_rn(2) ? 256 : 0); memset(s, 'a', n); s[n] = 0;
        strcat(s, h_rn(2) ? "&&b >c" : ">c||b");
        if (h_rn(2)) s[h_rn(n)] = '&'; check(s);
    }
    return h_end();
}
