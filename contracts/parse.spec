use block.spec
use estr.spec
include cache.spec
source pbat/core/pBat_Parse.c
pred LN(PARSED_LINE* l) = \valid(l) && \obj(l) > 0 && \off(l) == 0 && ES(l->lpCmdLine) && \obj(l) != \obj(l->lpCmdLine) && \obj(l) != \obj(l->lpCmdLine->str)
pred PS(PARSED_STREAM* s) = \valid(s) && \obj(s) > 0 && \off(s) == 0

fn pBat_AllocParsedLine
requires !\oom
requires lppsStream == \null || \valid(lppsStream)
assigns lppsStream
ensures \result == \null ==> \oom
ensures \result != \null ==> \fresh(\result) && \fresh(\result->lpCmdLine) && \fresh(\result->lpCmdLine->str) && LN(\result) && \result->sStream == \null && \result->lppsNode == \null && \len(\result->lpCmdLine->str) == 0
ensures lppsStream != \null && \result != \null ==> lppsStream->lppsNode == \result && lppsStream->lpCmdLine == \old(lppsStream->lpCmdLine) && lppsStream->cNodeType == \old(lppsStream->cNodeType)

fn pBat_AllocParsedStream
ensures \result == \null ==> \oom
ensures \result != \null ==> \fresh(\result) && PS(\result) && \result->lpInputFile == \null && \result->lpOutputFile == \null && \result->lpErrorFile == \null && \result->cRedir == 0 && \result->cOutputMode == 0 && \result->cErrorMode == 0

extern void pBat_FreeParsedLine(PARSED_LINE* l)
requires l == \null || \valid(l)

pred sepl(PARSED_LINE* a, PARSED_LINE* b) = \obj(a) != \obj(b) && \obj(a) != \obj(b->lpCmdLine) && \obj(a) != \obj(b->lpCmdLine->str) && \obj(a->lpCmdLine) != \obj(b) && \obj(a->lpCmdLine) != \obj(b->lpCmdLine) && \obj(a->lpCmdLine) != \obj(b->lpCmdLine->str) && \obj(a->lpCmdLine->str) != \obj(b) && \obj(a->lpCmdLine->str) != \obj(b->lpCmdLine) && \obj(a->lpCmdLine->str) != \obj(b->lpCmdLine->str)
fn pBat_ParseOperators
option merge
option mergemem
requires ES(lpesLine) && \len(lpesLine->str) < 0x10000000 && !\oom
assigns lpesLine->str
before pBat_EsCpy: cChar == '&' || cChar == '|' || lpNextToken == \null
ensures \result == \null || LN(\result)
loop 1
 assigns lpesLine->str, lppsStream, lppsStream->lpCmdLine, lppsStream->lpCmdLine->str
 frees lppsStream->lpCmdLine->str
 invariant LN(lppsStream) && LN(lppsStreamBegin)
 invariant lppsStream == lppsStreamBegin || sepl(lppsStream, lppsStreamBegin)
 invariant lppsStream == \entry(lppsStream) || \newin(lppsStream)
 invariant lppsStream->lpCmdLine == \entry(lppsStream->lpCmdLine) || \newin(lppsStream->lpCmdLine)
 invariant lppsStream->lpCmdLine->str == \entry(lppsStream->lpCmdLine->str) || \newin(lppsStream->lpCmdLine->str)
 invariant \fresh(lppsStream) && \fresh(lppsStream->lpCmdLine) && \fresh(lppsStream->lpCmdLine->str)
 invariant \obj(lpCh) == \obj(lpesLine->str) && \obj(lpSearchBegin) == \obj(lpCh) && 0 <= \off(lpCh) && \off(lpCh) <= \off(lpSearchBegin)
 invariant \str(lpCh) && \off(lpCh) + \len(lpCh) == \old(\len(lpesLine->str))
 invariant \str(lpSearchBegin) && \off(lpSearchBegin) + \len(lpSearchBegin) == \old(\len(lpesLine->str))
 invariant lpNextBlock != \null ==> \obj(lpNextBlock) == \obj(lpCh) && \off(lpSearchBegin) <= \off(lpNextBlock) && \off(lpNextBlock) <= \old(\len(lpesLine->str)) && *lpNextBlock == '('
 variant \old(\len(lpesLine->str)) - \off(lpSearchBegin)

// a file name the structure owns
pred own(char* f) = f == \null || (\str(f) && \off(f) == 0 && \obj(f) > 0)
pred PSO(PARSED_STREAM* s) = PS(s) && own(s->lpInputFile) && own(s->lpOutputFile) && own(s->lpErrorFile) && (s->lpInputFile == \null || (\obj(s) != \obj(s->lpInputFile) && \obj(s->lpInputFile) != \obj(s->lpOutputFile) && \obj(s->lpInputFile) != \obj(s->lpErrorFile))) && (s->lpOutputFile == \null || (\obj(s) != \obj(s->lpOutputFile) && \obj(s->lpOutputFile) != \obj(s->lpErrorFile))) && (s->lpErrorFile == \null || \obj(s) != \obj(s->lpErrorFile))
fn pBat_FreeParsedStream
requires stream == \null || PSO(stream)
frees stream, (stream == \null ? \null : stream->lpInputFile), (stream == \null ? \null : stream->lpOutputFile), (stream == \null ? \null : stream->lpErrorFile)
ensures stream != \null ==> !\alive(stream)
ensures stream != \null && \old(stream->lpInputFile) != \null ==> !\alive(\old(stream->lpInputFile))
ensures stream != \null && \old(stream->lpOutputFile) != \null ==> !\alive(\old(stream->lpOutputFile))
ensures stream != \null && \old(stream->lpErrorFile) != \null ==> !\alive(\old(stream->lpErrorFile))

// both have the name, with the same text
pred samename(char* a, char* b) = (a == \null) == (b == \null) && (a != \null ==> \len(a) == \len(b) && (\forall int k; 0 <= k < \len(b) ==> a[k] == b[k]))
fn pBat_DuplicateParsedStream
requires PSO(stream)
ensures \result == \null ==> \oom
ensures \result != \null ==> \fresh(\result) && PSO(\result) && \result->cErrorMode == stream->cErrorMode && \result->cRedir == stream->cRedir && \result->cOutputMode == stream->cOutputMode
ensures \result != \null ==> samename(\result->lpErrorFile, stream->lpErrorFile) && samename(\result->lpOutputFile, stream->lpOutputFile) && samename(\result->lpInputFile, stream->lpInputFile)
