SEEDS = []
def B(**k): SEEDS.append(k)
ESTR = "libpbat/estr/pBat_Estr.c"
B(id="S01-exactfit", prop="S01", edits=[(ESTR, "int iLen= PBAT_ESTR_SIZE(strlen(ptrESTR->str) + strlen(ptrChaine) + 1);", "int iLen= PBAT_ESTR_SIZE(strlen(ptrESTR->str) + strlen(ptrChaine));")],
  needs="a text whose length becomes exactly the size of the buffer (a power of two) by appending", breaks="the terminating NUL is written one byte past the buffer",
  link=["libpbat/estr/pBat_Estr.c"], c=r'''
#include <stdio.h>
#include <string.h>
#include "libpBat.h"
int main(void) {
    int n, m; char b[5000];
    for (n = 1; n < 4500; n += 7) for (m = 1; m < 300 && n + m < 4900; m += 1) {
        ESTR *e = pBat_EsInit();
        memset(b, 'x', n); b[n] = 0; pBat_EsCpy(e, b);
        memset(b, 'y', m); b[m] = 0; pBat_EsCat(e, b);
        if (strlen(e->str) != n + m || e->len < n + m + 1) { printf("too small for %d\n", n + m); return 1; }
        pBat_EsFree(e);
    }
    return 0;
}
''')
B(id="S01-longline", prop="S01", edits=[(ESTR, "ptrCursor=ptrESTR->str+iCurrentL-1;", "ptrCursor=ptrESTR->str+iCurrentL;")],
  needs="a line longer than the initial buffer", breaks="the end of the line is stored behind the terminator and lost",
  script="@echo off\nset a=" + "0123456789" * 40 + "\necho %a%\n", expect="0123456789" * 40 + "\n")
B(id="S02-caretatstart", prop="S02", edits=[("libpbat/cmdlib/pBat_String.c", """    while ((lpNxt=strpbrk(lpCh, lpDelims))) {

        i = 1;
        ok = 1;

        while(lpNxt - i >= lpCh) {

            if (*(lpNxt - i) != '^')
                break;

            ok = !ok;
            i ++;

        }

        if (ok)
            break;
""", """    while ((lpNxt=strpbrk(lpCh, lpDelims))) {

        i = 1;
        ok = 1;

        while(lpNxt - i > lpCh) {

            if (*(lpNxt - i) != '^')
                break;

            ok = !ok;
            i ++;

        }

        if (ok)
            break;
""")],
  needs="a text that starts with a run of carets before a delimiter", breaks="the first caret of the run is not counted, so an escaped delimiter splits the text",
  script="@echo off\ncall :s ^;a b\ngoto end\n:s\necho 1 %1\necho 2 %2\ngoto eof\n:end\n:eof\n", expect="1 ;a\n2 b\n")
B(id="S02-quoteparity", prop="S02", edits=[("libpbat/cmdlib/pBat_String.c", """				lpCh=lpNextQuote+1;

				lpNextQuote=pBat_SearchChar(lpCh, '"');

				continue;

			}
		}


        /* if the we are at the beginnig, of the
           string, don't search anymore and return
           lpNext */

        j = 1;""", """				lpCh=lpNextQuote+1;

				lpNextQuote=strchr(lpCh, '"');

				continue;

			}
		}


        /* if the we are at the beginnig, of the
           string, don't search anymore and return
           lpNext */

        j = 1;""")],
  needs="a character between quotes, followed by an escaped quote and the character searched", breaks="an escaped quote after a quoted occurrence opens a quotation, so the next occurrence is missed",
  link=["libpbat/cmdlib/pBat_String.c"], c=r'''
#include <stdio.h>
#include "libpBat.h"
int main(void) {
    const char *s = "\"a;\" x^\" ;b"; char *r = pBat_SearchChar_OutQuotes(s, ';');
    printf("%d\n", r ? (int)(r - s) : -1);
    return r != s + 9;
}
''')
B(id="S03-unsorted", prop="S03", edits=[("pbat/core/pBat_Env.c", """        (*pRes)->name = NULL;
        (*pRes)->content = NULL;

        qsort(pEnv->envbuf, pEnv->index, sizeof(ENVVAR*), pBat_EnvCompName);
""", """        (*pRes)->name = NULL;
        (*pRes)->content = NULL;
""")],
  needs="unsetting a variable in the middle of the table, then looking up another one before any assignment", breaks="the table is no longer sorted, so that other variables are not found",
  script="@echo off\n" + "".join(f"set v{i}=x{i}\n" for i in range(100, 140)) + "".join(f"set v{i}=\n" for i in range(100, 140, 2)) + "".join(f"echo [%v{i}%]\n" for i in range(100, 140)),
  expect="".join(f"[x{i}]\n" if i & 1 else "[]\n" for i in range(100, 140)))
B(id="S04-quoteinside", prop="S04", edits=[("pbat/core/pBat_Var.c", "		if ((lpNext=strrchr(lpPos, *lpPos)))", "		if ((lpNext=strchr(lpPos + 1, *lpPos)))")],
  needs="a quoted value with another quote of the same kind inside", breaks="the value is cut at the inner quote",
  script="@echo off\nfor %%i in ('a'b') do echo %%~i\n", expect="a'b\n")
B(id="S04-freefirst", prop="S04", edits=[("pbat/core/pBat_Var.c", """	if (cVarContent) {

		if (!(lpvBlock[(int)cVarName]=strdup(cVarContent)))""", """	free(old);
	old = NULL;

	if (cVarContent) {

		if (!(lpvBlock[(int)cVarName]=strdup(cVarContent)))""")],
  needs="assigning a variable a part of its own value, as SHIFT does with the remaining arguments", breaks="the value is read after it was freed",
  pre="export MALLOC_PERTURB_=165\n",
  script="@echo off\ncall :s a b c d e f g h i jj kk ll mm nn\ngoto end\n:s\nshift\nshift\nshift\necho %9 %8 %7\nshift\necho %9\ngoto eof\n:end\n:eof\n", expect="ll kk jj\nmm\n")
B(id="S05-norestore", prop="S05", edits=[("pbat/core/pBat_Var.c", "	if (iVarState==2 && lpZeroPos != NULL) {", "	if (iVarState==2 && lpZeroPos != NULL && *lpVarContent) {")],
  needs="a substring of length zero inside a variable, then another use of the variable", breaks="the variable stays cut at the position of the empty substring",
  script="@echo off\nset v=abcdef\necho [%v:~2,-4%]\necho %v%\n", expect="[]\nabcdef\n")
B(id="S06-leftover", prop="S06", edits=[("pbat/core/pBat_Expand.c", """	*pBat_EsToChar(buf[0]) = '\\0';
	*pBat_EsToChar(buf[1]) = '\\0';
	""", """	if (*pBat_EsToChar(ptrCommandLine) == '\\0')
		*pBat_EsToChar(buf[0]) = '\\0';
	*pBat_EsToChar(buf[1]) = '\\0';
	""")],
  needs="delayed expansion of a text that contains a loop variable", breaks="the value of the loop variable is inserted a second time at the beginning",
  script="@echo off\nsetlocal enabledelayedexpansion\nset x=1\nfor %%i in (a b) do echo %%i!x!\nendlocal\n", expect="a1\nb1\n")
B(id="S07-emptyquoted", prop="S07", edits=[("pbat/core/pBat_Args.c", """			if (*(lpEnd-1)=='"') {

				iSize--;""", """			if (*(lpEnd-1)=='"' && iSize > 1) {

				iSize--;""")],
  needs="an empty quoted argument that is not the last one", breaks="the argument is a quote instead of empty",
  script="@echo off\ncall :s a \"\" b\ngoto end\n:s\necho [%1][%2][%3]\ngoto eof\n:end\n:eof\n", expect="[a][][b]\n")
B(id="S15-firstdot", prop="S15", edits=[("pbat/core/pBat_SplitPath.c", "if ((lpNextToken = pBat_SearchLastChar(lpToken, '.'))) {", "if ((lpNextToken = pBat_SearchChar(lpToken, '.'))) {")],
  needs="a name with two dots", breaks="the extension starts at the first dot of the name",
  script="@echo off\nfor %%i in (a.tar.gz) do echo %%~ni %%~xi\n", expect="a.tar .gz\n")
B(id="S08-crossmode", prop="S08", edits=[("pbat/core/pBat_Parse.c", "    ret->cErrorMode = stream->cErrorMode;", "    ret->cErrorMode = stream->cOutputMode;")],
  needs="a command in a pipe (or a loop) whose output is appended to one file while its error output goes to another with 2>", breaks="the error file is not emptied because a copy of the line has the wrong mode",
  script="@echo off\necho old>err.txt\nfor %%i in (1) do echo a>>out.txt 2>err.txt\nset v=none\nset /p v=<err.txt\nif \"%v%\"==\"old\" (echo bad) else echo good\n", expect="good\n")
B(id="S08-gluedinput", prop="S08", edits=[("pbat/core/pBat_Parse.c", """			if (!(lpCh=pBat_GetNextParameterEsD(lpNextToken, lpesParam,
                                                 PBAT_DELIMITERS "&|><)"))) {""", """			if (!(lpCh=pBat_GetNextParameterEsD(lpNextToken, lpesParam,
                                                 PBAT_DELIMITERS "&|<)"))) {""")],
  needs="an input redirection followed by an output redirection without a blank", breaks="the second redirection becomes part of the name of the input file",
  script="@echo off\necho abc>in.txt\nset /p v=<in.txt>out.txt\necho [%v%]\n", expect="[abc]\n")
B(id="S09-substlate", prop="S09", edits=[("pbat/core/pBat_Stream.c", """        PBAT_DUP_STD(newfd, _fOutput);
        fOutput = _fOutput;
        close(newfd);
""", """        PBAT_DUP_STD(newfd, _fOutput);
        fOutput = _fOutput;
        item->subst = PBAT_GET_SUBST();
        close(newfd);
""")],
  needs="a command with > inside of a block whose output goes to the error output", breaks="the rest of the block writes to the output instead of the error output",
  script="@echo off\n(\necho a>f.txt\necho b\n) 1>&2 2>e.txt\nset v=none\nset /p v=<e.txt\n( ( echo x>g.txt\n echo y ) 1>&2 ) 2>h.txt\nset w=none\nset /p w=<h.txt\necho %w%\n", expect="y \n")
B(id="S09-skippipe", prop="S09", edits=[("pbat/core/pBat_Run.c", """	case PARSED_STREAM_NODE_PIPE:
        status |= EXECOPERATORS_SKIP;
""", """	case PARSED_STREAM_NODE_PIPE:
        status |= iErrorLevel ? EXECOPERATORS_SKIP : 0;
""")],
  needs="a pipeline after || whose condition is false", breaks="the end of a pipeline runs although its start was skipped",
  script="@echo off\nverify_nothing 2>nul\necho a || echo b | set x=1\necho [%x%]\n", expect="a \n[]\n")
B(id="S10-atif", prop="S10", edits=[("pbat/core/pBat_ParseBlock.c", "    while ((pBat_IsDelim(*pch) || *pch=='@') && *pch != '\\n')", "    while (pBat_IsDelim(*pch) && *pch != '\\n')")],
  needs="an IF with blocks that starts with @, inside of a block", breaks="the block ends at the end of the block of the IF",
  script="@echo off\n(\n@if 1==2 (\necho a\n) else (\necho b\n)\necho c\n)\necho d\n", expect="b\nc\nd\n")
B(id="S11-octal", prop="S11", edits=[("pbat/command/pBat_If.c", "            *value = (double)strtol(number, &end, 0);", "            *value = (double)strtol(number, &end, 10);")],
  needs="a comparison with an octal number", breaks="numbers with a leading zero are taken for decimal",
  script="@echo off\nif 010 EQU 8 (echo yes) else (echo no)\nif 0x10 EQU 16 (echo yes) else (echo no)\n", expect="yes\nyes\n")
B(id="S11-mixed", prop="S11", edits=[("pbat/command/pBat_If.c", """        if (iFlag & PBAT_IF_CASE_UNSENSITIVE)
            rhs = (double)stricmp(lpParam1, lpParam2);
        else
            rhs = (double)strcmp(lpParam1, lpParam2);
""", """        if (iFlag & PBAT_IF_CASE_UNSENSITIVE)
            rhs = (double)strnicmp(lpParam1, lpParam2, 255);
        else
            rhs = (double)strcmp(lpParam1, lpParam2);
""")],
  needs="/I and two texts that differ only behind their first 255 characters", breaks="the rest of the texts is not compared",
  script="@echo off\nset a=" + "x" * 260 + "\nif /i %a%y==%a%z (echo same) else (echo different)\nif /i %a%y==%a%Y (echo same) else (echo different)\n", expect="different\nsame\n")
B(id="S11-negerr", prop="S11", edits=[("pbat/command/pBat_If.h", "    ret = (iErrorLevel >= strtol(val, NULL, 0));", "    ret = (iErrorLevel >= strtoul(val, NULL, 0));")],
  needs="a negative number after ERRORLEVEL", breaks="the error level is never at least a negative number",
  script="@echo off\necho a>nul\nif errorlevel -1 (echo yes) else (echo no)\nif errorlevel 1 (echo yes) else (echo no)\n", expect="yes\nno\n")
B(id="S12-level", prop="S12", edits=[("pbat/command/pBat_IfExp.c", """    if (EQUCHR(line->op->str, '['))
        level = 1;
""", "")],
  needs="a bracketed part with OR at the beginning, followed by AND", breaks="the condition is cut inside of the first bracket",
  script="@echo off\nif [ [ 1 EQU 1 OR 1 EQU 2 ] AND 1 EQU 3 ] (echo yes) else (echo no)\nif [ [ 1 EQU 1 OR 1 EQU 2 ] AND 3 EQU 3 ] (echo yes) else (echo no)\n", expect="no\nyes\n")
B(id="S12-caseright", prop="S12", edits=[("pbat/command/pBat_IfExp.c", "        res2 = pBat_IfExp_Evaluate(exp->child2.child.exp, flags);", "        res2 = pBat_IfExp_Evaluate(exp->child2.child.exp, exp->child2.type == IFEXP_NODE_EXP ? 0 : flags);")],
  needs="/I and a part that is not the first one and differs only in case", breaks="the case of the second part is not ignored",
  script="@echo off\nif /i [ a EQU A AND b EQU B ] (echo yes) else (echo no)\n", expect="yes\n")
B(id="S16-lastlist", prop="S16", edits=[("pbat/command/pBat_For.c", """                last = end;

            }

            /* reset internals */""", """                last = start;

            }

            /* reset internals */""")],
  needs="FOR /F with a joined range followed by *", breaks="the rest starts in the middle of the range",
  script="@echo off\nfor /f \"tokens=1.3,*\" %%a in (\"a b c d e\") do echo %%a-%%b\nfor /f \"tokens=1-3,*\" %%a in (\"a b c d e\") do echo %%a-%%b-%%c-%%d\n", expect="a b c-d e\na-b-c-d e\n")
B(id="S16-missing", prop="S16", edits=[("pbat/command/pBat_For.c", "	*pBat_EsToChar(lpReturn) = '\\0';\n\n	/*  the type of line", "	if (iPos == 0)\n		*pBat_EsToChar(lpReturn) = '\\0';\n\n	/*  the type of line")],
  needs="a line with fewer tokens than asked for", breaks="a missing token has the value of the one before",
  script="@echo off\nfor /f \"tokens=1,2,3\" %%a in (\"a b\") do echo [%%a][%%b][%%c]\n", expect="[a][b][]\n")
B(id="S18-lastlabel", prop="S18", edits=[("pbat/core/pBat_Jump.c", "    ifIn.batch.curr = lbl->following ? lbl->following->next : ifIn.batch.cmds;", "    ifIn.batch.curr = lbl->following && lbl->following->next ? lbl->following->next : ifIn.batch.cmds;")],
  needs="GOTO a label that is the last line of the script", breaks="the script starts again from its first line",
  script="@echo off\nif defined once goto seen\nset once=1\necho first\ngoto fin\n:seen\necho again\nexit\n:fin\n", expect="first\n")
B(id="S18-prefix", prop="S18", edits=[("pbat/core/pBat_Jump.c", """            && (*(lbl->label + size ) == '\\0'
                || pBat_IsDelim(*(lbl->label + size))
               )""", """            && (*(lbl->label + size ) == '\\0'
                || !isalnum(*(lbl->label + size))
               )""")],
  needs="a label that is the beginning of an earlier label, followed by a character such as - or _", breaks="GOTO continues after the wrong label",
  script="@echo off\ngoto a\n:a-b\necho wrong\ngoto end\n:a\necho right\n:end\n", expect="right\n")
B(id="S18-lock", prop="S18", edits=[("pbat/command/pBat_Call.c", "	pBat_SetStreamStackLockState(lppsStreamStack, iLockState);", "	pBat_SetStreamStackLockState(lppsStreamStack, FALSE);")],
  needs="a subroutine whose output is redirected, that calls another one and then goes on", breaks="the redirection of the caller is dropped after the inner call",
  script="@echo off\ncall :a >o.txt\ngoto end\n:a\ncall :b\necho after\ngoto :eof\n:b\nrem nothing\ngoto :eof\n:end\necho end\n", expect="end\n")
DIR = "libpbat/dir/pBat_Dir.c"
B(id="S13-emptydir", prop="S13", edits=[(DIR, """                /* if it does not match *but* we are in recursive mode, browse
                   anyway */
                arg->files = ret;
                ret = pBat_GetMatch(path->str, item, arg);
""", """                /* if it does not match *but* we are in recursive mode, browse
                   anyway */
                arg->files = ret;
                if ((tmp = pBat_GetMatch(path->str, item, arg)) != arg->files)
                    return tmp;
""")],
  needs="a recursive search with matching files in several directories that do not match themselves", breaks="the search ends after the first directory that holds a match",
  pre="mkdir d1 d2 d3; touch d1/x.txt d2/x.txt d3/x.txt\n",
  script="@echo off\nset n=0\nfor /r %%i in (*.txt) do set /a n=n+1\necho %n%\n", expect="3\n")
B(id="S13-twolevels", prop="S13", edits=[(DIR, """                    /* always browse */
                    arg->files = ret;
                    ret = pBat_GetMatch(path->str, up, arg);

                    /* exit on error""", """                    /* always browse */
                    if (arg->files == NULL)
                        arg->files = ret;
                    ret = pBat_GetMatch(path->str, up, arg);

                    /* exit on error""")],
  needs="wildcards in a component that is not the last one, with matches in three directories", breaks="files found in the second directory are forgotten",
  pre="mkdir d1 d2 d3; touch d1/x.txt d1/y.txt d2/x.txt d2/y.txt d3/x.txt d3/y.txt\n",
  script="@echo off\nset n=0\nfor %%i in (d*/*.txt) do set /a n=n+1\necho %n%\n", expect="6\n")
B(id="S14-splittail", prop="S14", edits=[("libpbat/dir/pBat_Attr.c", """    if (pMatch)
        pMatch->lpflNext = NULL;

""", "")],
  needs="a file that is not selected, found right after the last one that is", breaks="files that do not have the attributes asked for are removed as well",
  pre="for d in d1 d2; do mkdir $d; for i in 1 2 3 4 5 6 7 8; do echo x > $d/full$i.t; : > $d/void$i.t; done; done\n",
  script="@echo off\ndel /q /ai d1/*.t 2>nul\ndel /q /a-i d2/*.t 2>nul\nset n=0\nfor %%i in (d1/full*.t) do set /a n=n+1\nfor %%i in (d2/void*.t) do set /a n=n+1\necho %n%\n", expect="16\n")
B(id="S14-abbrev", prop="S14", edits=[("pbat/command/pBat_Ask.c", """		if (!stricmp(lpInput, lpAskYes)
		    || !stricmp(lpInput, lpAskYesA)) {""", """		if (!strnicmp(lpInput, lpAskYes, strlen(lpInput))
		    || !stricmp(lpInput, lpAskYesA)) {""")],
  needs="an empty answer to a question whose default is no", breaks="an empty answer means yes",
  pre="echo x > a.t; echo y > b.t\n",
  script="@echo off\n(echo.\necho n)>ans\ndel *.t <ans >nul 2>nul\nif exist a.t echo a\nif exist b.t echo b\n", expect="a\nb\n")
B(id="S14-negate", prop="S14", edits=[("libpbat/dir/pBat_Attr.c", """            wFlag|=wFlag<<1;
            bNeg=FALSE;
""", """            wFlag|=wFlag<<1;
""")],
  needs="/A with a negated attribute followed by another one that is not negated", breaks="the attributes after a negated one are negated, too",
  pre="echo x > a.t; : > b.t; chmod 644 a.t b.t; chmod 444 b.t; : > c.t; chmod 644 c.t\n",
  script="@echo off\ndel /q /a-ri *.t 2>nul\nif exist a.t echo a\nif exist b.t echo b\nif exist c.t echo c\n", expect="a\nb\n")
B(id="S14-allsticks", prop="S14", edits=[("pbat/command/pBat_Del.c", """        if (res == PBAT_ASK_ALL)
            *choice = res;
""", """        *choice = res;
""")],
  needs="an answer yes followed by an answer no", breaks="files for which the user would have answered no are removed without asking",
  pre="for i in 1 2 3 4; do echo x > $i.t; done\n",
  script="@echo off\n(echo y\necho n\necho n\necho n)>ans\ndel *.t <ans >nul 2>nul\nset n=0\nfor %%i in (*.t) do set /a n=n+1\necho %n%\n", expect="3\n")
COPY = "pbat/command/pBat_Copy.c"
B(id="S17-notrunc", prop="S17", edits=[(COPY, """        *flags |= PBAT_COPY_CAT_2ND;
        attr |= O_TRUNC;
""", """        *flags |= PBAT_COPY_CAT_2ND;
""")],
  needs="joining files to an existing file that is longer than all of them", breaks="the end of the old contents of the destination stays",
  pre="printf 'one\\n' > a; printf 'two\\n' > b; printf 'a long old text that was there before\\n' > c\n",
  script="@echo off\ncopy /y a + b c >nul\ntype c\n", expect="one\ntwo\n")
B(id="S17-declined", prop="S17", edits=[(COPY, """            case PBAT_ASK_NO:
                ok=0;

        }""", """            case PBAT_ASK_NO:
                ok= (*flags & PBAT_COPY_MULTIPLE) ? 0 : 1;

        }""")],
  needs="a single file copied to an existing file, and the answer no", breaks="a file the user declined is overwritten",
  pre="printf 'one\\n' > a; printf 'two\\n' > b\n",
  script="@echo off\n(echo n)>ans\ncopy a b <ans >nul 2>nul\ntype b\n", expect="two\n")
B(id="S17-flagsleak", prop="S17", edits=[(COPY, """                                    lpCopyConfirm,
                                    pBat_EsToChar(dest_real),
                                    file
                                    );
""", """                                    lpCopyConfirm,
                                    pBat_EsToChar(dest_real),
                                    file
                                    );

        if (ok == PBAT_ASK_YES)
            *flags |= PBAT_COPY_SILENCE;
""")],
  needs="several files to overwrite, the answer yes and then no", breaks="after one yes the others are overwritten without asking",
  pre="mkdir s d; printf 'n\\n' > s/1; printf 'n\\n' > s/2; printf 'n\\n' > s/3; printf 'o\\n' > d/1;  printf 'o\\n' > d/2;  printf 'o\\n' > d/3\n",
  script="@echo off\n(echo y\necho n\necho n)>ans\ncopy s/* d <ans >nul 2>nul\nset n=0\nfor /f %%i in (d/1 d/2 d/3) do if %%i==n set /a n=n+1\necho %n%\n", expect="1\n")
