import json,glob,re,sys
sys.path.insert(0,'/verif')
from checks import CHECKS
D=open('/verif/DESIGN.md').read()
i=D.find("\n## 2.")
if i>0: D=D[:i]
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
out=["","## 2. Properties, contracts, oracles",
"""
For every property: what the contracts say (proved for all inputs, all iterations), what is executed only
(bounded, oracle and bound), and what the tests of the repository cannot reach. The contracts of a property are in
`contracts/<file>.spec`; callees proved under another property are imported by their contract (`use`). Cost: 10 to
330 s on eight cores for the proof (quick tier stops a proof at 420 s), 3 to 60 s for the executions; the thorough tier
lifts the limits of the solvers and multiplies the executions by about ten.
"""]
T={
"S01":"Contracts describe the text of a string after each operation as a function of the text before (every byte, its length, the capacity), data invariant `ES` (buffer valid, terminated, capacity a power of two). Replacement is specified by a recursive logic function over the text. Executed: reading lines from files, against a model in C.",
"S02":"The scanners are specified over two recursive logic functions, the parity of quotes and of carets before a position; each scanner returns the first unprotected position, nothing before it qualifies, or NULL and nothing qualifies at all. Executed: the same against an independent scanner written from the statement.",
"S03":"Comparison (a strict weak order with unset slots last), growth of the table, allocation, copy of the whole table (`pBat_EnvDup`: every variable in its place with its name and value, nothing shared), frames (push, pop), and the commands SETLOCAL and ENDLOCAL (what is kept is the state before the command, what is restored is what was kept, a refused request keeps nothing). Executed: lookups and assignments against an association list; the table functions go through `qsort`/`bsearch` with function pointers, out of the engine's reach.",
"S04":"The block of special variables: assignment changes one of the 128 entries and copies the text, duplication shares nothing, freeing frees each once. Executed: the modifiers (~dpnxfszta) against an oracle on a real file tree.",
"S05":"Every number, every text: the options never read or write outside of the value, leave value, name and directory as they were. Executed: which characters are selected, against arithmetic on wide integers.",
"S06":"The expansion of any line terminates, stays in its buffers, and the parts it replaces do not overlap with what follows. Executed: the expanded text, against an expander written from the statement.",
"S07":"Splitting (`pBat_GetParameterPointers`: no delimiter inside, everything before skipped, quotes closed; progress), SHIFT for any request: a refused one changes nothing, arguments before the start stay, each step takes the very text of the argument further on, nothing but arguments changes. Executed: the text of each argument, histories of SHIFT and CALL, against a list model.",
"S08":"Looking for operators and redirections in any line: where a command ends, which redirections are recognised, data invariants of the parsed lines, freeing. Executed: the parts of every short line against an independent parser.",
"S09":"Streams: the stack of substitutions, opening and closing of redirections, pipes; which commands of a line run after which error level. Executed: 6000 random programs against an interpreter of the same language in C that predicts all output and files; 1500 random scripts that read lines from files, pipes and the input of the script, against what each reader should find.",
"S10":"Where blocks end in any text (over carets, quotes, lines, nested brackets, as recursive logic functions), and what the block after blanks is. Executed: the same programs, mostly blocks.",
"S11":"The comparison of any two texts by any operator: whether they are numbers (in C notation, range), the order of numbers as integers or doubles, of texts as strcmp/strcasecmp (uninterpreted). Executed: 60000 comparisons, programs of IF.",
"S12":"Evaluation of any tree of conditions: AND binds tighter than OR, short circuits, what an unknown operand does. Executed: programs with bracketed conditions.",
"S13":"Which names match which pattern: `pBat_fnmatch`-like functions against the textbook meaning as a recursive logic function over both texts (including UTF-8 steps). Executed: patterns, searches in random trees against a walk of the tree.",
"S14":"The meaning of /A attributes, the partition of a list of files into selected and remaining (every node in exactly one, order kept), questions and answers, what is removed after each. Executed: DEL and RD in random trees with `remove`, `rmdir`, `unlink` wrapped.",
"S15":"Splitting into components, joining, making absolute (as functions of the text), device names, lookups along directories. Executed: the same against an oracle over every short path.",
"S16":"FOR /L: the body runs once for each value from start to end, in order, with the variable set to its decimal text, and no value is left out unless the body left the loop. Which token a number or a range selects in any line (logic function counting tokens), which variables are undefined before and after the loop. Executed: programs with loops, FOR /F with options in any order.",
"S17":"One file: question, copy (every byte, a failed read or write ends in an error), concatenation, renaming (the source is removed only after the destination is complete). Executed: COPY/MOVE of files and trees, full disks.",
"S18":"Which label of any script is chosen: the first one whose name is the label, ignoring case, up to the delimiters (logic functions over the lines). Executed: programs with GOTO and CALL.",
}
order=[p for p in props]
for p in order:
    c=CHECKS[p]; 
    out.append("**%s – %s.** %s" % (p, props[p]['title'], T[p]))
    hb="; ".join(h['bound'] for h in c['harness'])
    out.append("Bounds of the executions: %s." % hb)
    if c.get('bounded'): out.append("Bounded only: %s." % "; ".join(c['bounded']))
    if c.get('assumptions'): out.append("Assumed: %s." % "; ".join(c['assumptions']))
    out.append("")
out.append("Not applicable: none of the eighteen as a whole. Parts for which no contract is within reach of the engine are the lists above: functions that go through `qsort`/`bsearch`/the command table with function pointers, threads of pipes, variadic functions, and text transformations whose result the contracts only bound (memory, progress, frame) and the executions decide.\n")
out.append("## 3. Functions under contract\n")
out.append("| property | contracts | obligations | functions (obligations) |\n|---|---|---|---|")
tot=0
for p in order:
    e=json.load(open('/verif/evidence/%s.json'%p))['coverage']
    fs=[f for f in e['functions_under_contract'] if not f['fn'].startswith('#')]
    tot+=e['obligations']
    out.append("| %s | %s | %d/%d | %s |" % (p, CHECKS[p]['spec'], e['discharged'], e['obligations'], ", ".join("%s %d" % (f['fn'], f['obligations']) for f in fs)))
out.append("\n%d obligations in all. Repository functions whose contract is assumed (not proved here): " % tot)
tr={}
for p in order:
    for t in json.load(open('/verif/evidence/%s.json'%p))['coverage']['trusted_base']:
        m=re.match(r"assumed contract: (pBat_\w+)",t)
        if m: tr.setdefault(m.group(1),[]).append(p)
out[-1]+="; ".join("%s (%s)"%(k,", ".join(v)) for k,v in sorted(tr.items()))+". `pBat_EsCacheInit`/`Free` hand out a string nobody else holds; the others print, or change only what their contract names."
out.append("""
### Loops in sequence
`cut` in a loop's contract makes all paths that reach the loop prove its invariants, and continues once from a state that is
only known to satisfy them (and the function's frame). It keeps functions with several loops (SHIFT) from multiplying paths.
""")
out.append("## 4. Planted bugs\n\nEach is in `seeded/<id>/` (patch, demonstration, what it needs). All are caught by the check of their property on a scratch copy (`tools/trychk.sh`), with a failing input. Those in the last lines were missed at first; what was strengthened is named.\n")
out.append("| bug | what it breaks | needs |\n|---|---|---|")
for s in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(s)); out.append("| %s | %s | %s |"%(s.split('/')[-2],m['what_it_breaks'],m['needs']))
out.append("""
Missed when planted, and what changed: S10-atif (programs now have `@` before commands), S18-prefix (labels that are
beginnings of each other, decoys, spelling variants), S11-negerr (error levels of either sign), S11-mixed (texts of several hundred
characters that differ only behind a common beginning), S08-gluedinput (lines over `1 2 < > & a blank`), S13-emptydir
(recursive searches in trees where a directory and its files match), S17-notrunc (destinations longer than their sources), S09-substlate
(redirections inside of redirected blocks). Apart from these the bugs fail named obligations as well where the function
is under contract; the replay then holds both.
""")
out.append("""## 5. Defects of picobat found

67 were repaired in `/repo` (`fix:` commits), each listed with its commit in `KNOWN_FINDINGS`; no unrepaired finding is listed, so no
check prints KNOWN-FINDING. Most were found by writing the contract (the obligation did not hold), the others by the executions. Seen
but left, because no property claims them or the code is unreachable: division by zero in `set /a` ends the interpreter, an escaped quote
at the very end of an argument is stripped, FOR /F refuses texts in quotes over several lines, `pBat_CmdCopyFile` could exceed a buffer by
one byte for names of 4096 bytes (callers cut them), DEL /A without /F removes read-only files on Unix, RD without /S removes plain files
among several names. The statements leave these unspecified.

False alarms on the unchanged tree met while building were corrected in the contracts or oracles: IF NOT before numeric comparisons (documented only for
some tests), `^>&` and `2>&2` (unspecified), empty directories in FOR /R.
""")
open('/verif/DESIGN.md','w').write(D.rstrip()+"\n"+"\n".join(out)+"\n")
