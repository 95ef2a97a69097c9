NA = {}
PROPS = []
def P(**k): PROPS.append(k)
TESTS = "The tests run four short scripts (a block, expansion, delayed expansion, one pipe) and the terminal layer; "
P(id="S01", title="Growable strings hold exactly what was put in them",
  statement="The growable string used for every line, path and expansion holds, after initialisation, copying, bounded copying and appending (from plain or other growable strings), exactly the bytes that should result, NUL-terminated, however long. Its buffer is always large enough for its contents, and no operation reads or writes outside its buffer or frees a live one. Replacing a substring substitutes every non-overlapping occurrence from the left and nothing else (ignoring case where asked), and reading a line delivers exactly the bytes of the line.",
  q="all contents, lengths up to 2^29 and sequences of operations, including growth at every capacity step and allocation failure",
  why=TESTS + "no test stores more than a few dozen bytes in such a string, so growth, exact-fit and failure paths are never sampled.",
  files=["libpbat/estr/pBat_Estr.c"],
  mech=[("capacity rounding", "libpbat/estr/pBat_Estr.c:__fast_compute_size"), ("copy/append with reallocation", "libpbat/estr/pBat_Estr.c:pBat_EsCpy..pBat_EsCatE"), ("replace", "libpbat/estr/pBat_Estr.c:pBat_EsReplace")],
  state=[("ESTR", "str: buffer, len: its size", "libpbat/libpBat.h")])
P(id="S02", title="Carets and quotes protect characters everywhere the interpreter scans",
  statement="A caret makes exactly the next character ordinary: a character counts as escaped if and only if an odd run of carets stands before it, and unescaping a text drops every caret that is not itself escaped and keeps all other characters in order. Every search the interpreter makes for a special character finds the first (or, where asked, the last) occurrence that is not escaped and, for the quote-aware searches, not between double quotes (an escaped quote opens and closes nothing), and reports none only when there is none. Skipping leading delimiters and stripping trailing ones removes all of them and nothing else.",
  q="all texts, delimiter sets and nestings of carets and quotes, of any length",
  why=TESTS + "they contain no caret before a quote, no run of carets and no unbalanced quote, so the parity arguments are never exercised.",
  files=["libpbat/cmdlib/pBat_String.c"],
  mech=[("caret parity", "libpbat/cmdlib/pBat_String.c:pBat_SearchChar"), ("quote parity", "libpbat/cmdlib/pBat_String.c:pBat_SearchToken_OutQuotes"), ("unescaping in place", "libpbat/cmdlib/pBat_String.c:pBat_UnEscape")],
  state=[("text", "the command text being scanned", "libpbat/cmdlib/pBat_String.c")])
P(id="S03", title="The environment is a case-insensitive map, restored by frames",
  statement="Looking a variable up returns exactly the value last assigned under that name in any case, whatever other variables were set, replaced or removed before and however many there are; a name loses its trailing blanks, assigning an empty value removes the variable, and the block handed to programs lists every variable exactly once. ENDLOCAL (or the end of a SETLOCAL frame) restores all variables and the delayed-expansion and command-correctness options exactly as they were before the matching SETLOCAL. Variables whose name starts with an underscore are local to a subroutine call: on return those created in it vanish and those changed in it get their old value back, unless they were set to be inherited.",
  q="all histories of set, unset, setlocal, endlocal, call and return, over all names and values",
  why=TESTS + "they set at most two variables and never unset one, so table order, slot reuse, growth and frames are never sampled.",
  files=["pbat/core/pBat_Env.c", "pbat/core/pBat_EnvStack.c", "pbat/command/pBat_Setlocal.c"],
  mech=[("sorted table with unset slots", "pbat/core/pBat_Env.c:pBat_EnvCompName"), ("set/unset", "pbat/core/pBat_Env.c:pBat_SetEnvEx"), ("subroutine locals", "pbat/core/pBat_Env.c:pBat_PushEnvLocals"), ("SETLOCAL frames", "pbat/core/pBat_EnvStack.c:pBat_PushEnvStack")],
  state=[("lpeEnv", "the sorted table of variables", "pbat/core/pBat_Globals.c"), ("lpesEnv", "stack of SETLOCAL frames", "pbat/core/pBat_Globals.c")])

P(id="S04", title="Special variables expand to the part of the value asked for",
  statement="A loop variable or argument expands to its value, and with ~ to its value without surrounding quotes, or to exactly the parts asked for by its modifiers (full path, drive, directory, name, extension, size, date, attributes), in order and separated as documented; of several readings the longest list of modifiers that leaves a defined variable wins. Reading one consumes exactly its own characters and never changes any variable. Defining, redefining, removing and copying such variables affects that variable alone, and no sequence of these reads or writes freed memory or memory outside the block.",
  q="all values, modifier lists, file names and sequences of assignments",
  why=TESTS + "none uses a loop variable, an argument or a modifier.",
  files=["pbat/core/pBat_Var.c"],
  mech=[("longest match of the modifiers", "pbat/core/pBat_Var.c:pBat_GetLocalVar"), ("assignment with ownership of the copies", "pbat/core/pBat_Var.c:pBat_SetLocalVar"), ("copy of a block", "pbat/core/pBat_Var.c:pBat_DuplicateLocalVar")],
  state=[("LOCAL_VAR_BLOCK", "128 pointers, each owning its text", "pbat/core/pBat_Var.c")])
P(id="S05", title="Substring and replacement options of a variable are exact",
  statement="%v:~n,m% gives exactly the characters of v from position n (counted from the end when negative) up to m characters or, when m is negative, up to m characters before the end, and nothing when that range is not within the value; %v:a=b% gives v with every occurrence of a replaced by b, and %v:default% gives the value of v or the default when v is undefined. Whatever the numbers, nothing outside the value is read or written. Reading a variable leaves the variable, its name and the current directory unchanged.",
  q="all values, offsets, lengths (also beyond the range of an int) and replacement texts",
  why=TESTS + "no test uses an option of a variable.",
  files=["pbat/core/pBat_Var.c", "libpbat/estr/pBat_Estr.c"],
  mech=[("range computation and temporary cut", "pbat/core/pBat_Var.c:pBat_GetVar"), ("replacement", "libpbat/estr/pBat_Estr.c:pBat_EsReplace")],
  state=[("the value", "the environment's own text, cut and restored in place", "pbat/core/pBat_Var.c:pBat_GetVar")])
P(id="S06", title="Expansion replaces each reference once and leaves the rest of the line",
  statement="Expanding a line replaces, from left to right, every %name% (and, when delayed expansion is on, every !name!) by the value of that variable or by nothing, every argument reference by the argument, a doubled delimiter by a single one, drops a delimiter without a partner, and copies all other text unchanged; delimiters protected by a caret are not references, and replaced text is not expanded again. Special variables expand in the same way, and a % that starts none stays. Escapes are removed exactly once, at delayed expansion.",
  q="all lines, variable contents and both modes",
  why="The tests expand two variables in a fixed line; undefined names, unpaired and doubled delimiters, arguments named like variables, carets and long lines are never combined.",
  files=["pbat/core/pBat_Expand.c"],
  mech=[("scan for pairs of delimiters", "pbat/core/pBat_Expand.c:pBat_ExpandVar"), ("special variables", "pbat/core/pBat_Expand.c:pBat_ExpandSpecialVar"), ("delayed expansion", "pbat/core/pBat_Expand.c:pBat_DelayedExpand")],
  state=[("line and two buffers", "growable strings that never alias", "pbat/core/pBat_Expand.c")])
P(id="S15", title="Paths are split, joined, made absolute and looked up exactly",
  statement="Splitting a path yields drive, directory (up to and with the last separator), name and extension (from the last dot of the last component) whose concatenation is the path, leaves the path unchanged, and never writes past the 4096 bytes of a part. Making a name absolute gives the name itself when it is absolute, the device for a device name (NUL, CON, PRN, LPTn, COMn in any case), and the current directory, a separator and the name otherwise, whatever the lengths. A program is looked up in the current directory and then, for a bare name, in the directories of PATH in order, each with the extensions of PATHEXT in order and then with none, and the first existing file is the one found.",
  q="all paths, current directories, lengths and search lists",
  why=TESTS + "no test splits a path or searches one.",
  files=["pbat/core/pBat_SplitPath.c", "pbat/core/pBat_FilePath.c", "pbat/core/pBat_OsStream.c"],
  mech=[("splitting", "pbat/core/pBat_SplitPath.c:pBat_SplitPath"), ("absolute names in place", "pbat/core/pBat_FilePath.c:pBat_EsToFullPath"), ("device names", "pbat/core/pBat_OsStream.c:_pBat_GetOsStreamName"), ("search", "pbat/core/pBat_FilePath.c:pBat_GetFilePath")],
  state=[("lpCurrentDir", "the current directory", "pbat/core/pBat_Globals.c")])
P(id="S07", title="Arguments are split, passed on and shifted without loss",
  statement="A line is split into arguments at blanks, tabs, commas and semicolons that are neither escaped nor between quotes; each argument is delivered exactly once, in order, without its enclosing quotes and with its escapes removed once, and every argument counts, for internal commands, programs and scripts alike. A called script or label sees its arguments as %1 to %9, the empty text for missing ones and the whole tail as %*. SHIFT moves the arguments from the position given down by the number given, drawing those beyond the ninth in their turn, and touches neither the positions before it nor %*.",
  q="all lines, nestings of quotes and carets, numbers of arguments and histories of SHIFT",
  why=TESTS + "none passes an argument to a script or uses SHIFT.",
  files=["pbat/core/pBat_Args.c", "pbat/command/pBat_Shift.c", "pbat/command/pBat_Call.c"],
  mech=[("extent of an argument", "pbat/core/pBat_Args.c:pBat_GetParameterPointers"), ("stripping of quotes", "pbat/core/pBat_Args.c:pBat_GetNextParameterEsD"), ("shift", "pbat/command/pBat_Shift.c:pBat_CmdShift"), ("arguments of a call", "pbat/command/pBat_Call.c:pBat_CmdCallFile")],
  state=[("lpvArguments", "block of %0-%9, %*, %+", "pbat/core/pBat_Globals.c")])
P(id="S08", title="Lines are split into commands and redirections exactly once, losslessly",
  statement="A line is split at the operators &, &&, | and || that are neither escaped, nor between quotes, nor inside a parenthesised block, into commands that are delivered in order, each with the operator that precedes it, and no character of the commands is lost or invented. Redirections <, >, >>, 1>, 1>>, 2>, 2>>, 1>&2 and 2>&1 (neither escaped nor quoted) are removed from the command wherever they stand, the file name is the next argument with its quotes and escapes removed, and whether the file is emptied or extended is what the operator says; a second redirection of the same stream or a missing name is reported as an error. A copy of a split line is equal to it and shares nothing with it.",
  q="all lines: every placement of operators, redirections, quotes, carets and parentheses, of any length",
  why=TESTS + "the only operator in them is one pipe, and no redirection stands between quotes, after a caret or twice.",
  files=["pbat/core/pBat_Parse.c"],
  mech=[("operators", "pbat/core/pBat_Parse.c:pBat_ParseLine"), ("redirections", "pbat/core/pBat_Parse.c:pBat_ParseOutput")],
  state=[("PARSED_LINE", "list of commands with their operators and streams", "pbat/core/pBat_Parse.h")])
P(id="S09", title="Operators decide what runs, redirections decide where output goes",
  statement="Of the commands of a line, one after & always runs, one after && runs only when the error level left by the commands before it is zero, one after || only when it is not, and a pipeline whose start is not run is skipped as a whole. While a redirected command or block runs, its output and error output go to exactly the files named (emptied first for >, extended for >>) or to the other stream for 1>&2 and 2>&1, and its input comes from the file named; afterwards all streams are what they were before, in whatever order redirections are nested and whether the command succeeds or fails. A redirection never affects commands outside the one it is written on.",
  q="all lines of commands, redirections, nestings of blocks and calls, and results of the commands",
  why=TESTS + "no test redirects a stream or uses && or ||.",
  files=["pbat/core/pBat_Run.c", "pbat/core/pBat_Stream.c"],
  mech=[("operators", "pbat/core/pBat_Run.c:pBat_ExecOperators"), ("opening redirections", "pbat/core/pBat_Run.c:pBat_ExecOutput"), ("stack of replaced streams", "pbat/core/pBat_Stream.c:pBat_PopStreamStack")],
  state=[("lppsStreamStack", "the replaced streams and the copies of their descriptors", "pbat/core/pBat_Globals.c")])
P(id="S10", title="Parenthesised blocks group exactly the commands between their brackets",
  statement="A block extends from its opening parenthesis to the matching closing one; parentheses that are escaped or quoted open and close nothing. Every command of a block, one per line or separated by operators, runs exactly once and in order, blocks, conditions and loops nest to any depth, and an IF body ends where its block ends so that ELSE belongs to the nearest IF before it. A redirection after the closing parenthesis applies to every command of the block and to nothing else.",
  q="all nestings of blocks, conditions, loops, quotes and carets",
  why=TESTS + "one test runs one block of two commands.",
  files=["pbat/core/pBat_ParseBlock.c"],
  mech=[("end of a command", "pbat/core/pBat_ParseBlock.c:pBat_GetBlockLineEndEx"), ("end of a block", "pbat/core/pBat_ParseBlock.c")])
P(id="S11", title="IF compares numbers as numbers, texts as texts, and runs one branch",
  statement="IF a==b and the operators EQU, NEQ, LSS, LEQ, GTR and GEQ compare the two sides as numbers when both are numbers (decimal, octal, hexadecimal or with a fraction) and as texts otherwise, ignoring case exactly with /I; == takes each side without enclosing quotes. DEFINED, EXIST and ERRORLEVEL n hold exactly when the variable is defined, a file matches, and the error level is at least n, and NOT before ==, DEFINED, EXIST or ERRORLEVEL inverts the test. The command after a condition that holds is run, that after ELSE otherwise, never both, and the error level is left as the command that ran left it.",
  q="all operands (numbers of every notation, texts), operators and nestings",
  why=TESTS + "no test uses IF.",
  files=["pbat/command/pBat_If.c"],
  mech=[("numbers", "pbat/command/pBat_If.c:pBat_GetCmpValue"), ("comparison", "pbat/command/pBat_If.c:pBat_PerformExtendedTest")])
P(id="S12", title="Bracketed conditions follow AND, OR, NOT and brackets",
  statement="A condition between square brackets has the value its parts give: AND binds tighter than OR, NOT inverts the test it stands before, and inner brackets are evaluated as a unit, to any depth and however many parts there are. Each part is tested as it would be by IF on its own, ignoring case when the whole is introduced by /I. Evaluating a condition changes no variable and leaves every other command on the line as it was.",
  q="all conditions: numbers of parts, nestings and combinations of truth values",
  why=TESTS + "no test contains a bracketed condition.",
  files=["pbat/command/pBat_IfExp.c"],
  mech=[("evaluation of the list of tests", "pbat/command/pBat_IfExp.c:pBat_IfExp_Evaluate"), ("building the list", "pbat/command/pBat_IfExp.c:pBat_IfExp_AddLineElement")])
P(id="S16", title="Loops run their body once per element, token or value, in order",
  statement="FOR runs its body once for each element of its list, in order, with the loop variable set to that element, and FOR /L once for each value from start up to end by a positive step. FOR /F runs it once per line of the file, files or text that is neither among the lines to skip nor starts with an end-of-line character, with the loop variables set to exactly the tokens asked for (single tokens, lists n-p, joined ranges n.p and the rest *), where runs of delimiters count once and a token that is missing is empty. Loops nest, the loop variables are undefined again afterwards and no other special variable is changed.",
  q="all lists, ranges, files, delimiter sets and lists of tokens",
  why=TESTS + "no test contains a loop.",
  files=["pbat/command/pBat_For.c"],
  mech=[("choosing the tokens", "pbat/command/pBat_For.c:pBat_ForGetToken"), ("list of tokens", "pbat/command/pBat_For.c:pBat_ForMakeTokens"), ("loop variables", "pbat/command/pBat_For.c:pBat_ForVarUnassign")],
  state=[("FORINFO", "delimiters, end-of-line characters, tokens", "pbat/command/pBat_For.h")])
P(id="S18", title="GOTO and CALL continue exactly where they should",
  statement="GOTO continues with the line after the first label of that name (in any case, with or without the colon), dropping the rest of the blocks and loops it stands in, and reports an error when there is none; GOTO :EOF ends the current script or subroutine. CALL :label runs the subroutine with its arguments and then continues with the command after the CALL, whatever redirections, loops and nested calls it makes, and with the caller's own arguments and loop variables in place. The error level a subroutine leaves is the one its caller sees.",
  q="all scripts: positions of labels and jumps, nestings of calls and blocks",
  why=TESTS + "no test contains a label.",
  files=["pbat/core/pBat_Jump.c", "pbat/command/pBat_Goto.c", "pbat/command/pBat_Call.c"],
  mech=[("finding the label", "pbat/core/pBat_Jump.c:pBat_JumpToLabel"), ("calls", "pbat/command/pBat_Call.c:pBat_CmdCallFile")],
  state=[("ifIn", "the script being run: its lines, its labels, the next line", "pbat/core/pBat_Globals.c")])

P(id="S13", title="Wildcards find exactly the files that match",
  statement="A * in a pattern stands for any run of characters (also none), a ? for exactly one character (however many bytes it takes), and every other character for itself in either case. A path with wildcards in any of its components finds every existing file and directory that it describes, each exactly once, and nothing else; a recursive search finds those below every directory as well, without following links. FOR, with or without its switches for directories and recursion, runs once for each file (or directory) found and never for one of the other kind.",
  q="all patterns, file names and directory trees",
  why=TESTS + "no test uses a wildcard.",
  files=["libpbat/dir/pBat_Dir.c", "libpbat/enc/pBat_Enc.c"],
  mech=[("matching one name", "libpbat/dir/pBat_Dir.c:pBat_RegExpCaseMatch"), ("search", "libpbat/dir/pBat_Dir.c:pBat_GetMatch"), ("characters", "libpbat/enc/pBat_Enc.c:pBat_GetNextChar")])
P(id="S14", title="Deleting removes exactly the files selected and confirmed",
  statement="DEL removes every file that matches its names and its attributes (all but directories and, without /F and attributes, read-only ones) and nothing else: never a directory, a file that the user declined, or one that does not match. It asks before each file when a name has wildcards (unless /Q) or with /P, an answer for all is not asked again, an empty or invalid answer removes nothing, and a name that matches nothing removes nothing and is reported. RD removes an empty directory, with /S (after asking, unless /Q) also everything below it that was not declined, and never anything outside it, in particular not through a link.",
  q="all directory trees, names, switches, attributes and sequences of answers",
  why=TESTS + "no test deletes anything.",
  files=["pbat/command/pBat_Del.c", "pbat/command/pBat_Rmdir.c", "pbat/command/pBat_Ask.c", "libpbat/dir/pBat_Attr.c"],
  mech=[("attributes", "libpbat/dir/pBat_Attr.c:pBat_CheckFileAttributes"), ("selection", "libpbat/dir/pBat_Attr.c:pBat_AttributesSplitFileList"), ("confirmation", "pbat/command/pBat_Ask.c:pBat_AskConfirmation"), ("deletion", "pbat/command/pBat_Del.c:pBat_CmdDelFile")])
P(id="S17", title="Copying and moving lose no data and overwrite only when confirmed",
  statement="After COPY every destination holds exactly the bytes of its source, or of all the sources one after the other when they are joined with + (or several are copied to one file), and the sources are unchanged; MOVE leaves each file's bytes under its new name only, and copying or moving a file onto itself leaves it as it is. An existing file is overwritten only with /Y or after the answer yes or all, and a file that was declined stays as it was. With /R the files of a whole tree get the same relative names below the destination, and a copy that cannot be completed (a full disk, a missing file) is reported and never changes its source.",
  q="all contents and sizes, sets of files, switches, answers and points of failure",
  why=TESTS + "no test copies or moves a file.",
  over=["inputs", "fault_sequences"],
  files=["pbat/command/pBat_Copy.c"],
  mech=[("copy", "pbat/command/pBat_Copy.c:pBat_CopyFile"), ("concatenation", "pbat/command/pBat_Copy.c:pBat_CatFile"), ("destination and question", "pbat/command/pBat_Copy.c:pBat_CmdCopyFile"), ("trees", "pbat/command/pBat_Copy.c:pBat_CmdCopyRecursive")])
