"""registry of the checks: property -> contracts, harnesses"""
CHECKS = {
 "S01": dict(
  title="Dynamic strings hold exactly what was put in them",
  spec="estr.spec",
  harness=[dict(src="estr.c", link=["libpbat/estr/pBat_Estr.c"],
           bound="lengths 0..10000 around every capacity step, random contents; replace over all strings <=6 and patterns <=3 on {a,b} plus random; line reading of random files")],
  bounded=["pBat_EsGet (fgets on a stream)"],
 ),
 "S02": dict(
  title="Carets and quotes protect characters everywhere",
  spec="string.spec",
  harness=[dict(src="string.c", link=["libpbat/cmdlib/pBat_String.c"],
           bound="every text up to 7 characters over ^ \" & a, up to 5 over ^ \" space , @ a, 15000 random texts up to 200 characters")],
 ),
}
FULL = dict(full=True, ldflags=["-Wl,--wrap=pBat_ShowErrorMessage"])
CHECKS["S03"] = dict(
  title="The environment is a case-insensitive map with frames",
  spec="setlocal.spec",
  harness=[dict(src="env.c", bound="3000 random histories of set/unset/setlocal/endlocal/call/return over 24 names in random case, lookups by keys at addresses of either sign, tables of 127..700 variables", **FULL)],
  bounded=["pBat_SetEnvEx, pBat_UnSetEnv, pBat_GetEnv, pBat_InitEnv, pBat_EnvFree, pBat_GetEnvBlock, pBat_PushEnvLocals, pBat_PopEnvLocals (tables sorted through qsort/bsearch with a function pointer)"],
  assumptions=["strcasecmp orders byte strings; tolower is that of the C locale"],
)
CHECKS["S04"] = dict(
  title="Special variables", spec="var.spec",
  harness=[dict(src="var.c", cflags=["-DPROP=4"], bound="every text up to 5 characters over ~ f a I n p blank, all pairs/triples of modifiers, 20000 random modifier lists over 17 file names, histories of 20000 assignments", **FULL)],
)
CHECKS["S05"] = dict(
  title="Options of %v:...%", spec="getvar.spec",
  harness=[dict(src="var.c", cflags=["-DPROP=5"], bound="all offsets and lengths in -13..13 and around the int limits, 40000 random options, values up to 3000 bytes", **FULL)],
)
CHECKS["S06"] = dict(
  title="Expansion", spec="expand.spec",
  harness=[dict(src="var.c", cflags=["-DPROP=6"], bound="every line up to 6 characters over % ^ ! 1 p ~, up to 5 over % i * : p blank, 30000 random lines of up to 12 items; both modes", **FULL)],
)
CHECKS["S04"]["bounded"] = ["pBat_GetLocalVar, pBat_GetVar's options (text of the result)"]
CHECKS["S05"]["bounded"] = ["which characters the options select and what replacement yields (the proof covers memory safety for every number and text, and that value, name and directory are unchanged)"]
CHECKS["S05"]["assumptions"] = ["names shorter than 4096 and values shorter than 65536 bytes; allocation succeeds"]
CHECKS["S06"]["bounded"] = ["the expanded text itself (the proof covers memory safety, termination and separation of the buffers for every line)", "pBat_GetLocalVar, pBat_DelayedExpand"]
CHECKS["S06"]["assumptions"] = ["lines shorter than 65536 bytes, single expansions shorter than 4096; allocation succeeds"]
CHECKS["S15"] = dict(
  title="Paths", spec="path.spec",
  harness=[dict(src="path.c", bound="every path up to 6 characters over a . / backslash caret and up to 7 over a . / :, random paths of up to 2000 characters, components around the 4096-byte limit, 30000 names around the device names, directories and names around every buffer step, random lookups in a tree of 6 directories", **FULL)],
  bounded=["pBat_MakePath, pBat_GetFilePath (variadic; environment and file system)"],
)
CHECKS["S07"] = dict(
  title="Arguments", spec="shift.spec",
  harness=[dict(src="args.c", bound="every text up to 7 characters over a quote caret blank and up to 5 over 9 characters, 15000 random texts, 4000 histories of 4 SHIFTs on up to 22 arguments, 400 whole CALLs", **FULL)],
  bounded=["the text of each argument (the proof covers memory safety, termination and progress for every line)", "which arguments beyond the ninth SHIFT draws, pBat_CmdCallFile, pBat_GetParamList"],
)
def prog(p, what): return dict(src="prog.c", cflags=["-DPROP=%d" % p], bound="6000 random programs of up to 5 lines and depth 3, mostly " + what, **FULL)
CHECKS["S09"] = dict(title="Operators and redirections", spec="exec.spec", harness=[prog(9, "operators and redirections"), dict(src="input.c", bound="1500 random scripts that read lines from files, pipes and the input of the script", **FULL)])
CHECKS["S10"] = dict(title="Blocks", spec="block.spec", harness=[prog(10, "blocks and conditions nested in each other")])
CHECKS["S11"] = dict(title="Conditions", spec="if.spec", harness=[prog(11, "conditions")])
CHECKS["S12"] = dict(title="Expressions", spec="ifexp.spec", harness=[prog(12, "conditions between square brackets")])
CHECKS["S16"] = dict(title="Loops", spec="loops.spec", harness=[prog(16, "loops")])
CHECKS["S18"] = dict(title="Jumps and calls", spec="jump.spec", harness=[prog(18, "jumps and calls")])

CHECKS["S08"] = dict(title="Splitting lines", spec="parse.spec",
  harness=[dict(src="parse.c", bound="every line up to 6 characters over a & | ^ quote blank >, over 1 2 < > & a blank, and over 1 > quote ^ & a 2; 20000 random lines of up to 12 pieces, lines around the buffer steps", **FULL)])

CHECKS["S16"]["harness"].append(dict(src="forf.c", bound="5000 random FOR /F loops (options in any order, files, several files, texts), 24000 tokens of random lines, 5000 lists of tokens up to 104 sets", **FULL))
CHECKS["S11"]["harness"].append(dict(src="cond.c", bound="60000 random comparisons of numbers in every notation and texts", **FULL))

CHECKS["S08"]["bounded"] = ["pBat_ParseOutput and pBat_ParseLine (which characters form a redirection and what remains of the command), pBat_DuplicateParsedLine"]
CHECKS["S09"]["bounded"] = ["pBat_RunParsedLine, pBat_RunCommand, pBat_LaunchPipe (dispatch through the command table, threads)"]
CHECKS["S10"]["bounded"] = ["pBat_RunBlock, pBat_CmdBlock, pBat_LookAHeadMakeParsedLine (which commands run)"]
CHECKS["S11"]["bounded"] = ["pBat_CmdIf (which branch runs; the proof covers the comparison of any two texts by any operator)"]
CHECKS["S12"]["bounded"] = ["pBat_IfExp_ParseLine, pBat_IfExp_Parse, pBat_IfExp_Cut, pBat_IfExp_SuppressBrackets (the tree that is built; the proof covers its evaluation)"]
CHECKS["S16"]["bounded"] = ["pBat_CmdFor, pBat_CmdForSimple, pBat_CmdForF, pBat_ForMakeTokens, pBat_ForSplitTokens, pBat_ForMakeInfo, pBat_ForGetInputLine (the proof covers the values of FOR /L, the token each number or range selects in any line, and the variables that are undefined afterwards)"]
CHECKS["S16"]["assumptions"] = ["numbers of FOR /L fit in an int and the step is not negative", "the body of a loop leaves a well-formed block of variables, the same block as before (pBat_RunForBody is assumed)"]
CHECKS["S18"]["bounded"] = ["pBat_CmdGoto, pBat_CmdCall, pBat_CmdCallFile, pBat_RunBatch, pBat_LoadBatchScript, pBat_JumpToLabel_Cmdly (the proof covers which label of any script is chosen)"]

FILES = dict(full=True, ldflags=FULL["ldflags"] + ["-Wl,--wrap=%s" % f for f in ("remove", "rmdir", "unlink", "rename", "open", "mkdir", "write")])
CHECKS["S13"] = dict(title="Wildcards", spec="glob.spec", harness=[dict(src="file.c", cflags=["-DPROP=13"], bound="every pattern and text up to 5 characters over * ? a b and a b A, 60000 random ones with multi-byte characters, 7500 searches in 250 random trees, 300 loops", **FILES)])
CHECKS["S14"] = dict(title="Deletion", spec="attr.spec", harness=[dict(src="file.c", cflags=["-DPROP=14"], bound="1500 DEL and 750 RD commands with random switches, names and answers in random trees with links", **FILES)])
CHECKS["S17"] = dict(title="Copies", spec="copy.spec", harness=[dict(src="file.c", cflags=["-DPROP=17"], bound="2500 COPY and MOVE commands, 500 of whole trees, 310 on a disk that fills up", **FILES)])

CHECKS["S13"]["bounded"] = ["pBat_GetMatch, pBat_GetMatchFileList, pBat_GetMatchFileCallback (the search through directories), FOR's search (the proof covers which names match which pattern)"]
CHECKS["S13"]["assumptions"] = ["toupper and strcasecmp agree and only the zero byte has the upper case of the zero byte", "multi-byte characters are UTF-8", "patterns and names shorter than 2^30 bytes"]
CHECKS["S14"]["bounded"] = ["pBat_CmdDel, pBat_CmdRmdir, pBat_GetMatchFileList (the proof covers the meaning of attributes, the partition of a list of files by them, the question and its answers, and what is removed after each)"]
CHECKS["S14"]["assumptions"] = ["an answer has fewer than 2^31 characters", "lists of files are well formed (numbered in order)", "the answers' texts are not empty", "pBat_AskConfirmation is called with its default reader"]
CHECKS["S17"]["bounded"] = ["pBat_CmdCopy, pBat_CmdCopyRecursive, pBat_CmdMakeDirs (the proof covers what happens to one file: the question, the copy, the concatenation, the renaming)"]
CHECKS["S17"]["assumptions"] = ["files are regular, stay as they are during the copy and write() makes progress or fails", "pBat_MakePath yields a well-formed string"]
