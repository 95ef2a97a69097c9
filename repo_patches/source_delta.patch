From ff98aebb4c78574ab7ae09a0becbb570a96b71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 01/67] fix: order unset environment slots after every name

The comparison subtracted unrelated pointers and truncated the result to
int, so that lookups could miss variables once some had been unset.
---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f598f00..0d3c1a4 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -37,7 +37,7 @@ int pBat_EnvCompName(const void* p1, const void* p2)
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
 
     if ((pVar1->name == NULL) || (pVar2->name == NULL))
-        return pVar2->name - pVar1->name;
+        return (pVar1->name == NULL) - (pVar2->name == NULL);
 
     return stricmp(pVar1->name, pVar2->name);
 }
-- 
2.43.0


From aea9e742f55768f8b6970162c2e9a92a8bfc54da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 02/67] fix: find local variables whatever the case of the
 other names

The environment is sorted ignoring case, the search for the variables
starting with an underscore compared raw characters the wrong way round.
---
 pbat/core/pBat_Env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 0d3c1a4..3ee3825 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -25,6 +25,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 
 #include "../errors/pBat_Errors.h"
 #include "pBat_Core.h"
@@ -49,7 +50,7 @@ int pBat_EnvCompLocal(const void* p1, const void* p2)
     if ((pVar2->name == NULL))
         return - PBAT_ENV_LOCAL_PREFIX;
 
-    return *(pVar2->name) - PBAT_ENV_LOCAL_PREFIX;
+    return PBAT_ENV_LOCAL_PREFIX - tolower((unsigned char)*(pVar2->name));
 }
 
 #define PBAT_ENV_BLOCK_MASK 0x7F
-- 
2.43.0


From fe933744c4316199e34e2087100a270cda217c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 03/67] fix: do not let a new variable take the inherit flag of
 an unset one

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 3ee3825..f1b603b 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -316,7 +316,7 @@ error:
 
         (*pRes)->name = namecpy;
         (*pRes)->previous = NULL;
-        (*pRes)->inherit |= inherit;
+        (*pRes)->inherit = inherit;
 
     } else {
 
-- 
2.43.0


From fe2cd6e258fcbdb01b2d997b683953daaa1a6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 04/67] fix: let ENDLOCAL restore the options SETLOCAL changed

The options were saved after SETLOCAL had already changed them.
---
 pbat/command/pBat_Setlocal.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 3ed91e5..69433a1 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -60,6 +60,8 @@ int pBat_CmdSetLocal(char* lpLine)
 	char lpName[FILENAME_MAX];
 	char* lpNext=lpLine+8;
 	int push = 1,
+        delayed = bDelayedExpansion,
+        correct = bCmdlyCorrect,
         status = PBAT_NO_ERROR;
 
 	while ((lpNext=pBat_GetNextParameter(lpNext, lpName, FILENAME_MAX))) {
@@ -124,9 +126,16 @@ int pBat_CmdSetLocal(char* lpLine)
 
 	}
 
-	if (push)
+	if (push) {
+
         pBat_PushEnvStack();
 
+        /* what ENDLOCAL restores is the state before this command */
+        lpesEnv->bDelayedExpansion = delayed;
+        lpesEnv->bCmdlyCorrect = correct;
+
+	}
+
 	return iErrorLevel;
 }
 
-- 
2.43.0


From 821d441a347f1156bf822cb3b674c4b69d14c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 05/67] fix: do not list unset variables

SET without argument printed (null)=(null) for every unset variable.
---
 pbat/command/pBat_Set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 8443b6c..d93bec8 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -203,9 +203,9 @@ int pBat_CmdSet(char *lpLine)
 		   which match with the prefix (if defined)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
-			if (*lpLine == '\0'
-                || ((lpeEnv->envbuf[i]->name != NULL)
-                    && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
+			if ((lpeEnv->envbuf[i]->name != NULL)
+                && (*lpLine == '\0'
+                    || !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
 
 				found = TRUE;
 
-- 
2.43.0


From 8593ecbd5d51e83f0625738f4dfbbd3366bafaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 06/67] fix: strip the blanks after the name when unsetting a
 variable too

---
 pbat/core/pBat_Env.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f1b603b..3da894f 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -262,18 +262,19 @@ void pBat_SetEnvEx(ENVBUF* pEnv, char* name, const char* content, int inherit)
 
     /* int i; */
 
+    if (!(namecpy = strdup(name)))
+        goto error;
+
+    pBat_AdjustVarName(namecpy);
+
     if (content == NULL || *content == '\0') {
 
-        pBat_UnSetEnv(pEnv, name);
+        pBat_UnSetEnv(pEnv, namecpy);
+        free(namecpy);
     	return;
 
     }
 
-    if (!(namecpy = strdup(name)))
-        goto error;
-
-    pBat_AdjustVarName(namecpy);
-
     key.content = NULL;
     key.name = namecpy;
 
-- 
2.43.0


From 87d1584ae6439ea0d726e84488378ea9b2505d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 07/67] fix: keep the trailing blanks of inherited environment
 values

---
 pbat/core/pBat_Env.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 3da894f..891e93e 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -194,10 +194,10 @@ error:
 
         }
 
-        pBat_AdjustVarName(pStr);
-
         *(pCh++) = '\0';
 
+        pBat_AdjustVarName(pStr);
+
         pBuf[nb] = pBat_AllocEnvVar(pStr, pCh);
 
         free(pStr);
-- 
2.43.0


From 40ace8831deccc8a9a164470672651e69fb7a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 08/67] fix: do not expand %~z, %~t and %~a of a missing file
 from uninitialised memory

---
 pbat/core/pBat_Var.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index fff0263..b5ace36 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -496,9 +496,10 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
             pBat_EsCpy(lpRecieve, ifIn.lpFileName);
         else
             lpPos=pBat_EsToFullPath(lpRecieve);
-
-
-		stat(lpRecieve->str, &stFileInfo);
+
+
+		if (stat(lpRecieve->str, &stFileInfo))
+			memset(&stFileInfo, 0, sizeof(stFileInfo)); /* no such file */
 
 #if defined WIN32
 		stFileInfo.st_mode=GetFileAttributes(lpRecieve->str);
@@ -510,7 +511,7 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
         /* Override the content of %0 to be the current path */
         if (cVarName == '0')
             pBat_EsCpy(lpRecieve, ifIn.lpFileName);
-        else
+        else
             pBat_EsToFullPath(lpRecieve);
 
 		pBat_SplitPath(lpRecieve->str, lpDrive, lpDir, lpFileName, lpExt);
@@ -522,8 +523,8 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 
 		*pBat_EsToChar(lpRecieve) = '\0';
 
-		for (i=0; cFlag[i]!=0; i++) {
-
+		for (i=0; cFlag[i]!=0; i++) {
+
 			switch (cFlag[i]) {
 
 			case 'f':
-- 
2.43.0


From fe18561e0716a76aabdcbe9fac9c10392550e2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 09/67] fix: expand %~z of files larger than 2 GB to their
 actual size

---
 pbat/core/pBat_Var.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index b5ace36..c3333fc 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -569,7 +569,7 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 				break;
 
 			case 'z':
-				sprintf(lpBuffer, "%d%c", (int)stFileInfo.st_size, (cFlag[i+1]!=0 ? '\t' : '\0'));
+				sprintf(lpBuffer, "%lld%c", (long long)stFileInfo.st_size, (cFlag[i+1]!=0 ? '\t' : '\0'));
 				pBat_EsCat(lpRecieve, lpBuffer);
 				break;
 
-- 
2.43.0


From f4f969892c2ae9d118cbd2cc2723c54714ccf3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 10/67] fix: count negative positions of %var:~n,m% from the
 end whatever the length

---
 pbat/core/pBat_Var.c | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index c3333fc..e51bd42 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -230,21 +230,9 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
         iTotalLen=strlen(lpVarContent);
 #endif // PBAT_USE_LIBCU8
 
-		if (iBegin < 0) {
-
-            if (iLen > 0) {
-
-                if ( (iTotalLen+iBegin) >= iLen)
-                    iBegin = iTotalLen + iBegin;
-
-            } else {
-
-                if ( iBegin <= iLen )
-                    iBegin = iTotalLen + iBegin;
-
-            }
-
-        }
+		/* negative positions are counted from the end of the string */
+		if (iBegin < 0)
+			iBegin += iTotalLen;
 
         if (iBegin < 0 || iBegin > iTotalLen) {
 
-- 
2.43.0


From 9051cab69d7f6376ea342f6b8809118c66e96794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 11/67] fix: avoid integer overflows on huge lengths in
 %var:~n,m%

---
 pbat/core/pBat_Var.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index e51bd42..879cfb0 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -245,7 +245,7 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 
 		} else if (iLen > 0) {
 
-			if ((iBegin+iLen)<= iTotalLen) {
+			if (iLen <= iTotalLen-iBegin) {
 				/* if the strings is right */
 
 #ifdef PBAT_USE_LIBCU8
@@ -264,7 +264,7 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 
 		} else if (iLen <= 0) {
 
-			if (abs(iLen) <= iTotalLen-iBegin) {
+			if (iLen >= iBegin-iTotalLen) {
 
 				/* if the string is right too
 				   but the lenght given is negative, such as -3
-- 
2.43.0


From 9f61b48765217aaac264c8f1a8c1b69e1603f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 12/67] fix: do not read the freed buffer when making a long
 name absolute

---
 pbat/core/pBat_FilePath.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 3cd435a..f552d44 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -159,7 +159,9 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
                                             -1);
     }
 
-    memmove(full->str + size + 1, p, len);
+    /* a relative name is never translated, so that it still lies at the
+       beginning of the buffer, which may just have moved */
+    memmove(full->str + size + 1, full->str, len);
     memcpy(full->str, lpCurrentDir, size);
     *(full->str + size) = *(PBAT_DEF_DELIMITER); /* DEF_DELIMITER is a string literal */
 
-- 
2.43.0


From a7925132bc1cd65a0164474f5397a6ccdb0d75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 13/67] fix: do not loop forever when the text to be replaced
 is empty

---
 libpbat/estr/pBat_Estr.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index c649590..7a7b465 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -415,7 +415,12 @@ LIBPBAT int pBat_EsReplace(ESTR* ptrESTR, const char* ptrPattern, const char* pt
 {
     char* lpBuffer=pBat_EsToChar(ptrESTR), *lpToken;
     int iLength=strlen(ptrPattern);
-    ESTR *lpReturn=pBat_EsInit();
+    ESTR *lpReturn;
+
+    if (iLength == 0)
+        return 0; /* nothing to replace */
+
+    lpReturn=pBat_EsInit();
 
     while ((lpToken=strstr(lpBuffer, ptrPattern))) {
 
@@ -464,7 +469,12 @@ LIBPBAT int pBat_EsReplaceI(ESTR* ptrESTR, const char* ptrPattern, const char* p
 {
     char* lpBuffer=pBat_EsToChar(ptrESTR), *lpToken;
     int iLength=strlen(ptrPattern);
-    ESTR *lpReturn=pBat_EsInit();
+    ESTR *lpReturn;
+
+    if (iLength == 0)
+        return 0; /* nothing to replace */
+
+    lpReturn=pBat_EsInit();
 
     while ((lpToken=(char *)stristr(lpBuffer, ptrPattern))) {
 
-- 
2.43.0


From 61e53e4fa15c8953e116065ae6df127c02dccc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 14/67] fix: make the case-insensitive replacement find the
 start of each occurrence

---
 libpbat/estr/pBat_Estr.c | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index 7a7b465..280c7bc 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -442,26 +442,16 @@ LIBPBAT int pBat_EsReplace(ESTR* ptrESTR, const char* ptrPattern, const char* pt
 
 char * stristr(const char* str, const char *pattern)
 {
-    char c/*,
-         *pattern_start=pattern*/;
-    size_t size;
+    size_t size = strlen(pattern);
 
-    if (*pattern == '\0')
+    if (size == 0)
         return (char *)str;
 
-    c = tolower(*pattern++);
-    size = strlen(pattern);
+    for (; *str; str++)
+        if (!strnicmp(str, pattern, size))
+            return (char *)str;
 
-    do {
-
-        while (*str && c != tolower(*str++));
-
-        if (*str == '\0')
-            return NULL;
-
-    } while (strnicmp(str, pattern, size));
-
-    return (char *)str;
+    return NULL;
 
 }
 
-- 
2.43.0


From c7d0a375416cacea721b74e5f44a1acbb0d9f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 15/67] fix: always terminate the components of an overlong
 path

---
 pbat/core/pBat_SplitPath.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pbat/core/pBat_SplitPath.c b/pbat/core/pBat_SplitPath.c
index 4a8821b..00688f6 100644
--- a/pbat/core/pBat_SplitPath.c
+++ b/pbat/core/pBat_SplitPath.c
@@ -30,8 +30,8 @@ void pBat_SplitPath(char* lpPath,
 	char* lpNextToken, *lpToken=lpPath;
 	char cSaveChar;
 
-	if (*lpToken
-        && (!strncmp(lpToken + 1, ":\\", 2)
+	if (*lpToken
+        && (!strncmp(lpToken + 1, ":\\", 2)
             || !strncmp(lpToken + 1, ":/", 2))) {
 
         PBAT_DBG("Found disk_name=\"%c\"\n", *lpToken);
@@ -57,7 +57,7 @@ void pBat_SplitPath(char* lpPath,
 		PBAT_DBG("found path=\"%s\"\n", lpToken);
 
 		if (lpDir)
-			strncpy(lpDir, lpToken, _MAX_DIR);
+			snprintf(lpDir, _MAX_DIR, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken;
@@ -78,7 +78,7 @@ void pBat_SplitPath(char* lpPath,
 
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken+1;
@@ -91,7 +91,7 @@ void pBat_SplitPath(char* lpPath,
 	} else {
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		if (lpExt)
 			*lpExt='\0';
-- 
2.43.0


From be40c9ce5a44520ae83b5bc9d7e2b20bc7b676a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 16/67] fix: avoid an integer overflow on device names with a
 huge negative number

---
 pbat/core/pBat_OsStream.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/core/pBat_OsStream.c b/pbat/core/pBat_OsStream.c
index 96d0251..b97897a 100644
--- a/pbat/core/pBat_OsStream.c
+++ b/pbat/core/pBat_OsStream.c
@@ -61,19 +61,19 @@ const char* _pBat_GetOsStreamName(const char* str)
 
     if (!strnicmp(str, "LPT", 3)) {
 
-        i = strtol(str+3, &pCh, 10) - 1;
+        i = strtol(str+3, &pCh, 10);
 
         if (!pCh || !*pCh)
-            CHOOSE_STREAM("/dev/lpt", i);
+            CHOOSE_STREAM("/dev/lpt", i - 1L);
 
     }
 
     if (!strnicmp(str, "COM", 3)) {
 
-        i = strtol(str+3, &pCh, 10) - 1;
+        i = strtol(str+3, &pCh, 10);
 
         if (!pCh || !*pCh)
-            CHOOSE_STREAM("/dev/ttyS", i);
+            CHOOSE_STREAM("/dev/ttyS", i - 1L);
 
      }
 
-- 
2.43.0


From 0272eeaa73c75cd7c642f51a8efb1ce7b42fa8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 17/67] fix: accept SHIFT /7

---
 pbat/command/pBat_Shift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Shift.c b/pbat/command/pBat_Shift.c
index cfad794..fdd5ace 100644
--- a/pbat/command/pBat_Shift.c
+++ b/pbat/command/pBat_Shift.c
@@ -76,6 +76,7 @@ int pBat_CmdShift(char* lpLine)
 				case '4':
 				case '5':
 				case '6':
+				case '7':
 				case '8':
 				case '9':
 					iBegin=*lpToken-'0'; /* well, we assume that all numbers
-- 
2.43.0


From 58df556745a4db12413d32833f84a8c1aaacbbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 18/67] fix: skip the arguments SHIFT moves out of range

---
 pbat/command/pBat_Shift.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Shift.c b/pbat/command/pBat_Shift.c
index fdd5ace..0d1651f 100644
--- a/pbat/command/pBat_Shift.c
+++ b/pbat/command/pBat_Shift.c
@@ -56,6 +56,7 @@ int pBat_CmdShift(char* lpLine)
 	char *lpToken;
 	int iBegin=0,        /* the first parameter to be displaced */
 	    iDisplacement=1, /* the displacement of parameters on the left */
+	    iSkip,           /* the remaining arguments displaced out of range */
 	    status = PBAT_NO_ERROR;
 
 	lpLine+=5;
@@ -188,6 +189,8 @@ int pBat_CmdShift(char* lpLine)
 
 	}
 
+	iSkip = iBegin + iDisplacement - 10;
+
 	/* Displace command-line arguments */
 	while ((iBegin+iDisplacement) < 10) {
 
@@ -211,8 +214,12 @@ int pBat_CmdShift(char* lpLine)
         /* if there is some remaining arguments */
         if (lpToken && *lpToken != '\0') {
 
+            /* these are moved before the first argument to be set */
+            while (iSkip-- > 0 && lpToken)
+                lpToken = pBat_GetNextParameterEs(lpToken, lpEsArg);
+
             /* fill arguments with arguments remaining in "%+" */
-            while (iBegin < 10
+            while (lpToken && iBegin < 10
                    && (lpToken = pBat_GetNextParameterEs(lpToken, lpEsArg))) {
 
                 pBat_SetLocalVar(lpvArguments, '0'+iBegin, lpEsArg->str);
-- 
2.43.0


From f9857d7254a21552172712dc2d109b902edaeec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 19/67] fix: keep the arguments beyond the ninth intact for
 SHIFT

---
 pbat/command/pBat_Call.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index caac732..28e1e25 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -317,12 +317,18 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
         lpEsCmd = pBat_EsInit_Cached();
 
         while ((lpCmdLine = pBat_GetNextParameterEs(lpCmdLine, lpEsParam))) {
+            pBat_EsReplace(lpEsParam, "^", "^^");
+            pBat_EsReplace(lpEsParam, "%", "^%");
+            pBat_EsReplace(lpEsParam, "!", "^!");
             pBat_EsReplace(lpEsParam, " ", "^ ");
             pBat_EsReplace(lpEsParam, ";", "^;");
             pBat_EsReplace(lpEsParam, ",", "^,");
             pBat_EsReplace(lpEsParam, "\t", "^\t");
             pBat_EsReplace(lpEsParam, "\"", "^\"");
 
+            if (*(lpEsParam->str) == '\0')
+                pBat_EsCpy(lpEsParam, "\"\"");
+
             pBat_EsCatE(lpEsCmd, lpEsParam);
             pBat_EsCat(lpEsCmd, " ");
 
-- 
2.43.0


From bc03d85c784cd150ee68978e6c4845ab6db6b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 20/67] fix: do not expand the arguments of programs twice

---
 pbat/core/pBat_Args.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index 83ab27f..0db22bb 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -305,8 +305,6 @@ struct PARAMLIST* pBat_GetParamList(char* lpLine)
         next->next = NULL;
         next->param = lpParam;
 
-		pBat_DelayedExpand(lpParam);
-
 		lpParam=pBat_EsInit_Cached();
 
 		lpLine=lpNext;
-- 
2.43.0


From ff769f7924b786657565f472d6f51c8728366516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 21/67] fix: compare the error level in IF ERRORLEVEL

IF ERRORLEVEL looked up an environment variable that normally does not exist
and crashed. Compare the current error level with the number, as documented.
---
 pbat/command/pBat_If.c    | 2 +-
 pbat/command/pBat_If.h    | 4 ++--
 pbat/command/pBat_IfExp.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 6bb22fc..51896b3 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -148,7 +148,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
 		}
 
-        PBAT_IF_ERRORLEVEL_TEST(iResult, lpArgument, lpeEnv);
+        PBAT_IF_ERRORLEVEL_TEST(iResult, lpArgument);
 
 		if (iFlag & PBAT_IF_NEGATION)
 			iResult=!iResult;
diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 16c279e..be4e28d 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -54,8 +54,8 @@
 #define PBAT_IF_DEFINED_TEST(ret, var, env) \
     ret = (pBat_GetEnv(env, var) != NULL);
 
-#define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    ret = !stricmp(val, pBat_GetEnv(env, "ERRORLEVEL"));
+#define PBAT_IF_ERRORLEVEL_TEST(ret, val) \
+    ret = (iErrorLevel >= strtol(val, NULL, 0));
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index cce9da2..630fea6 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -195,7 +195,7 @@ int pBat_IfExp_ExecuteTest(ifexp_line_t* test, int flags)
     } else if (!stricmp(test->op->str,  "ERRORLEVEL")) {
 
         NEXT_ELEMENT(test);
-        PBAT_IF_ERRORLEVEL_TEST(result, test->op->str, lpeEnv);
+        PBAT_IF_ERRORLEVEL_TEST(result, test->op->str);
 
     } else {
 
-- 
2.43.0


From d877eedbd5a78efdd0c1123c30f4d8c8ffb125a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 22/67] fix: do not look before an empty left side in IF ==

The hack that removes the quotes left by "a"=="b" read the byte before an
empty left side, and skipped the first character of the right side even when
it was not a quote.
---
 pbat/command/pBat_If.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 51896b3..10f4606 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -241,7 +241,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 				*/
 				char *q = (lpToken2 + strlen(lpToken2) - 1);
 
-				if (*q == '"') {
+				if (*lpToken2 != '\0' && *q == '"' && *lpToken == '"') {
 					*q = '\0';
 					lpToken++;
 				}
-- 
2.43.0


From 6ec3173e793d467cc8837b8b7b65b58b3505b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 23/67] fix: skip the line of an IF with an unknown comparison

As for the other errors of IF, free the left side and do not run the rest
of the line.
---
 pbat/command/pBat_If.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 10f4606..6c81fd8 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -295,7 +295,12 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
                 if (iResult == -1) {
 
                     /* there is a syntax error, obviously */
-                    return -1;
+                    pBat_EsFree_Cached(lpComparison);
+
+                    if (lpplLine)
+                        *lpplLine = NULL;
+
+                    return PBAT_UNEXPECTED_ELEMENT;
 
                 }
 
-- 
2.43.0


From 65e8b9d9c8973c1e70ff6b79a53417c4c8420561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 24/67] fix: do not take empty strings for numbers in IF

An empty side compared equal to 0 and the strings "inf" and "nan" as floats,
though they are no numbers; integers too large for the type compared equal.
---
 pbat/command/pBat_If.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 6c81fd8..69b625d 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -21,6 +21,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <math.h>
 #include <string.h>
 
@@ -445,18 +446,29 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
         0 -> int */
 int pBat_GetCmpValue(const char* number, double* value)
 {
-    int val;
+    const char* begin = pBat_SkipBlanks(number);
     char* end;
     int f=0;
 
+    /* empty strings and names such as "inf" or "nan", that strtol() and
+       strtod() both accept, are no numbers */
+    if (*begin == '+' || *begin == '-')
+        begin ++;
+
+    if (!((*begin >= '0' && *begin <= '9') || *begin == '.'))
+        return -1;
+
     while (1) {
 
+        errno = 0;
+
         if (f == 0)
             *value = (double)strtol(number, &end, 0);
         else /* Double mode chosen */
             *value = strtod(number, &end);
 
-        if (*pBat_SkipBlanks(end) != '\0'){
+        if (end == number || *pBat_SkipBlanks(end) != '\0'
+            || (f == 0 && errno == ERANGE)) {
             if (f == 0)
                 f = 1;
             else
-- 
2.43.0


From 71086a86c2068c500908086d74ff024a56cbbf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 25/67] fix: do not read an unset result in IF expressions

The else of the shortcut for OR belonged to the inner if, so that AND tested
a variable not yet set, and could be true though its right side is false.
---
 pbat/command/pBat_IfExp.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 630fea6..571f09e 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -134,12 +134,17 @@ int pBat_IfExp_Evaluate(ifexp_t* exp, int flags)
 
     /* take a shortcut here, on some occasions you don't have to
        evaluate the left hand side of the expression */
-    if (exp->type == IFEXP_AND )
+    if (exp->type == IFEXP_AND) {
+
         if (!res1)
             return 0;
-    else if (res2)
+
+    } else if (res1) {
+
         return 1;
 
+    }
+
     if (exp->child2.type == IFEXP_NODE_OPS) {
 
         res2 = pBat_IfExp_ExecuteTest(exp->child2.child.ops, flags);
-- 
2.43.0


From 3c310909555973df9479293580fcbf2cd2c2eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 26/67] fix: make AND bind tighter than OR in IF expressions

The manual gives precedence to AND, but the line was first cut at AND.
---
 pbat/command/pBat_IfExp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 571f09e..f0404b2 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -242,23 +242,23 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     if (!(exp = malloc(sizeof(ifexp_t))))
         return NULL;
 
-    if (pBat_IfExp_Cut("AND", &line, &rhs)) {
+    if (pBat_IfExp_Cut("OR", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_AND;
+        exp->type = IFEXP_OR;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
 
 
-    } else if (pBat_IfExp_Cut("OR", &line, &rhs)) {
+    } else if (pBat_IfExp_Cut("AND", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_OR;
+        exp->type = IFEXP_AND;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
-- 
2.43.0


From 79441f221374551da6d357e3d4a89edb1a58718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 27/67] fix: reject malformed IF expressions instead of
 crashing

A side that is missing, or brackets that are not balanced, freed elements
twice or left a NULL side to be evaluated, and the command crashed. Free both
sides and report the invalid expression.
---
 pbat/command/pBat_IfExp.c | 76 +++++++++++++++++++++------------------
 pbat/command/pBat_IfExp.h |  2 +-
 2 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index f0404b2..e99236b 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -239,60 +239,57 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     if (line == NULL)
         return NULL;
 
-    if (!(exp = malloc(sizeof(ifexp_t))))
+    if (!(exp = malloc(sizeof(ifexp_t)))) {
+
+        pBat_IfExp_FreeLine(line);
         return NULL;
 
-    if (pBat_IfExp_Cut("OR", &line, &rhs)) {
+    }
 
-        if (line == NULL || rhs == NULL)
-            goto error;
+    if (pBat_IfExp_Cut("OR", &line, &rhs)) {
 
         exp->type = IFEXP_OR;
 
-        pBat_IfExp_FillChild(&(exp->child1), line);
-        pBat_IfExp_FillChild(&(exp->child2), rhs);
-
-
     } else if (pBat_IfExp_Cut("AND", &line, &rhs)) {
 
-        if (line == NULL || rhs == NULL)
-            goto error;
-
         exp->type = IFEXP_AND;
 
-        pBat_IfExp_FillChild(&(exp->child1), line);
-        pBat_IfExp_FillChild(&(exp->child2), rhs);
-
     } else {
 
         exp->type = IFEXP_NONE;
         exp->child1.type = IFEXP_NODE_OPS;
         exp->child1.child.ops = line;
 
+        return exp;
+
     }
 
-    return exp;
+    /* both sides become the property of exp, or are freed if malformed */
+    if (pBat_IfExp_FillChild(&(exp->child1), line)) {
 
-error:
-    free(exp);
-    return NULL;
-}
+        pBat_IfExp_FreeLine(rhs);
+        free(exp);
+        return NULL;
 
-void pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line)
-{
+    }
 
-    pBat_IfExp_SuppressBrackets(&line);
+    if (pBat_IfExp_FillChild(&(exp->child2), rhs)) {
 
-    if ((child->child.exp = pBat_IfExp_Parse(line))) {
+        pBat_IfExp_Free(exp->child1.child.exp);
+        free(exp);
+        return NULL;
 
-        child->type = IFEXP_NODE_EXP;
+    }
 
-    } else {
+    return exp;
+}
 
-        child->child.ops = line;
-        child->type = IFEXP_NODE_OPS;
+int pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line)
+{
 
-    }
+    child->type = IFEXP_NODE_EXP;
+
+    return (child->child.exp = pBat_IfExp_Parse(line)) == NULL;
 
 }
 
@@ -338,6 +335,9 @@ int pBat_IfExp_SuppressOneBracketPair(ifexp_line_t** line)
 
     }
 
+    /* the first bracket is not closed by the last element */
+    if (count != 0)
+        return 0;
 
     /* free the last bracket */
     prev->next = NULL;
@@ -366,6 +366,8 @@ int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end)
         pBat_EsFree_Cached(line->op);
         free (line);
 
+        return 1;
+
     }
 
     if (EQUCHR(line->op->str, '['))
@@ -416,22 +418,26 @@ char * pBat_IfExp_ParseLine(char* line, ifexp_line_t** ops)
 
         }
 
-        if (pBat_IfExp_AddLineElement(str, &ret, &last)) {
-            pBat_IfExp_FreeLine(ret);
-            return NULL;
-        }
+        if (pBat_IfExp_AddLineElement(str, &ret, &last))
+            break;
 
         if (level <= 0) {
-            break;
+
+            *ops = ret;
+            return line;
+
         }
 
         str = pBat_EsInit_Cached();
 
     }
 
-    *ops = ret;
+    /* the brackets are not balanced */
+    pBat_EsFree_Cached(str);
+    pBat_IfExp_FreeLine(ret);
+    *ops = NULL;
 
-    return line;
+    return NULL;
 }
 
 int pBat_IfExp_AddLineElement(ESTR* elem, ifexp_line_t** line, ifexp_line_t** ops)
diff --git a/pbat/command/pBat_IfExp.h b/pbat/command/pBat_IfExp.h
index da487c7..1b6ec63 100644
--- a/pbat/command/pBat_IfExp.h
+++ b/pbat/command/pBat_IfExp.h
@@ -70,7 +70,7 @@ char * pBat_IfExp_Compute(char* line, int* ret, int flags);
 int pBat_IfExp_Evaluate(ifexp_t* exp, int flags);
 int pBat_IfExp_ExecuteTest(ifexp_line_t* test, int flags);
 ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line);
-void pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line);
+int pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line);
 void pBat_IfExp_SuppressBrackets(ifexp_line_t** line);
 int pBat_IfExp_SuppressOneBracketPair(ifexp_line_t** line);
 int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end);
-- 
2.43.0


From 4bce914078ab49f30162ad179c2fc70a7ef61d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 28/67] fix: select the tokens asked for by FOR /F tokens=

The first token was or'ed into the default one, so that tokens=2 selected
the third.
---
 pbat/command/pBat_For.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 092cb61..8fb45d6 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -859,7 +859,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 last = start;
@@ -882,7 +882,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         goto infos_overflow;
 
                     /* write a cat token to infos */
-                    infos->lpToken[i]|=TOHIGH(start)+TOLOW(end);
+                    infos->lpToken[i]=TOHIGH(start)+TOLOW(end);
                     i++;
 
                 } else {
@@ -895,7 +895,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         if (i >= TOKENINFO_NB_MAX )
                             goto infos_overflow;
 
-                        infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                        infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                         i++;
 
                         start ++;
@@ -963,7 +963,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 start ++;
-- 
2.43.0


From dff427905d639c6c3eeedcbbe01c0d5e0e1d5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 29/67] fix: check and release every variable of FOR /F

Only the first variable was checked for being in use, and those after the
wrap at the end of the ASCII table were never released.
---
 pbat/command/pBat_For.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 8fb45d6..256dca6 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1145,10 +1145,14 @@ void pBat_ForVarUnassign(FORINFO* lpfrInfo)
 
 	for (i=0; i<iMax; i++) {
 
-		pBat_SetLocalVar(lpvLocalVars, cVarName+i, NULL);
+		pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
+
+		/* follow the same order as pBat_ForSplitTokens() */
+		cVarName++;
+
+		if (cVarName & 0x80)
+			cVarName=0x21;
 
-		if ((cVarName+i) & 0x80)
-			break;
 	}
 }
 
@@ -1168,8 +1172,12 @@ int pBat_ForVarCheckAssignment(FORINFO* lpfrInfo)
 
 		}
 
+		/* follow the same order as pBat_ForSplitTokens() */
+		cVarName++;
+
 		if (cVarName & 0x80)
-			break;
+			cVarName=0x21;
+
 	}
 
 	return PBAT_NO_ERROR;
-- 
2.43.0


From 647baff6a16628f27cb899b28961b9d245975abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 30/67] fix: do not skip empty lines in FOR /F

The search for an end-of-line character also found the terminating nul, so
empty lines were skipped though the manual says they are not.
---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 256dca6..f3dc6f1 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -587,7 +587,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 		} else {
 
             /* If the line starts with one of the EOL characters, just skip it */
-            if ((lpfrInfo->lpEol[0] != '\0')
+            if (*(lpInputToP->str) != '\0'
                 && (strchr(lpfrInfo->lpEol, *(lpInputToP->str))))
                 continue;
 
-- 
2.43.0


From 37d78c67dab0121bf881aa577599f01bd1dfd266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 31/67] fix: end FOR /L loops that reach the largest integer

The counter overflowed and the loop started again.
---
 pbat/command/pBat_For.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index f3dc6f1..3f87721 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -490,6 +490,8 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
         i=0,
         status = PBAT_NO_ERROR;
 
+	long long iValue; /* does not overflow on the last step */
+
 	char lpValue[]=STR(INT_MIN),
          *lpToken=pBat_EsToChar(lpInput),
          *lpNext;
@@ -533,11 +535,11 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
 	}
 
 	/* execute loop */
-	for (i=iLoopInfo[PBAT_FORL_BEGIN];
-	     i<=iLoopInfo[PBAT_FORL_END];
-	     i+=iLoopInfo[PBAT_FORL_INC]) {
+	for (iValue=iLoopInfo[PBAT_FORL_BEGIN];
+	     iValue<=iLoopInfo[PBAT_FORL_END];
+	     iValue+=iLoopInfo[PBAT_FORL_INC]) {
 
-		snprintf(lpValue, sizeof(lpValue), "%d", i);
+		snprintf(lpValue, sizeof(lpValue), "%d", (int)iValue);
 
 		pBat_SetLocalVar(lpvLocalVars, cVarName, lpValue);
 
-- 
2.43.0


From 12b9d0a6d58c747fb7c5637918451ed058e61769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 32/67] fix: free the line of FOR with the right function

---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 3f87721..1755e4a 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -356,7 +356,7 @@ error:
         *lpplLine = NULL;
 
 	if (!lpplLine && line)
-        pBat_FreeParsedStream(line);
+        pBat_FreeParsedLine(line);
 
 	return status;
 }
-- 
2.43.0


From c0ca07dcc9a7dcd36d72b36ad7da231ab21bac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 33/67] fix: do not crash when FOR /F cannot open a later file

The name shown was never set and the file not opened was closed; the files
already read were left open.
---
 pbat/command/pBat_For.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 1755e4a..14f7b2e 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1446,7 +1446,6 @@ int pBat_ForGetInputLine(ESTR* lpReturn, INPUTINFO* lpipInfo)
 
 	int iReturn=0;
 	char* lpToken;
-	char name[FILENAME_MAX];
 
 loop_begin:
     iReturn=0;
@@ -1469,13 +1468,17 @@ retry:
                 }
 
                 /* if the file list is not finished, then, open the next file */
+                fclose(lpipInfo->Info.InputFile.pFile);
+
                 if (!(lpipInfo->Info.InputFile.pFile =
                         fopen(lpipInfo->Info.InputFile.lpesFiles[
                             		lpipInfo->Info.InputFile.index
                             	]->str, "rb"))) {
 
                     pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
-                            name,
+                            lpipInfo->Info.InputFile.lpesFiles[
+                                lpipInfo->Info.InputFile.index
+                            ]->str,
                             FALSE
                             );
 
@@ -1574,7 +1577,8 @@ void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
 
 		case INPUTINFO_TYPE_STREAM:
 
-            fclose(lpipInfo->Info.InputFile.pFile);
+            if (lpipInfo->Info.InputFile.pFile)
+                fclose(lpipInfo->Info.InputFile.pFile);
 
 			while(lpipInfo->Info.InputFile.lpesFiles[i] != NULL) {
 
-- 
2.43.0


From 664ae5f04ea6d53f8704f5830dc63a52eec2fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 34/67] fix: look for blocks in each command of a line

After a block, any later parenthesis of the line was taken for the start of
another one, and a closing one ended the search, so that operators in later
blocks split the line, or the line was malformed. Only the rest of the same
command can hold further blocks; after an operator start anew.
---
 pbat/core/pBat_ParseBlock.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pbat/core/pBat_ParseBlock.c b/pbat/core/pBat_ParseBlock.c
index 884b24c..5efeafb 100644
--- a/pbat/core/pBat_ParseBlock.c
+++ b/pbat/core/pBat_ParseBlock.c
@@ -202,23 +202,14 @@ char* pBat_GetNextBlockBeginEx(char* pch, int bIsBlockCmd)
 {
     char *next;
 
-    /* try to find a valid block opening */
-    if (bIsBlockCmd) {
-
-        pch = pBat_SearchToken_Hybrid(pch, "", "()");
-
-        if ((pch != NULL) && (*pch == '('))
-            return pch;
-
-        return NULL;
-
-    }
-
     while (1) {
 
         pch = pBat_SkipAllBlanks(pch);
 
-        if ((strnicmp(pch, "if", 2) || !pBat_IsDelim(*(pch + 2)))
+        /* when bIsBlockCmd is set, pch is inside of a command that may
+           contain blocks, but the commands after the next operator have
+           nothing to do with it */
+        if (!bIsBlockCmd && (strnicmp(pch, "if", 2) || !pBat_IsDelim(*(pch + 2)))
                && (strnicmp(pch, "for", 3) ||  !pBat_IsDelim(*(pch + 3)))
                && (strnicmp(pch, "def", 3) || !pBat_IsDelim(*(pch + 3)))
                && *pch != '(' ) {
@@ -234,6 +225,8 @@ char* pBat_GetNextBlockBeginEx(char* pch, int bIsBlockCmd)
 
         }
 
+        bIsBlockCmd = 0;
+
         switch(*next) {
         case '\n':
             next ++;
-- 
2.43.0


From f6cc30c4d74506e0d71321e1da74d7c3f2a9e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 35/67] fix: do not free an unset script when a label is
 missing

---
 pbat/core/pBat_Jump.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 29349be..417b5e6 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -81,7 +81,9 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 
     if (lbl == NULL) {
 
-        pBat_FreeBatchScript(&script);
+        if (new)
+            pBat_FreeBatchScript(&script);
+
         return -1;
 
     }
-- 
2.43.0


From 2a87aa89b1ce5069522d79d945b8f440f2169c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 36/67] fix: keep the script of the caller when CALL finds no
 label

The running script stayed marked as a copy that somebody else owns.
---
 pbat/command/pBat_Call.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 28e1e25..6db3ecf 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -281,6 +281,10 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 		pBat_ShowErrorMessage(PBAT_LABEL_ERROR, lpLabel, FALSE);
 
+		/* resume to the old script as after a call */
+		pBat_FreeBatchScript(&(ifIn.batch));
+		memcpy(&ifIn, &ifOldFile, sizeof(INPUT_FILE));
+
 		status = PBAT_LABEL_ERROR;
 		goto error;
 
-- 
2.43.0


From 5f0f2a95219aa498c3f6c27116c325d7be059b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 37/67] fix: keep the error level of the commands run by IF and
 FOR

As blocks and CALL do. Both set it to 0, so that EXIT /B code inside of an
IF returned 0 to the caller, and GOTO inside of one changed the error level.
---
 pbat/command/pBat_For.c | 2 +-
 pbat/command/pBat_If.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 14f7b2e..baf45f4 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -358,7 +358,7 @@ error:
 	if (!lpplLine && line)
         pBat_FreeParsedLine(line);
 
-	return status;
+	return status ? status : iErrorLevel; /* the commands that ran decide */
 }
 
 int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 69b625d..54ef837 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -437,7 +437,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
     if (lpplLine)
         *lpplLine = NULL;
 
-	return 0;
+	return iErrorLevel; /* the commands that ran decide */
 }
 
 /* Get the value from the chain pointed to by *number and return a value
-- 
2.43.0


From 41a34e930ff977f58790bca5cb4013a314e3b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 38/67] fix: return the code given to EXIT

The text after the code was converted instead, so EXIT always returned 0.
---
 pbat/command/pBat_Exit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index cccd839..a80ff71 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -91,7 +91,7 @@ int pBat_CmdExit(char* lpLine)
 
 		} else {
 
-			ret = atoi(ntoken);
+			ret = atoi(param->str);
 
 		}
 	}
-- 
2.43.0


From 0a72823c5b7640f4b022696720c54ea420e8b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 39/67] fix: do not apply the operator before FOR to each
 iteration

After && or ||, the body was skipped whenever the iteration before failed or
succeeded, and after a pipe it never ran.
---
 pbat/core/pBat_Run.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 63f51fc..ed318ab 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -839,6 +839,10 @@ PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahe
 	pBat_EsCatN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
     pBat_EsCat(cmd, ")");
 
+    /* the operator before the IF or FOR was already applied, it is not to be
+       applied to the commands it runs */
+    lookahead->cNodeType = PARSED_STREAM_NODE_NONE;
+
     if (lookahead->lpCmdLine)
         pBat_EsFree_Cached(lookahead->lpCmdLine);
 
-- 
2.43.0


From db0e0f23a4f844fe545173fc683975110b950ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 40/67] fix: run a copy of the line in each iteration of FOR

An IF or FOR that follows an operator in the body replaced itself by its own
body, so that from the second iteration on the condition was not tested any
more and inner loops were not run.
---
 pbat/command/pBat_For.c | 21 ++++++++++++++++++---
 pbat/core/pBat_Parse.c  | 32 ++++++++++++++++++++++++++++++++
 pbat/core/pBat_Parse.h  |  1 +
 3 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index baf45f4..ad97a61 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -361,6 +361,21 @@ error:
 	return status ? status : iErrorLevel; /* the commands that ran decide */
 }
 
+/* Run the body of the loop once. IF and FOR replace the line that runs them
+   by their own bodies, thus run a copy. */
+static void pBat_RunForBody(PARSED_LINE* lpplLine)
+{
+	PARSED_LINE* line;
+
+	if (!(line = pBat_DuplicateParsedLine(lpplLine)))
+		pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+		                      __FILE__ "/pBat_RunForBody()",
+		                      -1);
+
+	pBat_RunParsedLine(line);
+	pBat_FreeParsedLine(line);
+}
+
 int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 								char* lpDelimiters)
 {
@@ -464,7 +479,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 		pBat_SetLocalVar(lpvLocalVars, cVarName, pBat_EsToChar(lpesStr));
 
 		/* run the block */
-		pBat_RunParsedLine(lpplLine);
+		pBat_RunForBody(lpplLine);
 
 		/* if a goto as been executed while the for-loop
 		   was ran */
@@ -545,7 +560,7 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
 
 		/* execute the code */
 
-		pBat_RunParsedLine(lpplLine);
+		pBat_RunForBody(lpplLine);
 
 
 		/* if a goto as been executed while the for-loop
@@ -596,7 +611,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 			pBat_ForSplitTokens(lpInputToP, lpfrInfo);
 			/* split the block on subtokens */
 
-			pBat_RunParsedLine(lpplLine);
+			pBat_RunForBody(lpplLine);
 			/* split the input into tokens and then run the
 			    block */
 		}
diff --git a/pbat/core/pBat_Parse.c b/pbat/core/pBat_Parse.c
index 93ac257..31ae63c 100644
--- a/pbat/core/pBat_Parse.c
+++ b/pbat/core/pBat_Parse.c
@@ -529,3 +529,35 @@ err:
 
     return NULL;
 }
+
+PARSED_LINE* pBat_DuplicateParsedLine(PARSED_LINE* line)
+{
+    PARSED_LINE *begin=NULL,
+                *last=NULL;
+
+    while (line) {
+
+        if (!(last = pBat_AllocParsedLine(last)))
+            goto err;
+
+        if (!begin)
+            begin = last;
+
+        pBat_EsCpyE(last->lpCmdLine, line->lpCmdLine);
+        last->cNodeType = line->cNodeType;
+
+        if (line->sStream
+            && !(last->sStream = pBat_DuplicateParsedStream(line->sStream)))
+            goto err;
+
+        line = line->lppsNode;
+
+    }
+
+    return begin;
+
+err:
+    pBat_FreeParsedLine(begin);
+
+    return NULL;
+}
diff --git a/pbat/core/pBat_Parse.h b/pbat/core/pBat_Parse.h
index 6a09c1c..00f83c6 100644
--- a/pbat/core/pBat_Parse.h
+++ b/pbat/core/pBat_Parse.h
@@ -68,6 +68,7 @@ PARSED_STREAM* pBat_AllocParsedStream(void);
 void pBat_FreeParsedLine(PARSED_LINE* lppsStream);
 void pBat_FreeParsedStream(PARSED_STREAM* lppssStart);
 PARSED_STREAM* pBat_DuplicateParsedStream(PARSED_STREAM* stream);
+PARSED_LINE* pBat_DuplicateParsedLine(PARSED_LINE* line);
 
 #define pBat_FreeLine(lpssStreamStart) pBat_FreeParsedLine(lpssStreamStart)
 
-- 
2.43.0


From 0b4bf2559ce36a5c6cd06c4f1ecde087cd0b88c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 41/67] fix: let IF and FOR nested in each other swallow the
 line

As the manual says, the commands after an operator belong to the innermost
IF or FOR, but they were run though its condition is false, and once after
the inner loop.
---
 pbat/core/pBat_Run.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index ed318ab..859c433 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -816,6 +816,7 @@ int pBat_RunExternalBatch(char* lpFileName, char* lpFullLine, char** lpArguments
 PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahead)
 {
 	ESTR* cmd = pBat_EsInit_Cached();
+	char* pch;
 
     if (!lookahead) {
         if (!(lookahead = malloc(sizeof(PARSED_LINE)))) {
@@ -835,9 +836,23 @@ PARSED_LINE* pBat_LookAHeadMakeParsedLine(BLOCKINFO* block, PARSED_LINE* lookahe
         }
     }
 
-    pBat_EsCpy(cmd, "(");
-	pBat_EsCatN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
-    pBat_EsCat(cmd, ")");
+    pch = pBat_SkipAllBlanks(block->lpBegin);
+
+    if (*(block->lpEnd) != ')'
+        && ((!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch + 2)))
+            || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3))))) {
+
+        /* this is another IF or FOR without parenthesis around, that also
+           swallows the remaining commands of the line */
+        pBat_EsCpyN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
+
+    } else {
+
+        pBat_EsCpy(cmd, "(");
+        pBat_EsCatN(cmd, block->lpBegin, block->lpEnd - block->lpBegin);
+        pBat_EsCat(cmd, ")");
+
+    }
 
     /* the operator before the IF or FOR was already applied, it is not to be
        applied to the commands it runs */
-- 
2.43.0


From 5d12e885838f641b935785ccba07909c67276d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 42/67] fix: the stream substituted by 1>&2 or 2>&1 must be the
 redirected one

---
 pbat/core/pBat_Run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 859c433..d86a6d9 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -286,7 +286,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1,
 		                -1
 		               );
-        fError = _fOutput;
+        fError = fOutput;
         break;
 
     case PARSED_STREAM_STDOUT2STDERR:
@@ -294,7 +294,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1 ,
 		                -1
 		               );
-        fOutput = _fError;
+        fOutput = fError;
 
     }
 
-- 
2.43.0


From c1c439e91ec52626101f999036a3ecf56f28419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 43/67] fix: a substituted stream must not follow later
 redirections of the other one

---
 pbat/core/pBat_Stream.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 5f62265..bac321a 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -78,6 +78,20 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
     int newfd, fmode;
     STREAMSTACK* item;
 
+    /* when the other stream is substituted to the one that is being
+       redirected, it must not follow the redirection */
+    if (fd == PBAT_STDOUT && fError == _fOutput) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fOutput), PBAT_STDERR);
+        fError = _fError;
+
+    } else if (fd == PBAT_STDERR && fOutput == _fError) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fError), PBAT_STDOUT);
+        fOutput = _fOutput;
+
+    }
+
     /* try to malloc a new stack item */
     if (!(item = malloc(sizeof(STREAMSTACK))))
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION
-- 
2.43.0


From ffdb336edb101a39e6752b24ad7e84dd34d7a8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 44/67] fix: lines read one by one were looked at after their
 expansion had freed them

---
 pbat/core/pBat_Read.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Read.c b/pbat/core/pBat_Read.c
index 2b1814f..7b6ff46 100644
--- a/pbat/core/pBat_Read.c
+++ b/pbat/core/pBat_Read.c
@@ -152,7 +152,7 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 
 	char bCorrectBlocks=FALSE;
 	char* lpCh;
-	int   res;
+	int   res, skip;
 
 	int(*fn_getline)(ESTR*,FILE*) = pBat_EsGet;
 
@@ -190,10 +190,13 @@ int pBat_GetLine_Cmdly(ESTR* lpesLine, INPUT_FILE* pIn)
 
 		lpCh=pBat_SkipAllBlanks(pBat_EsToChar(lpesTmp));
 
+		/* lpCh does not survive the expansion */
+		skip = (*lpCh==':' || *lpCh=='\0' || *lpCh=='\n');
+
         pBat_ReplaceVars(lpesTmp);
 
 		/* split comments label and void lines from input */
-		if (*lpCh==':' || *lpCh=='\0' || *lpCh=='\n') {
+		if (skip) {
 
             if (*(lpesLine->str) == '\0') {
 
-- 
2.43.0


From 2f843088346516f5865d0139346b4895d5be2c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 45/67] fix: indented labels were not found when lines are read
 one by one

---
 pbat/core/pBat_Jump.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 417b5e6..29ba34d 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -107,6 +107,7 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 {
 	size_t iSize=strlen(lpLabelName);
 	char* lpName=lpFileName;
+	char* lpLabel;
 	FILE* pFile;
 	ESTR* lpLine=pBat_EsInit_Cached();
 
@@ -138,9 +139,11 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 	while (!pBat_EsGet(lpLine, pFile)) {
 
         /* Check the label name matches is followed by a delimiter or '\0' */
-		if (!strnicmp(pBat_SkipBlanks(lpLine->str), lpLabelName, iSize)
-            && (pBat_IsDelim(*(lpLine->str + iSize))
-                || *(lpLine->str + iSize) == '\0')) {
+		lpLabel = pBat_SkipBlanks(lpLine->str);
+
+		if (!strnicmp(lpLabel, lpLabelName, iSize)
+            && (pBat_IsDelim(*(lpLabel + iSize))
+                || *(lpLabel + iSize) == '\0')) {
 
 			if (lpFileName) {
 
-- 
2.43.0


From ac4a8afc110f5da6f7cc5f23ee6faee851d8168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 46/67] fix: whether a script changed depended on an
 uninitialised variable

---
 pbat/core/pBat_ReadScript.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index b187949..5f5bb56 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -322,7 +322,7 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
 /* Check batch script changes */
 int pBat_CheckBatchScriptChanges(struct batch_script_t* script)
 {
-    int ret, err;
+    int ret, err = 0;
 
     ret = (script->size != pBat_GetScriptSize(script, &err));
 
-- 
2.43.0


From 7d409a20ec8c9e3decdac2128f6b02ebccbdfc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 47/67] fix: wildcard patterns compared only the first byte of
 non-ASCII characters

---
 libpbat/dir/pBat_Dir.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 4b95267..5dd1851 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -690,6 +690,11 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
             default:
                 if (*regexp  != *match)
                     return 0;
+
+                /* compare every byte of the characters */
+                regexp ++;
+                match ++;
+                continue;
         }
 
         regexp = pBat_GetNextChar(regexp);
@@ -809,6 +814,11 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
             default:
                 if (toupper(*regexp)  != toupper(*match))
                     return 0;
+
+                /* compare every byte of the characters */
+                regexp ++;
+                match ++;
+                continue;
         }
 
         regexp = pBat_GetNextChar(regexp);
-- 
2.43.0


From b0d7df5cd0324f4594c361c4b92790b388f8e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 48/67] fix: a joker at the end of a wildcard pattern did not
 match the empty string

---
 libpbat/dir/pBat_Dir.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 5dd1851..a254e9d 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -702,6 +702,11 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
 
     }
 
+    /* a joker may match the empty string */
+    if (*regexp == '*')
+        while (*regexp == '*' || *regexp == '?')
+            regexp ++;
+
     if (*match || *regexp)
         return 0;
 
@@ -826,6 +831,11 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
 
     }
 
+    /* a joker may match the empty string */
+    if (*regexp == '*')
+        while (*regexp == '*' || *regexp == '?')
+            regexp ++;
+
     if (*match || *regexp)
         return 0;
 
-- 
2.43.0


From 2b61e4cf20031165f6512976bdb2c4da84efcfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 49/67] fix: the -S and -I attributes were negated by -H

---
 libpbat/dir/pBat_Attr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Attr.c b/libpbat/dir/pBat_Attr.c
index 237d15e..89174c7 100644
--- a/libpbat/dir/pBat_Attr.c
+++ b/libpbat/dir/pBat_Attr.c
@@ -85,13 +85,13 @@ int pBat_CheckFileAttributes(short wAttr, const FILELIST* lpflList)
 
     if (wAttr & PBAT_CMD_ATTR_SYSTEM) {
         iResult=iAttributes & PBAT_FILE_SYSTEM;
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_SYSTEM_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
     if (wAttr & PBAT_CMD_ATTR_VOID) {
         iResult=(pBat_GetFileSize(lpflList)==0);
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_VOID_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
-- 
2.43.0


From 93e4974f3dd0169a7ca35810e86ed4118a2bb8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 50/67] fix: DEL /P deleted files without asking

---
 pbat/command/pBat_Del.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 95ab3c4..194dba7 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -93,6 +93,7 @@ int pBat_CmdDel(char* lpLine)
 
 			/* Ask before suppressing */
 			param|=PBAT_ASK_CONFIRMATION;
+			choice = 0;
 
 		} else if (!stricmp(lpToken, "/F")) {
 
-- 
2.43.0


From 7367f229fccdcc000db1b7bea7867b1f9532f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 51/67] fix: a question was asked forever once the input ended

---
 pbat/command/pBat_Ask.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index cfa28f9..26b5ad9 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -63,7 +63,13 @@ void pBat_AskConfirmationRead(char* buffer, size_t size)
 
     while (1) {
 
+#if defined(WIN32) && defined(PBAT_USE_LIBCU8)
         xread(fileno(fInput), &c, 1);
+#else
+        /* the end of the input ends the answer */
+        if (xread(fileno(fInput), &c, 1) != 1)
+            break;
+#endif
 
         if (c == '\r')
             continue;
-- 
2.43.0


From 4359d58d3b9848f3fe13026f7ce9e4478867a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 52/67] fix: an invalid answer to a question used an
 uninitialised variable

---
 pbat/command/pBat_Ask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index 26b5ad9..65eaf36 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -96,7 +96,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 	const char *lpChoices=NULL;
 	/* char *lpLf; */
 
-	int iRet;
+	int iRet=0;
 	char lpInput[30];
 
 	if (iFlags & PBAT_ASK_YNA) {
-- 
2.43.0


From 1e50ab48d5620ea951e791b13f719400f12f1ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 53/67] fix: FIND searched through directories

---
 pbat/command/pBat_Find.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index a58cfa4..16d9671 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -285,7 +285,7 @@ int pBat_CmdFind(char* lpLine)
     }
 
     /* split directories from input */
-    pBat_AttributesSplitFileList(PBAT_CMD_ATTR_DIR_N,
+    pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                     pBegin,
                                     &pBegin,
                                     &pTmp
-- 
2.43.0


From c3f0256ac0d6b395ce54c63ac330b996bdc45547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 54/67] fix: COPY and MOVE switches /Y and /-Y were swapped

---
 pbat/command/pBat_Copy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 184b788..373156b 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -136,7 +136,10 @@ int pBat_CmdCopy(char* line)
         if (!stricmp("/Y", str)
             || !stricmp("/-Y", str)) {
 
-            flags |= (*(str+1)=='-') ? PBAT_COPY_SILENCE : 0;
+            if (*(str+1)=='-')
+                flags &= ~PBAT_COPY_SILENCE;
+            else
+                flags |= PBAT_COPY_SILENCE;
 
         } else if (!strnicmp("/A", str, 2)) {
 
-- 
2.43.0


From 622b4939e02aee004fd65d94d09522db483485e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 55/67] fix: MOVE removed the destination before knowing
 whether it could replace it

---
 pbat/command/pBat_Copy.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 373156b..89c94b5 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -493,9 +493,14 @@ end:
 
 int pBat_MoveFile(const char* file, const char* dest)
 {
-    if ((pBat_FileExists(dest)
-         && remove(dest))
-        || rename(file, dest)) {
+    if (
+#ifdef WIN32
+        (stricmp(file, dest)
+         && pBat_FileExists(dest)
+         && remove(dest)) ||
+#endif
+        /* elsewhere, rename() replaces the destination by itself */
+        rename(file, dest)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_MOVE | PBAT_PRINT_C_ERROR,
                                 file,
-- 
2.43.0


From e75b35e9f6965f93ea32f3118d03c46933727fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 56/67] fix: COPY destroyed a file copied or concatenated onto
 itself

---
 pbat/command/pBat_Copy.c | 43 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 89c94b5..61a061e 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -97,6 +97,19 @@ int pBat__EndWithDirectoryMark(const char* dir)
     return PBAT_TEST_SEPARATOR(c);
 }
 
+/* Check whether both paths lead to the same file */
+static int pBat_IsSameFile(const char* file, const char* dest)
+{
+#ifdef WIN32
+    return !stricmp(file, dest);
+#else
+    struct stat a, b;
+
+    return !stat(file, &a) && !stat(dest, &b)
+            && (a.st_dev == b.st_dev) && (a.st_ino == b.st_ino);
+#endif
+}
+
 int pBat_CmdCopy(char* line)
 {
 	FILELIST *files=NULL,
@@ -306,6 +319,18 @@ int pBat_CmdCopy(char* line)
     }
 
 
+    /* the destination of a concatenation is overwritten by the first file,
+       so it can not be read again afterwards */
+    if ((flags & PBAT_COPY_CAT) && files)
+        for (end = files->lpflNext; end; end = end->lpflNext)
+            if (pBat_IsSameFile(end->lpFileName, file[len-1])) {
+
+                pBat_ShowErrorMessage(PBAT_UNABLE_CAT, end->lpFileName, FALSE);
+                status = PBAT_UNABLE_CAT;
+                goto end;
+
+            }
+
     while (files) {
 
         status |= pBat_CmdCopyFile(files->lpFileName, file[len-1], &flags);
@@ -519,6 +544,15 @@ int pBat_CopyFile(const char* file, const char* dest)
     size_t count, writen;
     struct stat info;
 
+    /* opening the destination would empty the file */
+    if (pBat_IsSameFile(file, dest)) {
+
+        pBat_ShowErrorMessage(PBAT_UNABLE_COPY, file, 0);
+
+        return PBAT_UNABLE_COPY;
+
+    }
+
 #ifdef WIN32
     old = open(file, O_RDONLY | O_BINARY ,0);
 #else
@@ -610,6 +644,15 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
     size_t count, writen;
     struct stat info;
 
+    /* the destination already begins with the contents of this file */
+    if (pBat_IsSameFile(file, dest)) {
+
+        *flags |= PBAT_COPY_CAT_2ND;
+
+        return PBAT_NO_ERROR;
+
+    }
+
 #ifdef WIN32
     old = open(file, O_RDONLY | O_BINARY ,0);
 #else
-- 
2.43.0


From 3c20a211016709eb2c110662c53f25e4b2ccd0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 57/67] fix: COPY of exactly two or more than four files kept
 only the last one

---
 pbat/command/pBat_Copy.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 61a061e..4b18172 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -296,10 +296,6 @@ int pBat_CmdCopy(char* line)
         end = end->lpflNext;
     }
 
-    end = files;
-
-    /* actual matching items */
-    while (end && (end = end->lpflNext) && (i++ < 2));
 
     /* Cmd does not accept several file names used in with a
        single *COPY* but for it, several files from a regular expression
@@ -309,7 +305,7 @@ int pBat_CmdCopy(char* line)
         flags |= PBAT_COPY_MULTIPLE;
     }
 
-    if (i == 3) {
+    if (files && files->lpflNext) {
 
         if (!(flags & PBAT_COPY_MULTIPLE)
             && !(flags & PBAT_COPY_MOVE))
-- 
2.43.0


From a596c0d0c3b5ca39297e5b1df08ed1e8fcbe5f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 58/67] fix: COPY asked again before appending each file

---
 pbat/command/pBat_Copy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 4b18172..25f7db0 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -376,7 +376,7 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
     }
 
     if (pBat_FileExists(pBat_EsToChar(dest_real))
-        && !(*flags & PBAT_COPY_SILENCE)) {
+        && !(*flags & (PBAT_COPY_SILENCE | PBAT_COPY_CAT_2ND))) {
 
         ok = pBat_AskConfirmation(PBAT_ASK_YNA | PBAT_ASK_DEFAULT_N
                                     | PBAT_ASK_INVALID_REASK, NULL,
-- 
2.43.0


From 97533537c88849b64a32e24d4369da0a078d2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 59/67] fix: MOVE /R removed directories of the destination
 instead of the source

---
 pbat/command/pBat_Copy.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 25f7db0..1c96536 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -492,9 +492,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
         while (item) {
 
-            pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size+1));
-
-            status = pBat_Rmdir(real_dest->str);
+            status |= pBat_Rmdir(item->lpFileName);
 
             item = item->lpflNext;
 
-- 
2.43.0


From de5fcedcae7dae7aca6fbadba9f116dc02cdce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 60/67] fix: recursive searches went through symbolic links, RD
 /S and DEL /S deleted files out of the tree

---
 libpbat/dir/pBat_Dir.c    | 17 +++++++++++++++--
 pbat/command/pBat_Rmdir.c | 24 ++++++++++++++++++++++--
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index a254e9d..943fd57 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -168,6 +168,18 @@ static int /* inline */ pBat_EndWithDirectoryMark(const char *dir)
     return c ? PBAT_TEST_SEPARATOR(c) : 0;
 }
 
+/* Recursive searches do not go through links to other places */
+static int pBat_IsLink(const char* path)
+{
+#ifdef WIN32
+    return 0;
+#else
+    struct stat info;
+
+    return !lstat(path, &info) && S_ISLNK(info.st_mode);
+#endif
+}
+
 /* Fixme : This function is quite a lot unefficient under windows,
    its perfomances can be enhanced by using native winapi functions for
    file search */
@@ -444,7 +456,8 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
                     }
 
                     if ((arg->flags & PBAT_SEARCH_RECURSIVE)
-                        && (strcmp(ent->d_name, ".") && strcmp(ent->d_name, ".."))) {
+                        && (strcmp(ent->d_name, ".") && strcmp(ent->d_name, ".."))
+                        && !pBat_IsLink(path->str)) {
 
                         arg->files = ret;
                         ret = pBat_GetMatch(path->str, item, arg);
@@ -498,7 +511,7 @@ static FILELIST* pBat_GetMatch(char* restrict base, char* restrict up, struct ma
                 pBat_EsCpy(path, ent->d_name);
             }
 
-            if (pBat_DirExists(path->str)) {
+            if (pBat_DirExists(path->str) && !pBat_IsLink(path->str)) {
 
                 /* if it does not match *but* we are in recursive mode, browse
                    anyway */
diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index c8c9065..dc20ca0 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -55,6 +55,19 @@
 
    */
 
+/* A link to a directory is removed by itself, the directory it leads to is
+   not a part of the tree */
+static int pBat_IsLink(const char* path)
+{
+#ifdef WIN32
+    return 0;
+#else
+    struct stat info;
+
+    return !lstat(path, &info) && S_ISLNK(info.st_mode);
+#endif
+}
+
 int pBat_CmdRmdir(char* lpLine)
 {
 	ESTR *lpEstr=pBat_EsInit_Cached();
@@ -166,7 +179,9 @@ int pBat_CmdRmdir(char* lpLine)
 
         for (i=0; i < n; i++) {
 
-            if (!(dir = pBat_GetMatchFileList(name[i], mode))) {
+            if (!(dir = pBat_GetMatchFileList(name[i],
+                            pBat_IsLink(name[i]) ? mode & ~PBAT_SEARCH_RECURSIVE
+                                                 : mode))) {
 
                 pBat_ShowErrorMessage(PBAT_NO_MATCH,
                                         name[i],
@@ -214,7 +229,12 @@ int pBat_CmdRmdir(char* lpLine)
 
         while (next) {
 
-            status |= pBat_CmdRmdirFile(next->lpFileName, param, &choice);
+            if (pBat_IsLink(next->lpFileName))
+                status |= pBat_CmdDelFile(next->lpFileName,
+                                          pBat_GetFileMode(next),
+                                          param, &choice);
+            else
+                status |= pBat_CmdRmdirFile(next->lpFileName, param, &choice);
             next = next->lpflNext;
 
         }
-- 
2.43.0


From 6fe25afe360b9000f58b416dd3e85c5b062ef66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 61/67] fix: COPY /R and MOVE /R failed when a directory of the
 destination did not match

---
 pbat/command/pBat_Copy.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 1c96536..fe86731 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -431,6 +431,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
     ESTR* real_dest = pBat_EsInit_Cached();
 
+    char* end_dir;
     int  status = 0;
     size_t size  = pBat_GetStaticLength(file);
 
@@ -480,6 +481,17 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
     while (item) {
 
         pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size));
+
+        /* the directory of the file may not have been duplicated */
+        if ((end_dir = strrchr(real_dest->str, '/'))
+            && end_dir != real_dest->str) {
+
+            *end_dir = '\0';
+            status |= pBat_CmdMakeDirs(real_dest->str);
+            *end_dir = '/';
+
+        }
+
         status |= pBat_CmdCopyFile(item->lpFileName, real_dest->str, flags);
 
         item = item->lpflNext;
-- 
2.43.0


From 1c82077274236180ec10a7143bd181d4f078e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 62/67] fix: COPY went on with wrong data when a write failed
 after a partial one

---
 pbat/command/pBat_Copy.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index fe86731..b328a7b 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -548,6 +548,7 @@ int pBat_CopyFile(const char* file, const char* dest)
     int old, new;
     char buf[2048];
     size_t count, writen;
+    ssize_t done;
     struct stat info;
 
     /* opening the destination would empty the file */
@@ -612,9 +613,15 @@ int pBat_CopyFile(const char* file, const char* dest)
 
         writen = 0;
 
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
+        while (writen != count) {
 
-            if (writen == -1) {
+            done = write(new, buf + writen, count - writen);
+
+            if (done != -1) {
+
+                writen += done;
+
+            } else {
 
                 close(old);
                 close(new);
@@ -648,6 +655,7 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
     int old, new, attr;
     char buf[2048];
     size_t count, writen;
+    ssize_t done;
     struct stat info;
 
     /* the destination already begins with the contents of this file */
@@ -725,9 +733,15 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
         writen = 0;
 
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
+        while (writen != count) {
+
+            done = write(new, buf + writen, count - writen);
+
+            if (done != -1) {
+
+                writen += done;
 
-            if (writen == -1) {
+            } else {
 
                 close(old);
                 close(new);
-- 
2.43.0


From 09beaa26be1f39aed2be175a53decd90e23adf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 63/67] fix: FOR chose between files and directories from
 uninitialised attributes

---
 pbat/command/pBat_For.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index ad97a61..ea837e9 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -455,8 +455,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
                 /* We came across a reg expression, just launch a search */
                 files = pBat_GetMatchFileList(pBat_EsToFullPath(lpesStr),
-                                                PBAT_SEARCH_NO_PSEUDO_DIR
-                                                | PBAT_SEARCH_NO_STAT);
+                                                PBAT_SEARCH_NO_PSEUDO_DIR);
 
                 pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                              files,
-- 
2.43.0


From 787ce93a2ebcbf03d2fad4de28ad80e39900b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:32 +0000
Subject: [PATCH 64/67] fix: match * with any text and ? with exactly one
 character

The text behind a * was only looked for at the first place where its
beginning stands, so that *a?c did not match aabc, and question marks
next to a * were ignored, so that *? matched the empty string.
---
 libpbat/dir/pBat_Dir.c | 168 +++++++++++++----------------------------
 1 file changed, 52 insertions(+), 116 deletions(-)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 943fd57..6a49708 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -645,88 +645,56 @@ LIBPBAT int pBat_EndWithPattern(const char* restrict match, const char* restrict
 
 LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict match)
 {
-	char* next;
-    size_t size;
+    const char *joker = NULL,
+               *retry = NULL;
 
     //printf("*** Comparing \"%s\" et \"%s\"\n", regexp, match);
 
     if (!(regexp && match)) return FALSE;
 
-    while (*regexp && *match) {
+    while (*match) {
 
         switch (*regexp) {
 
             case '?':
-                break;
+                regexp ++;
+                match = pBat_GetNextChar(match);
+                continue;
 
             case '*':
-                while (*regexp == '*' || *regexp == '?')
-                    regexp ++;
-
-                if (*regexp == '\0')
-                    return 1;
-
-                if ((next = strpbrk(regexp, "*?"))) {
-
-                    size = next - regexp;
-
-                    if ((match = pBat_SeekPattern(match, regexp, size))) {
-
-                        //printf("Match found\n");
-
-                        regexp += size;
-                        match += size;
-
-                        //printf("Next : \"%s\" and \"%s\"\n", match, regexp);
-
-                        continue;
-
-                    } else {
-
-                        //printf("Failed\n");
-
-                        return 0;
-
-                    }
-
-                } else {
+                /* first suppose that it stands for nothing */
+                joker = ++ regexp;
+                retry = match;
+                continue;
 
-                    //printf("Checking final point\n");
+            default:
+                /* compare every byte of the characters */
+                if (*regexp == *match) {
 
-                    size = strlen(regexp);
-                    return pBat_EndWithPattern(match, regexp, size);
+                    regexp ++;
+                    match ++;
+                    continue;
 
                 }
-
-                break;
-
-            default:
-                if (*regexp  != *match)
-                    return 0;
-
-                /* compare every byte of the characters */
-                regexp ++;
-                match ++;
-                continue;
         }
 
-        regexp = pBat_GetNextChar(regexp);
-        match = pBat_GetNextChar(match);
+        /* what follows the last joker does not match here, thus the joker
+           has to stand for one more byte */
+        if (joker == NULL)
+            return 0;
+
+        regexp = joker;
+        match = ++ retry;
 
     }
 
     /* a joker may match the empty string */
-    if (*regexp == '*')
-        while (*regexp == '*' || *regexp == '?')
-            regexp ++;
-
-    if (*match || *regexp)
-        return 0;
+    while (*regexp == '*')
+        regexp ++;
 
     //printf ("*** RETURN : OK\n");
 
-    return 1;
-
+    return *regexp == '\0';
 }
 
 LIBPBAT char* pBat_SeekCasePattern(const char* restrict match, const char* restrict pattern, size_t len)
@@ -774,88 +742,56 @@ LIBPBAT int pBat_EndWithCasePattern(const char* restrict match, const char* rest
 
 LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restrict match)
 {
-	char* next;
-    size_t size;
+    const char *joker = NULL,
+               *retry = NULL;
 
     //printf("*** Comparing \"%s\" et \"%s\"\n", regexp, match);
 
     if (!(regexp && match)) return FALSE;
 
-    while (*regexp && *match) {
+    while (*match) {
 
         switch (*regexp) {
 
             case '?':
-                break;
+                regexp ++;
+                match = pBat_GetNextChar(match);
+                continue;
 
             case '*':
-                while (*regexp == '*' || *regexp == '?')
-                    regexp ++;
-
-                if (*regexp == '\0')
-                    return 1;
-
-                if ((next = strpbrk(regexp, "*?"))) {
-
-                    size = next - regexp;
-
-                    if ((match = pBat_SeekCasePattern(match, regexp, size))) {
-
-                        //printf("Match found\n");
-
-                        regexp += size;
-                        match += size;
-
-                        //printf("Next : \"%s\" and \"%s\"\n", match, regexp);
-
-                        continue;
-
-                    } else {
-
-                        //printf("Failed\n");
-
-                        return 0;
-
-                    }
-
-                } else {
+                /* first suppose that it stands for nothing */
+                joker = ++ regexp;
+                retry = match;
+                continue;
 
-                    //printf("Checking final point\n");
+            default:
+                /* compare every byte of the characters */
+                if (toupper(*regexp) == toupper(*match)) {
 
-                    size = strlen(regexp);
-                    return pBat_EndWithCasePattern(match, regexp, size);
+                    regexp ++;
+                    match ++;
+                    continue;
 
                 }
-
-                break;
-
-            default:
-                if (toupper(*regexp)  != toupper(*match))
-                    return 0;
-
-                /* compare every byte of the characters */
-                regexp ++;
-                match ++;
-                continue;
         }
 
-        regexp = pBat_GetNextChar(regexp);
-        match = pBat_GetNextChar(match);
+        /* what follows the last joker does not match here, thus the joker
+           has to stand for one more byte */
+        if (joker == NULL)
+            return 0;
+
+        regexp = joker;
+        match = ++ retry;
 
     }
 
     /* a joker may match the empty string */
-    if (*regexp == '*')
-        while (*regexp == '*' || *regexp == '?')
-            regexp ++;
-
-    if (*match || *regexp)
-        return 0;
+    while (*regexp == '*')
+        regexp ++;
 
     //printf ("*** RETURN : OK\n");
 
-    return 1;
-
+    return *regexp == '\0';
 }
 
 LIBPBAT int pBat_FormatFileSize(char* lpBuf, int iLength, unsigned int iFileSize)
-- 
2.43.0


From 926dce4f72e16d828733d07b6b73e1575725dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:05 +0000
Subject: [PATCH 65/67] fix: FOR /R and FOR /D searched the whole file system
 without a directory

Names with blanks and several masks did not work either, since the command
that lists the files was put together without any quotes.
---
 pbat/command/pBat_For.c | 48 ++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index ea837e9..ec4bb2e 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1616,7 +1616,7 @@ void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
 int  pBat_CmdForDeprecatedWrapper(ESTR* lpMask, ESTR* lpDir, char* lpAttribute, PARSED_LINE* lpplLine, char cVarName)
 {
 	FORINFO forInfo= {
-		" ", /* no tokens delimiters, since only one
+		"", /* no tokens delimiters, since only one
                 token is taken account */
 		"", /* no end-of-line delimiters */
 		0, /* no skipped line */
@@ -1629,27 +1629,41 @@ int  pBat_CmdForDeprecatedWrapper(ESTR* lpMask, ESTR* lpDir, char* lpAttribute,
 
 	};
 
-	ESTR* lpCommandLine=pBat_EsInit_Cached();
+	ESTR *lpCommandLine=pBat_EsInit_Cached(),
+	     *lpItem=pBat_EsInit_Cached();
+
+	char *lpToken=pBat_EsToChar(lpMask);
+
+	int status=0;
 
 	/* create equivalent for loop using for / */
-	pBat_EsCpy(lpCommandLine, "'DIR /b /s ");
-	pBat_EsCat(lpCommandLine, lpAttribute);
-	pBat_EsCat(lpCommandLine, " ");
-	pBat_Canonicalize(lpDir->str);
-	pBat_EsCatE(lpCommandLine, lpDir);
-	pBat_EsCat(lpCommandLine, "/");
-	pBat_EsCatE(lpCommandLine, lpMask);
-	pBat_EsCat(lpCommandLine, "'");
-
-	if (pBat_CmdForF(lpCommandLine, lpplLine, &forInfo))
-		goto error;
+	while (!status && !bAbortCommand
+	       && (lpToken=pBat_GetNextParameterEs(lpToken, lpItem))) {
 
-	pBat_EsFree_Cached(lpCommandLine);
-	return 0;
+		pBat_EsCpy(lpCommandLine, "'DIR /b /s ");
+		pBat_EsCat(lpCommandLine, lpAttribute);
+		pBat_EsCat(lpCommandLine, " \"");
 
-error:
+		/* without any directory, search in the current one */
+		if (*pBat_EsToChar(lpDir)) {
 
+			pBat_Canonicalize(lpDir->str);
+			pBat_EsCatE(lpCommandLine, lpDir);
+			pBat_EsCat(lpCommandLine, "/");
+
+		}
+
+		pBat_EsCatE(lpCommandLine, lpItem);
+		pBat_EsCat(lpCommandLine, "\"'");
+
+		if (pBat_CmdForF(lpCommandLine, lpplLine, &forInfo))
+			status=-1;
+
+	}
+
+	pBat_EsFree_Cached(lpItem);
 	pBat_EsFree_Cached(lpCommandLine);
-	return -1;
+
+	return status;
 
 }
-- 
2.43.0


From bf38d7cb299a32e7646f83a18b18c14bd00e9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:22 +0000
Subject: [PATCH 66/67] fix: input redirections read what was left over from
 another file

What had been read ahead from one file, and its end of file mark, were
kept when the input was made to refer to another one.
---
 pbat/core/pBat_Stream.h | 35 ++++++++++++++++++++++++++---------
 pbat/init/pBat_Init.c   |  3 +++
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 2dc1805..55d07ba 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -78,19 +78,36 @@
             __PBAT_DUP_STD(fd, s) \
             PBAT_RESET_BUFFERING(fd, s)
 
-/* The trick here is that ftell(s) takes account of buffering situation so that
-   fseek can set positions accurately, but however, the FILE structure does not
-   contains any absolute counter for file pos.
+/* Before fd is made to refer to another file, its position must be set to what
+   was actually read through s, and any data still in the buffer must be
+   forgotten, since it belongs to the old file. fflush() does both on POSIX
+   systems; elsewhere it only clears the buffer, so that the position is set
+   before using ftell(s), which takes account of the buffering situation.
 
-   Hence here we reset the postion of the file descriptor and then use fflush()
-   to clear any buffering information still in the FILE */
-#define PBAT_DUP_STDIN(fd, s) \
+   An end of file or an error met on the old file says nothing about the new
+   one. Data read ahead from something that has no position (eg. a pipe) could
+   not be given back, hence it must not be read ahead. */
+#ifdef WIN32
+#define PBAT_SYNC_STDIN(s) \
             if (!isatty(fileno(s))) \
                 lseek(fileno(s), ftell(s), SEEK_SET); \
-            fflush(s); \
+            fflush(s)
+#else
+#define PBAT_SYNC_STDIN(s) fflush(s)
+#endif
+
+#define PBAT_RESET_STDIN_BUFFERING(s) \
+            if (isatty(fileno(s)) || lseek(fileno(s), 0, SEEK_CUR) == -1) \
+                setvbuf(s, NULL, _IONBF, 0); \
+            else \
+                setvbuf(s, NULL, _IOFBF, PBAT_DEF_BUF)
+
+#define PBAT_DUP_STDIN(fd, s) \
+            PBAT_SYNC_STDIN(s); \
             __PBAT_DUP_STD(fd, s) \
-            PBAT_RESET_BUFFERING(fd, s)
-
+            clearerr(s); \
+            PBAT_RESET_STDIN_BUFFERING(s)
+
 #define PBAT_XDUP(fd, s) \
             if (((fd) = dup(fileno(s))) == -1) \
                 pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD \
diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 7277e51..23e10f7 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -124,6 +124,9 @@ void pBat_DuplicateStdStreams(void)
 
     if (isatty(newErr))
         setvbuf(fError, NULL, _IONBF, 0);
+
+    /* do not read ahead from something that can not be given back */
+    PBAT_RESET_STDIN_BUFFERING(fInput);
 }
 
 void pBat_Init(void)
-- 
2.43.0


From 1e2ab1ce329f82360ed9c3f8223f7ad614fbff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:22 +0000
Subject: [PATCH 67/67] fix: what a program prints overtook what was printed
 before it

Nor did a program read on where the script had stopped reading.
---
 pbat/core/pBat_Exec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 7481b63..03715aa 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -291,6 +291,12 @@ int pBat_RunFile(EXECINFO* info, int* error)
                                 __FILE__ "/pBat_RunFile()",
                                 -1);
 
+    /* the program reads on where we stopped, what was printed so far must not
+       follow what the program prints, nor be printed again by the son */
+    PBAT_SYNC_STDIN(fInput);
+    fflush(fOutput);
+    fflush(fError);
+
 	iPid=fork();
 
 	if (iPid == 0 ) {
-- 
2.43.0

