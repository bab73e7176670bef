From 6c66c35cddd4c12c05c28387ea08db88cb28225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:30 +0000
Subject: [PATCH 01/68] fix: keep vertex labels of drawn planar graphs inside
 the vertex

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 6b8d9e5..8cb7a69 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -833,6 +833,10 @@ char *_RenderToString(graphP theEmbedding)
             sprintf(numBuffer, "%d", v - zeroBasedVertexOffset);
             if ((unsigned)(context->VI[v].end - context->VI[v].start + 1) >= strlen(numBuffer))
             {
+                // Keep the whole label within the horizontal range of the vertex
+                if (Mid + (int)strlen(numBuffer) > context->VI[v].end + 1)
+                    Mid = context->VI[v].end + 1 - (int)strlen(numBuffer);
+
                 memcpy((char *)visRep + (2 * Pos) * (M + 1) + Mid, (char *)numBuffer, strlen(numBuffer));
             }
             // If the vertex width is less than the label width, then fail gracefully
-- 
2.43.0


From 2282ff7c838032465deabb6b2b380c424a63adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 02/68] fix: read adjacency matrices digit by digit and reject
 malformed ones

---
 c/graphLib/io/graphIO.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3a0fed4..01bc698 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -39,11 +39,15 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
 
     // Read the number of vertices from the first line of the file
     if (Infile != NULL)
-        fscanf(Infile, " %d ", &N);
+    {
+        if (fscanf(Infile, " %d ", &N) != 1)
+            return NOTOK;
+    }
     else
     {
         sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        if (sscanf(sb_GetReadString(inBuf), " %d ", &N) != 1)
+            return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
     }
@@ -61,12 +65,18 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read each of v's w-neighbor flags
             if (Infile != NULL)
-                fscanf(Infile, " %1d", &Flag);
+            {
+                if (fscanf(Infile, " %1d", &Flag) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %1d", &Flag);
-                sb_ReadSkipInteger(inBuf);
+                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
+                    return NOTOK;
+
+                // Each flag is one digit, and the next flag may follow immediately
+                sb_ReadSkipChar(inBuf);
             }
 
             // Add the edge (v, w) if the flag is raised
@@ -78,6 +88,12 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         }
     }
 
+    // Whitespace after the last flag is not extra data
+    if (Infile != NULL)
+        fscanf(Infile, " ");
+    else
+        sb_ReadSkipWhitespace(inBuf);
+
     return OK;
 }
 
-- 
2.43.0


From ed9a69e6183a5f09146e1e9e24fa4784b2f115ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 03/68] fix: reject malformed and truncated adjacency lists

---
 c/graphLib/io/graphIO.c | 32 ++++++++++++++++++++++++++------
 c/graphLib/io/strbuf.c  |  4 ++--
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 01bc698..b0bf0e3 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -136,14 +136,16 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         fgetc(Infile);
         fgetc(Infile);
-        fscanf(Infile, " %d ", &N);
+        if (fscanf(Infile, " %d ", &N) != 1)
+            return NOTOK;
     }
     else
     {
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        if (sscanf(sb_GetReadString(inBuf), " %d ", &N) != 1)
+            return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
     }
@@ -162,13 +164,20 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         // Read the vertex number
         if (Infile != NULL)
-            fscanf(Infile, "%d", &indexValue);
+        {
+            if (fscanf(Infile, "%d", &indexValue) != 1)
+                return NOTOK;
+        }
         else
         {
-            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
+            if (sscanf(sb_GetReadString(inBuf), "%d", &indexValue) != 1)
+                return NOTOK;
             sb_ReadSkipInteger(inBuf);
         }
 
+        if (indexValue > theGraph->N)
+            return NOTOK;
+
         if (indexValue == 0 && v == gp_GetFirstVertex(theGraph))
             zeroBased = TRUE;
         indexValue += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
@@ -183,7 +192,11 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         if (Infile != NULL)
             fgetc(Infile);
         else
+        {
+            if (*sb_GetReadString(inBuf) == '\0')
+                return NOTOK;
             sb_ReadSkipChar(inBuf);
+        }
 
         // If the vertex already has a non-empty adjacency list, then it is
         // the result of adding edges during processing of preceding vertices.
@@ -223,14 +236,21 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read the value indicating the next adjacent vertex (or the list end)
             if (Infile != NULL)
-                fscanf(Infile, " %d ", &W);
+            {
+                if (fscanf(Infile, " %d ", &W) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %d ", &W);
+                if (sscanf(sb_GetReadString(inBuf), " %d ", &W) != 1)
+                    return NOTOK;
                 sb_ReadSkipInteger(inBuf);
                 sb_ReadSkipWhitespace(inBuf);
             }
+
+            if (W > theGraph->N)
+                return NOTOK;
             W += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
 
             // A value below the valid range indicates the adjacency list end
diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 1ab64a6..b9e3a89 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -154,14 +154,14 @@ void sb_ReadSkipWhitespace(strBufP theStrBuf)
 /********************************************************************
  sb_ReadSkipInteger()
  Advances the read position managed by the string buffer by skipping
- an initial negative sign, if present, then skipping any number of
+ an initial sign, if present, then skipping any number of
  numeric digits, if present.
  ********************************************************************/
 void sb_ReadSkipInteger(strBufP theStrBuf)
 {
     if (theStrBuf != NULL && theStrBuf->buf != NULL)
     {
-        if (theStrBuf->buf[theStrBuf->readPos] == '-')
+        if (theStrBuf->buf[theStrBuf->readPos] == '-' || theStrBuf->buf[theStrBuf->readPos] == '+')
             theStrBuf->readPos++;
 
         while (isdigit(theStrBuf->buf[theStrBuf->readPos]))
-- 
2.43.0


From 67773224e401f557cda74894530d741b95cb81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 04/68] fix: reject malformed and truncated LEDA files

---
 c/graphLib/io/graphIO.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index b0bf0e3..99d4867 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -354,34 +354,42 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
 {
     char Line[256];
     int N = -1;
-    int M, m, u, v, ErrorCode;
+    int M = -1, m, u, v, ErrorCode;
     int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
 
     /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
-    fgets(Line, 255, Infile);
-
-    fgets(Line, 255, Infile);
-    fgets(Line, 255, Infile);
+    for (m = 0; m < 3; m++)
+    {
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
+    }
 
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &N);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &N) != 1)
+        return NOTOK;
 
     if (gp_InitGraph(theGraph, N) != OK)
         return NOTOK;
 
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        fgets(Line, 255, Infile);
+    {
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
+    }
 
     /* Read the number of edges */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &M);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1 || M < 0)
+        return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        fgets(Line, 255, Infile);
-        sscanf(Line, " %d %d", &u, &v);
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2)
+            return NOTOK;
+
+        if (u < 1 || u > N || v < 1 || v > N)
+            return NOTOK;
+
         if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
         {
             if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
-- 
2.43.0


From f06e91de87ffcdfd8685f3f5d5050940f0829b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 05/68] fix: null-terminate the extra data passed to read
 postprocessing

---
 c/graphLib/io/graphIO.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 99d4867..1f422d4 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -433,7 +433,8 @@ int gp_Read(graphP theGraph, char *FileName)
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
         return NOTOK;
 
-    fgets(lineBuff, 255, Infile);
+    if (fgets(lineBuff, 255, Infile) == NULL)
+        lineBuff[0] = '\0';
     // Reset file pointer to beginning of file
     fseek(Infile, 0, SEEK_SET);
     if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
@@ -477,7 +478,14 @@ int gp_Read(graphP theGraph, char *FileName)
         if (filePos < fileSize)
         {
             extraData = malloc(fileSize - filePos + 1);
-            fread(extraData, fileSize - filePos, 1, Infile);
+            if (extraData == NULL || fread(extraData, fileSize - filePos, 1, Infile) != 1)
+            {
+                free(extraData);
+                extraData = NULL;
+                RetVal = NOTOK;
+            }
+            else
+                ((char *)extraData)[fileSize - filePos] = '\0';
         }
         /*
                 // Useful for quick debugging of IO extensibility
-- 
2.43.0


From c91a056794f5bc003c84c59f132450216785c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 06/68] fix: release or reject the input of gp_ReadFromString
 on all paths

---
 c/graphLib/io/graphIO.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 1f422d4..252a75d 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -536,7 +536,7 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
         return NOTOK;
     }
 
-    if (sb_ConcatString(inBuf, inputStr) != OK)
+    if (inputStr == NULL || sb_ConcatString(inBuf, inputStr) != OK)
     {
         sb_Free(&inBuf);
 
@@ -548,6 +548,7 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 
     if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
     {
+        sb_Free(&inBuf);
         if (inputStr != NULL)
             free(inputStr);
         return NOTOK;
-- 
2.43.0


From 6c477d568845ddf22e1781c1c17638694c4a7c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 07/68] fix: release the row buffer when writing an adjacency
 matrix fails

---
 c/graphLib/io/graphIO.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 252a75d..e7e0e6d 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -723,7 +723,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         while (gp_IsArc(e))
         {
             if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            {
+                free(Row);
                 return NOTOK;
+            }
 
             if (gp_GetNeighbor(theGraph, e) > v)
                 Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
@@ -737,8 +740,11 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         // Write the row to the file or string buffer
         if (Outfile != NULL)
             fprintf(Outfile, "%s", Row);
-        else
-            sb_ConcatString(outBuf, Row);
+        else if (sb_ConcatString(outBuf, Row) != OK)
+        {
+            free(Row);
+            return NOTOK;
+        }
     }
 
     free(Row);
-- 
2.43.0


From ec584a993983c6efbe751ad9538ac03662dbd698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 08/68] fix: report failure when a .g6 graph cannot be read

---
 c/graphLib/io/g6-read-iterator.c | 57 ++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 55759f4..4d06a6b 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -744,26 +744,29 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
 	}
 
 	exitCode = readGraphUsingG6ReadIterator(pG6ReadIterator);
+	if (exitCode == OK && pG6ReadIterator->numGraphsRead == 0)
+		exitCode = NOTOK;
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -790,26 +793,29 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
 	}
 
 	exitCode = readGraphUsingG6ReadIterator(pG6ReadIterator);
+	if (exitCode == OK && pG6ReadIterator->numGraphsRead == 0)
+		exitCode = NOTOK;
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -839,26 +845,29 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
 	}
 
 	exitCode = readGraphUsingG6ReadIterator(pG6ReadIterator);
+	if (exitCode == OK && pG6ReadIterator->numGraphsRead == 0)
+		exitCode = NOTOK;
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
-- 
2.43.0


From 168de5807098c7b3b95d2804272a21925f17ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 09/68] fix: support the order 1 graph in .g6 reading and
 writing

---
 c/graphLib/io/g6-read-iterator.c  | 7 ++++---
 c/graphLib/io/g6-write-iterator.c | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 4d06a6b..2feff96 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -338,7 +338,7 @@ bool _firstCharIsValid(char c, const int lineNum)
 {
 	bool isValidFirstChar = false;
 
-	if (strchr(":;&", c) != NULL)
+	if (c != '\0' && strchr(":;&", c) != NULL)
 	{
 		char messageContents[MAXLINE + 1];
 		sprintf(messageContents, "Invalid first character on line %d, i.e. one of ':', ';', or '&'; aborting.\n", lineNum);
@@ -439,7 +439,8 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 
 	char firstChar = '\0';
 	char *graphEncodingChars = NULL;
-	if (sf_fgets(currGraphBuff, currGraphBuffSize, g6Input) != NULL)
+	// The order 1 graph has no encoding characters, so there may be nothing left on the first line
+	if (sf_fgets(currGraphBuff, currGraphBuffSize, g6Input) != NULL || (numGraphsRead == 0 && numCharsForGraphEncoding == 0))
 	{
 		numGraphsRead++;
 		firstChar = currGraphBuff[0];
@@ -587,7 +588,7 @@ int _validateGraphEncoding(char *graphBuff, const int graphOrder, const int numC
 	// Check that there are no extraneous bits in representation (since we pad out to a
 	// multiple of 6 before splitting into bytes and adding 63 to each byte)
 	int expectedNumPaddingZeroes = _getExpectedNumPaddingZeroes(graphOrder, numChars);
-	char finalByte = graphBuff[numChars - 1] - 63;
+	char finalByte = numChars > 0 ? graphBuff[numChars - 1] - 63 : 0;
 	int numPaddingZeroes = 0;
 	for (int i = 0; i < expectedNumPaddingZeroes; i++)
 	{
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 44f0691..f65f116 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -323,7 +323,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			g6Encoding[3 - i] = intermediate & 63;
 			g6Encoding[3 - i] += 63;
 		}
-	} else if (graphOrder > 1 && graphOrder < 63) {
+	} else if (graphOrder > 0 && graphOrder < 63) {
 		g6Encoding[0] = graphOrder + 63;
 	}
 
-- 
2.43.0


From 37b911d4c71f4aff3d592a557b691fd0cc61931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 10/68] fix: validate the characters of the graph order in .g6
 input

---
 c/graphLib/io/g6-read-iterator.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 2feff96..30d7ca1 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -377,8 +377,13 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 
 		for (int i = 2; i >= 0; i--)
 		{
-			graphChar = sf_getc(g6Input) - 63;
-			n |= graphChar << (6 * i);
+			graphChar = sf_getc(g6Input);
+			if (graphChar < 63 || graphChar > 126)
+			{
+				ErrorMessage("Invalid character in graph order.\n");
+				return NOTOK;
+			}
+			n |= (graphChar - 63) << (6 * i);
 		}
 
 		if (n > 100000)
@@ -535,7 +540,20 @@ int _checkGraphOrder(char *graphBuff, int graphOrder)
 		int orderCharIndex = 2;
 
 		for (int i = 1; i < 4; i++)
+		{
+			if (graphBuff[i] < 63 || graphBuff[i] > 126)
+			{
+				ErrorMessage("Invalid character in graph order.\n");
+				return NOTOK;
+			}
 			n |= (graphBuff[i] - 63) << (6 * orderCharIndex--);
+		}
+
+		if (n < 63)
+		{
+			ErrorMessage("Graph order is not in its shortest form.\n");
+			return NOTOK;
+		}
 	}
 	else if (currChar > 62 && currChar < 126)
 		n = currChar - 63;
-- 
2.43.0


From e255dc0fabf5231ea3a9abc7207d97d1e35eb555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 11/68] fix: separate and count the graphs written by the .g6
 write iterator

---
 c/graphLib/io/g6-write-iterator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index f65f116..ac95b6c 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -266,9 +266,18 @@ int writeGraphUsingG6WriteIterator(G6WriteIterator *pG6WriteIterator)
 		return exitCode;
 	}
 
+	// Each graph after the first starts on a new line
+	if (pG6WriteIterator->numGraphsWritten > 0 && sf_fputs("\n", pG6WriteIterator->g6Output) < 0)
+	{
+		ErrorMessage("Unable to output newline to string-or-file container.\n");
+		return NOTOK;
+	}
+
 	exitCode = _printEncodedGraph(pG6WriteIterator);
 	if (exitCode != OK)
 		ErrorMessage("Unable to output g6 encoded graph to string-or-file container.\n");
+	else
+		pG6WriteIterator->numGraphsWritten++;
 
 	return exitCode;
 }
-- 
2.43.0


From 75f5b05e85837e9b690092b1df352fd283de1dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 12/68] fix: avoid integer overflow in .g6 sizes for orders
 above 46341

---
 c/graphLib/io/g6-api-utilities.c  | 12 ++++++------
 c/graphLib/io/g6-api-utilities.h  |  2 +-
 c/graphLib/io/g6-write-iterator.c | 16 +++++++++++-----
 c/graphLib/io/g6-write-iterator.h |  4 ++--
 4 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/c/graphLib/io/g6-api-utilities.c b/c/graphLib/io/g6-api-utilities.c
index 99d6c3e..1cf73cc 100644
--- a/c/graphLib/io/g6-api-utilities.c
+++ b/c/graphLib/io/g6-api-utilities.c
@@ -6,16 +6,16 @@ See the LICENSE.TXT file for licensing information.
 
 #include "g6-api-utilities.h"
 
-int _getMaxEdgeCount(int graphOrder)
+long long _getMaxEdgeCount(int graphOrder)
 {
-	return (graphOrder * (graphOrder - 1)) / 2;
+	return ((long long) graphOrder * (graphOrder - 1)) / 2;
 }
 
 int _getNumCharsForGraphEncoding(int graphOrder)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
 
-	return (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
+	return (int) ((maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0));
 }
 
 int _getNumCharsForGraphOrder(int graphOrder)
@@ -31,8 +31,8 @@ int _getNumCharsForGraphOrder(int graphOrder)
 
 int _getExpectedNumPaddingZeroes(const int graphOrder, const int numChars)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
-	int expectedNumPaddingZeroes = numChars * 6 - maxNumEdges;
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
+	int expectedNumPaddingZeroes = (int) (numChars * 6LL - maxNumEdges);
 
 	return expectedNumPaddingZeroes;
 }
diff --git a/c/graphLib/io/g6-api-utilities.h b/c/graphLib/io/g6-api-utilities.h
index ae6de29..78c2d89 100644
--- a/c/graphLib/io/g6-api-utilities.h
+++ b/c/graphLib/io/g6-api-utilities.h
@@ -11,7 +11,7 @@ See the LICENSE.TXT file for licensing information.
 extern "C" {
 #endif
 
-int _getMaxEdgeCount(int);
+long long _getMaxEdgeCount(int);
 int _getNumCharsForGraphEncoding(int);
 int _getNumCharsForGraphOrder(int);
 int _getExpectedNumPaddingZeroes(const int, const int);
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index ac95b6c..c412e67 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -209,7 +209,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
-	pG6WriteIterator->columnOffsets = (int *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(int));
+	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
 	{
@@ -221,6 +221,12 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->numCharsForGraphOrder = _getNumCharsForGraphOrder(pG6WriteIterator->graphOrder);
 	pG6WriteIterator->numCharsForGraphEncoding = _getNumCharsForGraphEncoding(pG6WriteIterator->graphOrder);
+	if (pG6WriteIterator->numCharsForGraphOrder < 0)
+	{
+		ErrorMessage("Graph order is too large; we only support n <= 100000.\n");
+		return NOTOK;
+	}
+
 	// Must add 3 bytes for newline, possible carriage return, and null terminator
 	pG6WriteIterator->currGraphBuffSize = pG6WriteIterator->numCharsForGraphOrder + pG6WriteIterator->numCharsForGraphEncoding + 3;
 	pG6WriteIterator->currGraphBuff = (char *) calloc(pG6WriteIterator->currGraphBuffSize, sizeof(char));
@@ -234,7 +240,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 	return exitCode;
 }
 
-void _precomputeColumnOffsets(int *columnOffsets, int graphOrder)
+void _precomputeColumnOffsets(long long *columnOffsets, int graphOrder)
 {
 	if (columnOffsets == NULL)
 	{
@@ -299,7 +305,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		return NOTOK;
 	}
 
-	int *columnOffsets = pG6WriteIterator->columnOffsets;
+	long long *columnOffsets = pG6WriteIterator->columnOffsets;
 	if (columnOffsets == NULL)
 	{
 		ErrorMessage("Column offsets array is not allocated.\n");
@@ -372,8 +378,8 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		// bit to set in that byte by left-shifting 1 by (5 - ((columnOffsets[v] + u) % 6))
 		// (transforming the ((columnOffsets[v] + u) % 6)th bit from the left to the
 		// (5 - ((columnOffsets[v] + u) % 6))th bit from the right)
-		charOffset = numCharsForGraphOrder + ((columnOffsets[v] + u) / 6);
-		bitPositionPower = 5 - ((columnOffsets[v] + u) % 6);
+		charOffset = numCharsForGraphOrder + (int) ((columnOffsets[v] + u) / 6);
+		bitPositionPower = 5 - (int) ((columnOffsets[v] + u) % 6);
 
 		g6Encoding[charOffset] |= (1u << bitPositionPower);
 
diff --git a/c/graphLib/io/g6-write-iterator.h b/c/graphLib/io/g6-write-iterator.h
index b3314aa..6b88b0c 100644
--- a/c/graphLib/io/g6-write-iterator.h
+++ b/c/graphLib/io/g6-write-iterator.h
@@ -29,7 +29,7 @@ extern "C"
 		int currGraphBuffSize;
 		char *currGraphBuff;
 
-		int *columnOffsets;
+		long long *columnOffsets;
 
 		graphP currGraph;
 	} G6WriteIterator;
@@ -45,7 +45,7 @@ extern "C"
 	int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE *g6Outfile);
 	int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6OutputStr);
 	int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator);
-	void _precomputeColumnOffsets(int *, int);
+	void _precomputeColumnOffsets(long long *, int);
 
 	int writeGraphUsingG6WriteIterator(G6WriteIterator *);
 
-- 
2.43.0


From 1733703e898a8dcb4ec6363da4c8d1d8e74fc5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 13/68] fix: write .g6 without extension data and into a fresh
 string

---
 c/graphLib/io/graphIO.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index e7e0e6d..efd6d72 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -942,7 +942,8 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // Extra data is not allowed for the .g6 format
+    if (RetVal == OK && Mode != WRITE_G6)
     {
         void *extraData = NULL;
         long extraDataSize;
@@ -996,6 +997,7 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
     switch (Mode)
     {
     case WRITE_G6:
+        *pOutputStr = NULL;
         RetVal = _WriteGraphToG6String(theGraph, pOutputStr);
         sb_Free(&outBuf);
         break;
@@ -1010,7 +1012,8 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // Extra data is not allowed for the .g6 format
+    if (RetVal == OK && Mode != WRITE_G6)
     {
         void *extraData = NULL;
         long extraDataSize;
@@ -1020,7 +1023,10 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         if (extraData != NULL)
         {
             for (int i = 0; i < extraDataSize; i++)
-                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
+            {
+                if (sb_ConcatChar(outBuf, ((char *)extraData)[i]) != OK)
+                    RetVal = NOTOK;
+            }
             free(extraData);
         }
     }
-- 
2.43.0


From 298b2228eea128a5618946dbf71e32c220cf5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:26 +0000
Subject: [PATCH 14/68] fix: refuse graph sizes whose storage sizes overflow
 int

---
 c/graphLib/graphUtils.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 273b8ab..de5e80d 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -4,6 +4,7 @@ All rights reserved.
 See the LICENSE.TXT file for licensing information.
 */
 
+#include <limits.h>
 #include <stdlib.h>
 
 #include "graphStructures.h"
@@ -193,6 +194,10 @@ int gp_InitGraph(graphP theGraph, int N)
     if (theGraph == NULL || N <= 0)
         return NOTOK;
 
+    // The stack size of 4 * DEFAULT_EDGE_LIMIT * N, plus a few, must be representable
+    if (N > INT_MAX / (4 * DEFAULT_EDGE_LIMIT) - 1)
+        return NOTOK;
+
     // Should not call init a second time; use reinit
     if (theGraph->N)
         return NOTOK;
@@ -400,6 +405,10 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     if (theGraph == NULL || requiredArcCapacity <= 0)
         return NOTOK;
 
+    // The stack size of 2 integers per arc, plus a few, must be representable
+    if (requiredArcCapacity > INT_MAX / 2 - 4)
+        return NOTOK;
+
     // Train callers to only ask for an even number of arcs, since
     // two are required per edge or directed edge.
     if (requiredArcCapacity & 1)
-- 
2.43.0


From f2e0804665db04f691549e3e5594a7b488d81f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:26 +0000
Subject: [PATCH 15/68] fix: reject .g6 input that ends after the first graph
 order

---
 c/graphLib/io/g6-read-iterator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 30d7ca1..bd809ed 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -512,6 +512,11 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 		
 		pG6ReadIterator->numGraphsRead = numGraphsRead;
 	}
+	else if (numGraphsRead == 0)
+	{
+		ErrorMessage("No graph encoding follows the graph order on line 1.\n");
+		exitCode = NOTOK;
+	}
 	else
 		pG6ReadIterator->currGraph = NULL;
 
-- 
2.43.0


From eec10e50da8e8c8a18dbfc6f190d11b33a040ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 16/68] fix: restore drawing coordinates to the right edges and
 validate them when reading

---
 .../graphDrawPlanar_Extensions.c              | 106 ++++++++++++++----
 1 file changed, 84 insertions(+), 22 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 92aee53..09c2bb0 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -50,7 +50,7 @@ void _DrawPlanar_FreeContext(void *);
 /****************************************************************************
  * DRAWPLANAR_ID - the variable used to hold the integer identifier for this
  * extension, enabling this feature's extension context to be distinguished
- * from other features' extension contexts that may be attached to a graph.
+ * from other features' extension contexts that may be attached to a graph.
  ****************************************************************************/
 
 int DRAWPLANAR_ID = 0;
@@ -547,6 +547,39 @@ int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
      return OK;
 }
 
+/********************************************************************
+ _FindEdgeRecord()
+
+ Searches the adjacency lists of u and v in lockstep, so that the time
+ depends on the lesser of the two degrees.
+
+ Returns the edge record in u's list that leads to v, or NIL if none
+ ********************************************************************/
+
+static int _FindEdgeRecord(graphP theGraph, int u, int v)
+{
+    int eu, ev;
+
+    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
+        return NIL;
+
+    eu = gp_GetFirstArc(theGraph, u);
+    ev = gp_GetFirstArc(theGraph, v);
+
+    while (gp_IsArc(eu) && gp_IsArc(ev))
+    {
+        if (gp_GetNeighbor(theGraph, eu) == v)
+            return eu;
+        if (gp_GetNeighbor(theGraph, ev) == u)
+            return gp_GetTwinArc(theGraph, ev);
+
+        eu = gp_GetNextArc(theGraph, eu);
+        ev = gp_GetNextArc(theGraph, ev);
+    }
+
+    return NIL;
+}
+
 /********************************************************************
  ********************************************************************/
 
@@ -562,41 +595,70 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
 
         else if (extraData != NULL && extraDataSize > 0)
         {
-            int v, e, tempInt, EsizeOccupied;
+            int v, e, m, tempInt, RetVal = OK;
+            int *vertexAtPos = NULL;
             char line[64], tempChar;
+            char *readPos = (char *) extraData;
+            DrawPlanar_EdgeRec edgeRead;
 
             sprintf(line, "<%s>", DRAWPLANAR_NAME);
 
-            // Find the start of the data for this feature
-            extraData = strstr(extraData, line);
-            if (extraData == NULL)
+            // Find the start of the data for this feature and advance past the start tag line
+            if ((readPos = strstr(readPos, line)) == NULL || (readPos = strchr(readPos, '\n')) == NULL)
                 return NOTOK;
+            readPos++;
 
-            // Advance past the start tag
-            extraData = (void *) ((char *) extraData + strlen(line)+1);
+            if ((vertexAtPos = (int *) calloc(theGraph->N, sizeof(int))) == NULL)
+                return NOTOK;
 
             // Read the N lines of vertex information
-            for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+            for (v = gp_GetFirstVertex(theGraph); RetVal == OK && gp_VertexInRange(theGraph, v); v++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
-                              &context->VI[v].pos,
-                              &context->VI[v].start,
-                              &context->VI[v].end);
-
-                extraData = strchr(extraData, '\n') + 1;
+                if (sscanf(readPos, " %d%c %d %d %d", &tempInt, &tempChar,
+                                  &context->VI[v].pos,
+                                  &context->VI[v].start,
+                                  &context->VI[v].end) != 5 ||
+                    (readPos = strchr(readPos, '\n')) == NULL ||
+                    context->VI[v].pos < 0 || context->VI[v].pos >= theGraph->N ||
+                    context->VI[v].start < 0 || context->VI[v].start > context->VI[v].end ||
+                    (context->VI[v].end > 0 && context->VI[v].end >= theGraph->M))
+                    RetVal = NOTOK;
+                else
+                {
+                    vertexAtPos[context->VI[v].pos] = v;
+                    readPos++;
+                }
             }
 
-            // Read the lines that contain edge information
-            EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-            for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+            // Read the lines that contain edge information, two per edge.
+            // The edges may not be in the same order as when they were written,
+            // but each one spans the positions of its endpoints.
+            for (m = 0; RetVal == OK && m < 2 * theGraph->M; m++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
-                              &context->E[e].pos,
-                              &context->E[e].start,
-                              &context->E[e].end);
+                if (sscanf(readPos, " %d%c %d %d %d", &tempInt, &tempChar,
+                                  &edgeRead.pos,
+                                  &edgeRead.start,
+                                  &edgeRead.end) != 5 ||
+                    (readPos = strchr(readPos, '\n')) == NULL ||
+                    edgeRead.pos < 0 || edgeRead.pos >= theGraph->M ||
+                    edgeRead.start < 0 || edgeRead.start > edgeRead.end ||
+                    edgeRead.end >= theGraph->N)
+                    RetVal = NOTOK;
+                else
+                {
+                    e = _FindEdgeRecord(theGraph, vertexAtPos[edgeRead.start], vertexAtPos[edgeRead.end]);
 
-                extraData = strchr(extraData, '\n') + 1;
+                    // No drawing coordinates were assigned before writing
+                    if (gp_IsNotArc(e))
+                        e = gp_GetFirstEdge(theGraph) + m;
+
+                    context->E[e] = context->E[gp_GetTwinArc(theGraph, e)] = edgeRead;
+                    readPos++;
+                }
             }
+
+            free(vertexAtPos);
+            return RetVal;
         }
 
         return OK;
-- 
2.43.0


From 95b494244911b09a25346e57a092bb56c7c3d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 17/68] fix: release the .g6 input when reading fails before it
 is taken over

---
 c/graphLib/io/g6-read-iterator.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index bd809ed..3688547 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -151,6 +151,8 @@ int beginG6ReadIterationFromG6FilePointer(G6ReadIterator *pG6ReadIterator, FILE
 	if (g6Input == NULL)
 	{
 		ErrorMessage("Unable to allocate string-or-file container.\n");
+		if (g6Infile != stdin)
+			fclose(g6Infile);
 		return NOTOK;
 	}
 
@@ -176,6 +178,7 @@ int beginG6ReadIterationFromG6String(G6ReadIterator *pG6ReadIterator, char *g6In
 	if (g6Input == NULL)
 	{
 		ErrorMessage("Unable to allocate string-or-file container.\n");
+		free(g6InputStr);
 		return NOTOK;
 	}
 
@@ -808,6 +811,8 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		if (g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
 		return exitCode;
 	}
 
@@ -851,6 +856,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (g6EncodedString == NULL || strlen(g6EncodedString) == 0)
 	{
 		ErrorMessage("Input string is empty.\n");
+		free(g6EncodedString);
 		return NOTOK;
 	}
 
@@ -860,6 +866,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		free(g6EncodedString);
 		return exitCode;
 	}
 
-- 
2.43.0


From f32a86e2da584bd0caa29fb3600303bfb4b78f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 18/68] fix: release the output and leave no dangling string
 when .g6 writing fails

---
 c/graphLib/io/g6-write-iterator.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index c412e67..7f684ce 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -162,6 +162,14 @@ int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE
 
 	pG6WriteIterator->g6Output = sf_New(g6Outfile, NULL);
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		if (g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -183,11 +191,26 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 	if ((*g6OutputStr) == NULL)
 	{
 		(*g6OutputStr) = (char *) malloc(1 * sizeof(char));
+
+		if ((*g6OutputStr) == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for .g6 output string.\n");
+			return NOTOK;
+		}
+
 		(*g6OutputStr)[0] = '\0';
 	}
 
 	pG6WriteIterator->g6Output = sf_New(NULL, (*g6OutputStr));
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		free((*g6OutputStr));
+		(*g6OutputStr) = NULL;
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -609,6 +632,8 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	{
 		ErrorMessage("Unable to allocate G6WriteIterator.\n");
 		freeG6WriteIterator(&pG6WriteIterator);
+		if (g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		return exitCode;
 	}
 
@@ -670,13 +695,18 @@ int _WriteGraphToG6String(graphP pGraph, char **g6OutputStr)
 	{
 		ErrorMessage("Unable to begin G6 write iteration.\n");
 		freeG6WriteIterator(&pG6WriteIterator);
+		(*g6OutputStr) = NULL;
 		return exitCode;
 	}
 
 	exitCode = writeGraphUsingG6WriteIterator(pG6WriteIterator);
 
 	if (exitCode != OK)
+	{
 		ErrorMessage("Unable to write graph using G6WriteIterator.\n");
+		// The string is released with the iterator
+		(*g6OutputStr) = NULL;
+	}
 	else
 	{
 		(*g6OutputStr) = sf_takeTheStr(pG6WriteIterator->g6Output);
-- 
2.43.0


From d28d429899c7f1dbb99d71661a53125dd7e3aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 19/68] fix: handle allocation failure when taking a string
 from a string buffer

---
 c/graphLib/io/graphIO.c | 4 ++++
 c/graphLib/io/strbuf.c  | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index efd6d72..dec06a4 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -1032,7 +1032,11 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
     }
 
     if (outBuf != NULL)
+    {
         *pOutputStr = sb_TakeString(outBuf);
+        if (*pOutputStr == NULL)
+            RetVal = NOTOK;
+    }
     sb_Free(&outBuf);
 
     return RetVal;
diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index b9e3a89..081185b 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -92,7 +92,7 @@ void sb_ClearBuf(strBufP theStrBuf)
 int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
 {
     char *tempBuf;
-    strBufP newStrBuf = sb_Duplicate(strBufSrc);
+    strBufP newStrBuf = strBufSrc == NULL ? NULL : sb_Duplicate(strBufSrc);
 
     if (strBufDst == NULL || strBufSrc == NULL || newStrBuf == NULL)
     {
@@ -240,6 +240,11 @@ char *sb_TakeString(strBufP theStrBuf)
 
     theBuf = theStrBuf->buf;
     theStrBuf->buf = (char *)malloc(sizeof(char));
+    if (theStrBuf->buf == NULL)
+    {
+        theStrBuf->buf = theBuf;
+        return NULL;
+    }
     theStrBuf->buf[0] = '\0';
     theStrBuf->size = theStrBuf->capacity = 0;
 
-- 
2.43.0


From d1b62528558c291fe5b879425aa56782bf82de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 20/68] fix: forget the vertex info array when a graph is
 cleared

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index de5e80d..85e8ea2 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -851,7 +851,7 @@ void _ClearGraph(graphP theGraph)
     if (theGraph->VI != NULL)
     {
         free(theGraph->VI);
-        theGraph->V = NULL;
+        theGraph->VI = NULL;
     }
     if (theGraph->E != NULL)
     {
-- 
2.43.0


From 63fe093d610daa0766a8349b32963c1f8e21b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 21/68] fix: check drawings only when drawing, and obstructions
 otherwise

---
 .../graphDrawPlanar_Extensions.c              | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 09c2bb0..db363df 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -533,7 +533,11 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
         if (context->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph) != OK)
             return NOTOK;
 
-        return _CheckVisibilityRepresentationIntegrity(context);
+        // There is only a drawing to check if one was requested
+        if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+            return _CheckVisibilityRepresentationIntegrity(context);
+
+        return OK;
     }
 
     return NOTOK;
@@ -544,7 +548,19 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
 
 int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
 {
-     return OK;
+    DrawPlanarContext *context = NULL;
+    gp_FindExtension(theGraph, DRAWPLANAR_ID, (void *)&context);
+
+    if (context != NULL)
+    {
+        // No obstruction is isolated when a drawing is requested
+        if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+            return OK;
+
+        return context->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
+    }
+
+    return NOTOK;
 }
 
 /********************************************************************
-- 
2.43.0


From 635603823a333084697ab55e15acfd9129567014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:22 +0000
Subject: [PATCH 22/68] fix: report failure of the base graph initialisation
 from the extensions

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 5 ++---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 5 ++---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 468f724..731b18d 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -262,9 +262,8 @@ int  _K33Search_InitGraph(graphP theGraph, int N)
 		_K33Search_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	// A failing base function frees the extensions too, including the context
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 13ff6a0..0360949 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -221,9 +221,8 @@ int  _K4Search_InitGraph(graphP theGraph, int N)
 		_K4Search_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	// A failing base function frees the extensions too, including the context
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index db363df..606d303 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -313,9 +313,8 @@ int  _DrawPlanar_InitGraph(graphP theGraph, int N)
 		_DrawPlanar_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+	// A failing base function frees the extensions too, including the context
+	return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
-- 
2.43.0


From 0d19ba41238684cb2a3ecbfadefd4f4a0a320974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 23/68] fix: report the full arc capacity and grow it for every
 order

gp_GetArcCapacity() returned two less than the arc capacity, which also
kept gp_DynamicAddEdge() from growing a graph with capacity for one edge,
and N * (N - 1) overflowed for N > 46341 so that no growth happened.
---
 c/graphLib/graphUtils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 85e8ea2..199d25d 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -346,7 +346,7 @@ void _ReinitializeGraph(graphP theGraph)
  ********************************************************************/
 int gp_GetArcCapacity(graphP theGraph)
 {
-    return theGraph->arcCapacity - gp_GetFirstEdge(theGraph);
+    return theGraph->arcCapacity;
 }
 
 /********************************************************************
@@ -1682,9 +1682,14 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
 
     if (Result == NONEMBEDDABLE)
     {
-        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
+        int newArcCapacity = gp_GetArcCapacity(theGraph) * 2;
         int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
+
+        // Do not exceed N * (N - 1), the arc capacity needed by the complete graph,
+        // noting that N * (N - 1) may not be representable as an integer
+        if (newArcCapacity / N >= N - 1)
+            newArcCapacity = N * (N - 1);
+
         Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
 
         if (Result != OK)
-- 
2.43.0


From fa5577ccb265fd27cc123bf75647d04f1bd3066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 24/68] fix: make the graph stack big enough for hidden
 vertices

Hiding or identifying a vertex pushes seven integers plus one for each
hidden edge, which overran the stack of a graph with small arc capacity.
---
 c/graphLib/graphUtils.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 199d25d..8683c91 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -176,8 +176,8 @@ void _InitFunctionTable(graphP theGraph)
  The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
 
  The stack, initially empty, is made big enough for a pair of integers
-     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
-     was set below the default value.
+     per edge record (2 * arcCapacity), or 7N integers plus one per edge if
+     the arcCapacity was set below the default value.
 
  The edgeHoles stack, initially empty, is set to arcCapacity / 2,
      which is big enough to push every edge (to indicate an edge
@@ -217,9 +217,10 @@ int _InitGraph(graphP theGraph, int N)
     Vsize = gp_VertexIndexBound(theGraph);
     Esize = gp_EdgeIndexBound(theGraph);
 
-    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
+    // Stack size is 2 integers per arc, or in case of small arcCapacity, 7 integers per vertex
+    // plus one per edge, as needed to record that all vertices and edges have been hidden
     stackSize = 2 * Esize;
-    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
+    stackSize = stackSize < 7 * N + Esize / 2 ? 7 * N + Esize / 2 : stackSize;
 
     // Allocate memory as described above
     if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
@@ -442,19 +443,15 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
         return OK;
 
     // Expand theStack
-    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
+    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity ||
+        sp_GetCapacity(theGraph->theStack) < 7 * theGraph->N + newEsize / 2)
     {
         int stackSize = 2 * requiredArcCapacity;
 
-        if (stackSize < 6 * theGraph->N)
+        if (stackSize < 7 * theGraph->N + newEsize / 2)
         {
-            // NOTE: Since this routine only makes the stack bigger, this
-            //       calculation is not needed here because we already ensured
-            //       we had stack capacity of the greater of 2*arcs and 6*N
-            //       But we do it for clarity and consistency (e.g. so this rule
-            //       is not forgotten whenever a "SetArcCapacity" method or a
-            //       "reduceArcCapacity" method is added)
-            stackSize = 6 * theGraph->N;
+            // Hidden vertices need 7 integers each, plus 1 for each hidden edge
+            stackSize = 7 * theGraph->N + newEsize / 2;
         }
 
         if ((newStack = sp_New(stackSize)) == NULL)
-- 
2.43.0


From 38921dc422abbe6ae333ce347b4c9a8be8b6a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 25/68] fix: end the adjacency list of a restored vertex at its
 last arc

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 8683c91..80bfec7 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2296,7 +2296,7 @@ int _RestoreVertex(graphP theGraph)
         if (gp_IsArc(e_v_first))
             gp_SetPrevArc(theGraph, e_v_first, NIL);
         if (gp_IsArc(e_v_last))
-            gp_SetPrevArc(theGraph, e_v_last, NIL);
+            gp_SetNextArc(theGraph, e_v_last, NIL);
 
         // For each edge record restored to v's adjacency list, reassign the 'v' member
         //    of each twin arc to indicate v rather than u.
-- 
2.43.0


From d80c5e33730b7f121b83f6c38c8a4ffdb46c6145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 26/68] fix: let gp_RestoreVertices undo a direct edge
 contraction

Only _IdentifyVertices() included the contracted edge in the hidden edges
of the stack segment, so that after gp_ContractEdge() the edge was left on
the stack and the restoration failed.
---
 c/graphLib/graphUtils.c | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 80bfec7..4f3d855 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2012,7 +2012,7 @@ int gp_ContractEdge(graphP theGraph, int e)
 
 int _ContractEdge(graphP theGraph, int e)
 {
-    int eBefore, u, v;
+    int eBefore, u, v, hiddenEdgeStackBottom;
 
     if (gp_IsNotArc(e))
         return NOTOK;
@@ -2021,10 +2021,20 @@ int _ContractEdge(graphP theGraph, int e)
     v = gp_GetNeighbor(theGraph, e);
 
     eBefore = gp_GetNextArc(theGraph, e);
+    hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
     sp_Push(theGraph->theStack, e);
     gp_HideEdge(theGraph, e);
 
-    return gp_IdentifyVertices(theGraph, u, v, eBefore);
+    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
+        return NOTOK;
+
+    // The method above pushes K hidden edges, then an integer indicating
+    // where the top of stack was before those edges were hidden, and then
+    // six more integers to indicate the edges that were moved from v to u.
+    // The hidden edges stackBottom is adjusted to also include the edge e.
+    sp_Set(theGraph->theStack, sp_GetCurrentSize(theGraph->theStack) - 7, hiddenEdgeStackBottom);
+
+    return OK;
 }
 
 /********************************************************************
@@ -2073,29 +2083,9 @@ int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
     int hiddenEdgeStackBottom, eBeforePred;
 
     // If the vertices are adjacent, then the identification is
-    // essentially an edge contraction with a bit of fixup.
+    // an edge contraction.
     if (gp_IsArc(e))
-    {
-        int result = gp_ContractEdge(theGraph, e);
-
-        // The edge contraction operation pushes one hidden edge then
-        // recursively calls this method. This method then pushes K
-        // hidden edges then an integer indicating where the top of
-        // stack was before the edges were hidden. That integer
-        // indicator must be decremented, thereby incrementing the
-        // number of hidden edges to K+1.
-        // After pushing the K hidden edges and the stackBottom of
-        // the hidden edges, the recursive call to this method pushes
-        // six more integers to indicate edges that were moved from
-        // v to u, so the "hidden edges stackBottom" is in the next
-        // position down.
-        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
-        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
-
-        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
-
-        return result;
-    }
+        return gp_ContractEdge(theGraph, e);
 
     // Now, u and v are not adjacent. Before we do any edge hiding or
     // moving, we record the current stack size, as this is the
-- 
2.43.0


From 3d47bb63f52893fa9cdac49e3948994c3579dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:03 +0000
Subject: [PATCH 27/68] fix: keep the edge records when they cannot be
 reallocated

---
 c/graphLib/graphUtils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 4f3d855..2fb1aa4 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -434,6 +434,7 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
+    edgeRecP newE;
     int e, Esize = gp_EdgeIndexBound(theGraph),
            newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
 
@@ -473,9 +474,10 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     theGraph->edgeHoles = newStack;
 
     // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
+    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (newE == NULL)
         return NOTOK;
+    theGraph->E = newE;
 
     // Initialize the new edge records
     for (e = Esize; e < newEsize; e++)
-- 
2.43.0


From 7ddfcfa7f9fd47f0ed6bc0db8a041cb0bc06a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:03 +0000
Subject: [PATCH 28/68] fix: replace the direction of an edge when it is set to
 another

---
 c/graphLib/graphStructures.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/graphStructures.h b/c/graphLib/graphStructures.h
index 48d2dc4..a3d3d3a 100644
--- a/c/graphLib/graphStructures.h
+++ b/c/graphLib/graphStructures.h
@@ -148,6 +148,8 @@ extern "C"
 // to edgeFlag_Direction and e's twin arc is set to the opposing setting.
 #define gp_SetDirection(theGraph, e, edgeFlag_Direction)                                       \
 	{                                                                                          \
+		theGraph->E[e].flags &= ~EDGEFLAG_DIRECTION_MASK;                                      \
+		theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;             \
 		if (edgeFlag_Direction == EDGEFLAG_DIRECTION_INONLY)                                   \
 		{                                                                                      \
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_INONLY;                                 \
@@ -158,11 +160,6 @@ extern "C"
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_OUTONLY;                                \
 			theGraph->E[gp_GetTwinArc(theGraph, e)].flags |= EDGEFLAG_DIRECTION_INONLY;        \
 		}                                                                                      \
-		else                                                                                   \
-		{                                                                                      \
-			theGraph->E[e].flags &= ~(EDGEFLAG_DIRECTION_INONLY | EDGEFLAG_DIRECTION_OUTONLY); \
-			theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;         \
-		}                                                                                      \
 	}
 
 #define gp_CopyEdgeRec(dstGraph, edst, srcGraph, esrc) (dstGraph->E[edst] = srcGraph->E[esrc])
-- 
2.43.0


From bbe6d0ae280d9779e878f4c74f076bba17d419fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:19 +0000
Subject: [PATCH 29/68] fix: clear the additional edge records of a larger
 graph copied into

gp_CopyGraph() left the content of the edge records that the destination
has beyond the arc capacity of the source, to be reused by new edges.
---
 c/graphLib/graphUtils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 2fb1aa4..7c528bb 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1008,6 +1008,10 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
     for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
         gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
 
+    // Any edge records that only dstGraph has are not in use after the copy
+    for (Esize = gp_EdgeIndexBound(dstGraph); e < Esize; e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Give the dstGraph the same size and intrinsic properties
     dstGraph->N = srcGraph->N;
     dstGraph->NV = srcGraph->NV;
-- 
2.43.0


From 8bb8c6007dbcfd05acad44214bb3cb7621bf067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:19 +0000
Subject: [PATCH 30/68] fix: copy only the edge records that the source of an
 extension has

Copying an extension into a graph of larger arc capacity, such as that of
a duplicate of a graph with small arc capacity, read beyond the edge
records of the source context.
---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 5 +++--
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 5 +++--
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 731b18d..0001209 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -312,7 +312,7 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -322,7 +322,8 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
          _K33Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K33Search_CreateStructures(newContext) != OK)
+             if (_K33Search_CreateStructures(newContext) != OK ||
+                 _K33Search_InitStructures(newContext) != OK)
              {
                  _K33Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 0360949..1f75c20 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -268,7 +268,7 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -278,7 +278,8 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
          _K4Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K4Search_CreateStructures(newContext) != OK)
+             if (_K4Search_CreateStructures(newContext) != OK ||
+                 _K4Search_InitStructures(newContext) != OK)
              {
                  _K4Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 606d303..9524c33 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -255,7 +255,7 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -265,7 +265,8 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
          _DrawPlanar_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_DrawPlanar_CreateStructures(newContext) != OK)
+             if (_DrawPlanar_CreateStructures(newContext) != OK ||
+                 _DrawPlanar_InitStructures(newContext) != OK)
              {
                  _DrawPlanar_FreeContext(newContext);
                  return NULL;
-- 
2.43.0


From 3e1f5daf15c9679d3624ca7864370debfe9d610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:19 +0000
Subject: [PATCH 31/68] fix: give each copied extension its own function table

The copy pointed to the function table in the context of the source, which
broke on removing an extension from either graph, or after freeing one,
and a failure to duplicate the context was not reported.
---
 c/graphLib/extensionSystem/graphExtensions.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 1dee8d0..efe80de 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -487,9 +487,17 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
 
         newNext->moduleID = next->moduleID;
         newNext->context = next->dupContext(next->context, dstGraph);
+        if (newNext->context == NULL)
+        {
+            free(newNext);
+            gp_FreeExtensions(dstGraph);
+            return NOTOK;
+        }
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
-        newNext->functions = next->functions;
+        // The function table is part of the context, so the duplicate has its own
+        newNext->functions = (graphFunctionTableP)((char *)newNext->context +
+                                                   ((char *)next->functions - (char *)next->context));
         newNext->next = NULL;
 
         if (newLast != NULL)
-- 
2.43.0


From 26e80722d19137129a827b2aca649292d93beca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:40 +0000
Subject: [PATCH 32/68] fix: check for a NULL graph in gp_InsertEdge before
 using it

---
 c/graphLib/graphUtils.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 7c528bb..673d500 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1721,11 +1721,15 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
 int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
                   int v, int e_v, int e_vlink)
 {
-    int vertMax = gp_GetLastVirtualVertex(theGraph),
-        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
-        upos, vpos;
+    int vertMax, edgeMax, upos, vpos;
 
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+    if (theGraph == NULL)
+        return NOTOK;
+
+    vertMax = gp_GetLastVirtualVertex(theGraph);
+    edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1;
+
+    if (u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
         u > vertMax || v > vertMax ||
         e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
         e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
-- 
2.43.0


From aeb3771b8364bb9bd750b13685285ddc92893f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:40 +0000
Subject: [PATCH 33/68] fix: remove the extension if its structures cannot be
 allocated

The attach functions freed the context but left it in the extension list
of the graph.
---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 3 ++-
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 3 ++-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 0001209..08aa55f 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -130,7 +130,8 @@ int  gp_AttachK33Search(graphP theGraph)
          if (_K33Search_CreateStructures(context) != OK ||
              _K33Search_InitStructures(context) != OK)
          {
-             _K33Search_FreeContext(context);
+             // The context now belongs to the extension, so it is freed with it
+             gp_RemoveExtension(theGraph, K33SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 1f75c20..5f60bc9 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -118,7 +118,8 @@ int  gp_AttachK4Search(graphP theGraph)
          if (_K4Search_CreateStructures(context) != OK ||
              _K4Search_InitStructures(context) != OK)
          {
-             _K4Search_FreeContext(context);
+             // The context now belongs to the extension, so it is freed with it
+             gp_RemoveExtension(theGraph, K4SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 9524c33..0159df6 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -143,7 +143,8 @@ int  gp_AttachDrawPlanar(graphP theGraph)
          if (_DrawPlanar_CreateStructures(context) != OK ||
              _DrawPlanar_InitStructures(context) != OK)
          {
-             _DrawPlanar_FreeContext(context);
+             // The context now belongs to the extension, so it is freed with it
+             gp_RemoveExtension(theGraph, DRAWPLANAR_ID);
              return NOTOK;
          }
      }
-- 
2.43.0


From a238b0a3503e3558d5ea892e4b9c2d825a534dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 34/68] fix: reset the read position when a string buffer gets
 other content (G08)

---
 c/graphLib/io/strbuf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 081185b..7963555 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -108,6 +108,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
 
     strBufDst->size = strBufSrc->size;
     strBufDst->capacity = strBufSrc->capacity;
+    strBufDst->readPos = 0;
 
     return OK;
 }
@@ -122,7 +123,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
  ********************************************************************/
 strBufP sb_Duplicate(strBufP theStrBuf)
 {
-    strBufP newStrBuf = sb_New(theStrBuf->capacity);
+    strBufP newStrBuf = theStrBuf == NULL ? NULL : sb_New(theStrBuf->capacity);
 
     if (newStrBuf == NULL)
         return NULL;
@@ -246,7 +247,7 @@ char *sb_TakeString(strBufP theStrBuf)
         return NULL;
     }
     theStrBuf->buf[0] = '\0';
-    theStrBuf->size = theStrBuf->capacity = 0;
+    theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
 
     return theBuf;
 }
-- 
2.43.0


From 55ead8491eabf995847eac7ffbf83e1457a07ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 35/68] fix: refuse to allocate a .g6 iterator without a graph
 or destination (G07)

---
 c/graphLib/io/g6-read-iterator.c  | 10 +++++++++-
 c/graphLib/io/g6-write-iterator.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 3688547..bc2fdc9 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -15,7 +15,13 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 {
 	int exitCode = OK;
 
-	if (ppG6ReadIterator != NULL && (*ppG6ReadIterator) != NULL)
+	if (ppG6ReadIterator == NULL)
+	{
+		ErrorMessage("Pointer to G6ReadIterator pointer is NULL.\n");
+		return NOTOK;
+	}
+
+	if ((*ppG6ReadIterator) != NULL)
 	{
 		ErrorMessage("G6ReadIterator is not NULL and therefore can't be allocated.\n");
 		return NOTOK;
@@ -41,6 +47,8 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 
 		if (exitCode != OK)
 			ErrorMessage("Unable to free the G6ReadIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 	{
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 7f684ce..915c0d9 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -15,7 +15,13 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 {
 	int exitCode = OK;
 
-	if (ppG6WriteIterator != NULL && (*ppG6WriteIterator) != NULL)
+	if (ppG6WriteIterator == NULL)
+	{
+		ErrorMessage("Pointer to G6WriteIterator pointer is NULL.\n");
+		return NOTOK;
+	}
+
+	if ((*ppG6WriteIterator) != NULL)
 	{
 		ErrorMessage("G6WriteIterator is not NULL and therefore can't be allocated.\n");
 		return NOTOK;
@@ -43,6 +49,8 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 
 		if (exitCode != OK)
 			ErrorMessage("Unable to free the G6WriteIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 		(*ppG6WriteIterator)->currGraph = pGraph;
-- 
2.43.0


From a3af661e61abee3cc71f06b7390d5105bbee3ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 36/68] fix: do not write before the buffer in sf_fgets for a
 count of 0 (G08)

---
 c/graphLib/io/strOrFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 314e315..907c08a 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -113,7 +113,7 @@ char sf_ungetc(char theChar, strOrFileP theStrOrFile)
  ********************************************************************/
 char *sf_fgets(char *str, int count, strOrFileP theStrOrFile)
 {
-	if (str == NULL || count < 0 || theStrOrFile == NULL)
+	if (str == NULL || count < 1 || theStrOrFile == NULL)
 		return NULL;
 
 	if (theStrOrFile->pFile != NULL)
-- 
2.43.0


From 114493067fcc285805f34c280f1b6228ddc84865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:56 +0000
Subject: [PATCH 37/68] fix: avoid signed overflow when making random numbers
 (R01)

---
 c/graphLib/graphUtils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 673d500..b29fa26 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1141,7 +1141,7 @@ int gp_CreateRandomGraph(graphP theGraph)
 
 int _GetRandomNumber(int NMin, int NMax)
 {
-    int N = rand();
+    unsigned N = rand();
 
     if (NMax < NMin)
         return NMin;
@@ -1149,8 +1149,8 @@ int _GetRandomNumber(int NMin, int NMax)
     N += ((N & 0xFFFF0000) >> 16);
     N += ((N & 0x0000FF00) >> 8);
     N &= 0x7FFFFFF;
-    N %= (NMax - NMin + 1);
-    return N + NMin;
+    N %= (unsigned)(NMax - NMin + 1);
+    return (int)N + NMin;
 }
 
 /********************************************************************
-- 
2.43.0


From 31994f882fb71b7ea7e004b112003ece68f9a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:56 +0000
Subject: [PATCH 38/68] fix: limit the edges of a random graph to those of the
 complete graph (R01)

---
 c/graphLib/graphUtils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index b29fa26..052fb62 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1245,6 +1245,10 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
     if (numEdges > theGraph->arcCapacity / 2)
         numEdges = theGraph->arcCapacity / 2;
 
+    // No simple graph has more than N(N-1)/2 edges (beyond order 46341, that exceeds any capacity)
+    if (N <= 46341 && numEdges > N * (N - 1) / 2)
+        numEdges = N * (N - 1) / 2;
+
     /* Generate a random tree. */
 
     for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-- 
2.43.0


From 6baef2c026d7b656cc43640874d7e42994c35374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:09 +0000
Subject: [PATCH 39/68] fix: stop at the requested number of edges within a
 planar random graph (R01)

---
 c/graphLib/graphUtils.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 052fb62..c227e1a 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1282,11 +1282,11 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
         {
             if (last != v)
             {
-                if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                     return NOTOK;
             }
 
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+            if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
                 return NOTOK;
 
             v = last = c;
@@ -1301,7 +1301,7 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
                 p = gp_GetVertexParent(theGraph, v);
                 if (gp_IsVertex(p) && p != root)
                 {
-                    if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, p, 1) != OK)
                         return NOTOK;
                 }
             }
@@ -1310,24 +1310,24 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
             {
                 if (p == root)
                 {
-                    if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, v, 1, c, 1) != OK)
                         return NOTOK;
 
                     if (v != last)
                     {
-                        if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                        if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                             return NOTOK;
                     }
                 }
                 else
                 {
-                    if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                         return NOTOK;
                 }
 
                 if (p != root)
                 {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
                         return NOTOK;
                     last = c;
                 }
-- 
2.43.0


From b98262b4cc07815357144a4aea2d884bfcba9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 40/68] fix: avoid overflow in the edge limit of random graphs
 (R02)

---
 c/graphLib/graphUtils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index c227e1a..805436f 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1106,7 +1106,8 @@ int gp_CreateRandomGraph(graphP theGraph)
 
     M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
 
-    if (M > N * (N - 1) / 2)
+    // Beyond order 46341, a complete graph has more edges than any arc capacity
+    if (N <= 46341 && M > N * (N - 1) / 2)
         M = N * (N - 1) / 2;
 
     for (m = N - 1; m < M; m++)
-- 
2.43.0


From 1c10656b8356300408b8a671c83d2515bf3b078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:24 +0000
Subject: [PATCH 41/68] fix: return no string when gp_WriteToString fails

---
 c/graphLib/io/graphIO.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index dec06a4..7768b18 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -1033,7 +1033,8 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
 
     if (outBuf != NULL)
     {
-        *pOutputStr = sb_TakeString(outBuf);
+        // There is only a string to free on success
+        *pOutputStr = RetVal == OK ? sb_TakeString(outBuf) : NULL;
         if (*pOutputStr == NULL)
             RetVal = NOTOK;
     }
-- 
2.43.0


From 8c9676fa94ba74611c8038a7028f40586ed586f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:24 +0000
Subject: [PATCH 42/68] fix: report failures of the output stream when writing
 or rendering

---
 c/graphLib/io/graphIO.c                       | 14 +++++++++++---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 15 +++++++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 7768b18..34b3ae0 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -959,10 +959,18 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
     }
 
     if (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0)
-        fflush(Outfile);
+    {
+        if (fflush(Outfile) != 0 || (Outfile != NULL && ferror(Outfile)))
+            RetVal = NOTOK;
+    }
 
-    else if (Outfile != NULL && fclose(Outfile) != 0)
-        RetVal = NOTOK;
+    else if (Outfile != NULL)
+    {
+        if (ferror(Outfile))
+            RetVal = NOTOK;
+        if (fclose(Outfile) != 0)
+            RetVal = NOTOK;
+    }
 
     return RetVal;
 }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 8cb7a69..9d05492 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -908,6 +908,7 @@ int gp_DrawPlanar_RenderToFile(graphP theEmbedding, char *theFileName)
     {
         FILE *outfile;
         char *theRendition;
+        int RetVal = OK;
 
         if (strcmp(theFileName, "stdout") == 0)
             outfile = stdout;
@@ -922,17 +923,23 @@ int gp_DrawPlanar_RenderToFile(graphP theEmbedding, char *theFileName)
         theRendition = _RenderToString(theEmbedding);
         if (theRendition != NULL)
         {
-            fprintf(outfile, "%s", theRendition);
+            if (fprintf(outfile, "%s", theRendition) < 0)
+                RetVal = NOTOK;
             free(theRendition);
         }
+        else
+            RetVal = NOTOK;
 
         if (strcmp(theFileName, "stdout") == 0 || strcmp(theFileName, "stderr") == 0)
-            fflush(outfile);
+        {
+            if (fflush(outfile) != 0)
+                RetVal = NOTOK;
+        }
 
         else if (fclose(outfile) != 0)
-            return NOTOK;
+            RetVal = NOTOK;
 
-        return theRendition ? OK : NOTOK;
+        return RetVal;
     }
 
     return NOTOK;
-- 
2.43.0


From 97a08413921af67a7f8c3a17fac55b0a71de5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:24 +0000
Subject: [PATCH 43/68] fix: report read errors instead of the end of a .g6
 file

---
 c/graphLib/io/g6-read-iterator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index bc2fdc9..d27ec5a 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -528,6 +528,11 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 		ErrorMessage("No graph encoding follows the graph order on line 1.\n");
 		exitCode = NOTOK;
 	}
+	else if (g6Input->pFile != NULL && ferror(g6Input->pFile))
+	{
+		ErrorMessage("Unable to read from the .g6 file.\n");
+		exitCode = NOTOK;
+	}
 	else
 		pG6ReadIterator->currGraph = NULL;
 
-- 
2.43.0


From 707ccb2b014c8e3cd9e1c80bd483f748302eabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:46 +0000
Subject: [PATCH 44/68] fix: report an incomplete command line as an error, not
 as non-embeddable (L07)

---
 c/planarityApp/planarityCommandLine.c | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 813d1e3..a4fedf3 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -605,13 +605,13 @@ int callRandomGraphs(int argc, char *argv[])
 	int offset = 0, NumGraphs, SizeOfGraphs;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
-		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
+		Choice = argv[3][0] == '-' ? argv[3][1] : 0;
 		offset = 1;
 	}
 
@@ -632,13 +632,13 @@ int callSpecificGraph(int argc, char *argv[])
 	int offset = 0;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
-		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
+		Choice = argv[3][0] == '-' ? argv[3][1] : 0;
 		offset = 1;
 	}
 
@@ -661,12 +661,12 @@ int callRandomMaxPlanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -689,12 +689,12 @@ int callRandomNonplanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -720,12 +720,12 @@ int callTransformGraph(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -756,12 +756,12 @@ int callTestAllGraphs(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
-- 
2.43.0


From f137aed1e5f7f6f8cf702aad9b4a6071831e6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:46 +0000
Subject: [PATCH 45/68] fix: do not accept a missing or unknown algorithm
 command (L07)

---
 c/planarityApp/planarity.h              |  1 +
 c/planarityApp/planarityMenu.c          |  4 ++--
 c/planarityApp/planarityRandomGraphs.c  | 10 ++++++++--
 c/planarityApp/planaritySpecificGraph.c |  4 ++--
 c/planarityApp/planarityTestAllGraphs.c |  2 +-
 c/planarityApp/planarityUtils.c         |  9 +++++++++
 6 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/c/planarityApp/planarity.h b/c/planarityApp/planarity.h
index 1b22d13..be1334e 100644
--- a/c/planarityApp/planarity.h
+++ b/c/planarityApp/planarity.h
@@ -57,6 +57,7 @@ extern "C"
     int TextFilesEqual(char *file1Name, char *file2Name);
     int BinaryFilesEqual(char *file1Name, char *file2Name);
 
+    int IsAlgorithmChoice(char command);
     int GetEmbedFlags(char command);
     char *GetAlgorithmName(char command);
     char *GetTransformationName(char command);
diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 83eff4f..66ac1f2 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -53,7 +53,7 @@ int menu(void)
             if (Choice == 'p' || Choice == 'd' || Choice == 'o')
                 secondOutfile = "";
 
-            if (!strchr(GetAlgorithmChoices(), Choice))
+            if (!IsAlgorithmChoice(Choice))
             {
                 Message("Invalid menu choice, please try again.");
             }
@@ -207,7 +207,7 @@ void TestAllGraphsMenu(void)
         fflush(stdin);
         scanf(" %c", &algorithmSpecifier);
         algorithmSpecifier = tolower(algorithmSpecifier);
-        if (strchr(GetAlgorithmChoices(), algorithmSpecifier))
+        if (IsAlgorithmChoice(algorithmSpecifier))
             sprintf(commandStr, "-%c", algorithmSpecifier);
     } while (strlen(commandStr) == 0);
 
diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index ae028f1..2bf6d07 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -40,6 +40,12 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	char messageContents[MAXLINE + 1];
 	int charsAvailForStr = 0;
 
+	if (!IsAlgorithmChoice(command))
+	{
+		ErrorMessage("Unsupported algorithm command.\n");
+		return NOTOK;
+	}
+
 	GetNumberIfZero(&NumGraphs, "Enter number of graphs to generate:", 1, 1000000000);
 	GetNumberIfZero(&SizeOfGraphs, "Enter size of graphs:", 1, 10000);
 
@@ -95,7 +101,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 
 			gp_CopyGraph(origGraph, theGraph);
 
-			if (strchr(GetAlgorithmChoices(), command))
+			if (IsAlgorithmChoice(command))
 			{
 				Result = gp_Embed(theGraph, embedFlags);
 
@@ -405,7 +411,7 @@ char saveEdgeListFormat;
 	Message("Now processing\n");
 	FlushConsole(stdout);
 
-	if (strchr(GetAlgorithmChoices(), command))
+	if (IsAlgorithmChoice(command))
 	{
 		platform_GetTime(start);
 		Result = gp_Embed(theGraph, embedFlags);
diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 64f7279..7dfd55f 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -72,7 +72,7 @@ int Result = OK;
 		origGraph = gp_DupGraph(theGraph);
 
         // Run the algorithm
-        if (strchr(GetAlgorithmChoices(), command))
+        if (IsAlgorithmChoice(command))
         {
 			switch (command)
 			{
@@ -120,7 +120,7 @@ int Result = OK;
 	else
 	{
         // Restore the vertex ordering of the original graph (undo DFS numbering)
-        if (strchr(GetAlgorithmChoices(), command))
+        if (IsAlgorithmChoice(command))
             gp_SortVertices(theGraph);
 
         // Determine the name of the primary output file
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 07b6361..0c86025 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -59,7 +59,7 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 
 	if (commandString[0] == '-')
 	{
-		if (strchr(GetAlgorithmChoices(), commandString[1]))
+		if (IsAlgorithmChoice(commandString[1]))
 		{
 			if (infileName == NULL)
 			{
diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 308f96f..91e8521 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -361,6 +361,15 @@ char *GetAlgorithmChoices(void)
 	return "pdo234";
 }
 
+/****************************************************************************
+ ****************************************************************************/
+
+int IsAlgorithmChoice(char command)
+{
+	// The string terminator is found by strchr(), but is not an algorithm
+	return command != '\0' && strchr(GetAlgorithmChoices(), command) != NULL;
+}
+
 /****************************************************************************
  ****************************************************************************/
 
-- 
2.43.0


From a5b5b67f9f5e1eeffcdefd67146b2f5597e73473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:46 +0000
Subject: [PATCH 46/68] fix: limit file names in the messages of test-all to
 the message buffer (L07)

---
 c/planarityApp/planarityTestAllGraphs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 0c86025..c8bccc2 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -79,8 +79,8 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 				FILE *infile = fopen(infileName, "r");
 				if (infile == NULL)
 				{
-					charsAvailForFilename = (int)(MAXLINE - strlen(infileName));
 					messageFormat = "Unable to open file \"%.*s\" for input.\n";
+					charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 					sprintf(messageContents, messageFormat, charsAvailForFilename, infileName);
 					ErrorMessage(messageContents);
 
@@ -329,8 +329,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 		FILE *outputFileP = fopen(outfileName, "w");
 		if (outputFileP == NULL)
 		{
-			charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 			messageFormat = "Unable to open file \"%.*s\" for output.\n";
+			charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 			ErrorMessage(messageContents);
 		}
@@ -421,9 +421,9 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 
 	if (sf_closeFile(testOutput) != OK)
 	{
-		charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 		messageFormat = "Unable to close output file \"%.*s\".\n";
-		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
+		charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
+		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName != NULL ? outfileName : "");
 		ErrorMessage(messageContents);
 		Result = NOTOK;
 	}
-- 
2.43.0


From 8edd2322262f38257e693769f2d1f11734b20c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:46 +0000
Subject: [PATCH 47/68] fix: let test-all draw and search graphs of a single
 vertex (L02)

---
 c/planarityApp/planarityTestAllGraphs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index c8bccc2..85b8b19 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -174,7 +174,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	// We have to set the maximum arc capacity (i.e. (N * (N - 1))) because some of the test files
 	// can contain complete graphs, and the graph drawing, K_{3, 3} search, and K_4 search extensions
 	// don't support expanding the arc capacity after being attached.
-	if (strchr("d34", command) != NULL)
+	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
 		Result = gp_EnsureArcCapacity(pG6ReadIterator->currGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
@@ -206,7 +206,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		return Result;
 	}
 
-	if (strchr("d34", command) != NULL)
+	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
 		Result = gp_EnsureArcCapacity(copyOfOrigGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
-- 
2.43.0


From df3d95072c4de5f06aa8870083936df9dafef5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 48/68] fix: keep the counts of random graphs quiet in quiet
 mode (L04)

---
 c/planarityApp/planarityRandomGraphs.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 2bf6d07..8239c1e 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -74,8 +74,11 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	countUpdateFreq = countUpdateFreq % 5 == 0 ? countUpdateFreq+2 : countUpdateFreq;
 
 	// Start the count
-	fprintf(stdout, "0\r");
-	fflush(stdout);
+	if (!getQuietModeSetting())
+	{
+		fprintf(stdout, "0\r");
+		fflush(stdout);
+	}
 
 	// Start the timer
 	platform_GetTime(start);
@@ -213,8 +216,11 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	platform_GetTime(end);
 
 	// Finish the count
-	fprintf(stdout, "%d\n", NumGraphs);
-	fflush(stdout);
+	if (!getQuietModeSetting())
+	{
+		fprintf(stdout, "%d\n", NumGraphs);
+		fflush(stdout);
+	}
 
 	// Free the graph structures created before the loop
 	gp_Free(&theGraph);
-- 
2.43.0


From 5f0322e1aeff9825313afc621c5e67e0ef07eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 49/68] fix: report failure to write the result of the legacy
 command (L07)

---
 c/planarityApp/planarityCommandLine.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index a4fedf3..8fd4954 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -107,6 +107,7 @@ int legacyCommandLine(int argc, char *argv[])
 			int charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, argv[1]);
 			ErrorMessage(messageContents);
+			gp_Free(&theGraph);
 			return -2;
 		}
 	}
@@ -116,7 +117,8 @@ int legacyCommandLine(int argc, char *argv[])
 	if (Result == OK)
 	{
 		gp_SortVertices(theGraph);
-		gp_Write(theGraph, argv[2], WRITE_ADJLIST);
+		if (argc < 3 || gp_Write(theGraph, argv[2], WRITE_ADJLIST) != OK)
+			Result = NOTOK;
 	}
 
 	else if (Result == NONEMBEDDABLE)
@@ -124,7 +126,8 @@ int legacyCommandLine(int argc, char *argv[])
 		if (argc >= 5 && strcmp(argv[3], "-n") == 0)
 		{
 			gp_SortVertices(theGraph);
-			gp_Write(theGraph, argv[4], WRITE_ADJLIST);
+			if (gp_Write(theGraph, argv[4], WRITE_ADJLIST) != OK)
+				Result = NOTOK;
 		}
 	}
 	else
-- 
2.43.0


From 288602dfa6cdfb0610e1e331e59c38ab1a468664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 50/68] fix: release the graph when a transformation is not
 supported (L07)

---
 c/planarityApp/planarityTransformGraph.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index 24923f9..cf6a6da 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -42,6 +42,7 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 		else
 		{
 			ErrorMessage("Invalid argument; only -(gam) is allowed.\n");
+			gp_Free(&theGraph);
 			return NOTOK;
 		}
 
-- 
2.43.0


From 9b3826a1213db1051e1cc71a31d6df20b60f49a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 51/68] fix: report failure to write random graphs (L07)

---
 c/planarityApp/planarityRandomGraphs.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 8239c1e..7a5d161 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -380,7 +380,8 @@ int  Result;
 platform_time start, end;
 graphP theGraph=NULL, origGraph;
 int embedFlags = GetEmbedFlags(command);
-char saveEdgeListFormat;
+char saveEdgeListFormat = 'n';
+int writeResult = OK;
 
 	char *messageFormat = NULL;
 	char messageContents[MAXLINE + 1];
@@ -397,6 +398,7 @@ char saveEdgeListFormat;
 	if (gp_CreateRandomGraphEx(theGraph, 3*numVertices-6+extraEdges) != OK)
 	{
 		ErrorMessage("gp_CreateRandomGraphEx() failed\n");
+		gp_Free(&theGraph);
 		return NOTOK;
 	}
 	platform_GetTime(end);
@@ -408,7 +410,11 @@ char saveEdgeListFormat;
 	// The user may have requested a copy of the random graph before processing
 	if (outfile2Name != NULL)
 	{
-		gp_Write(theGraph, outfile2Name, WRITE_ADJLIST);
+		if (gp_Write(theGraph, outfile2Name, WRITE_ADJLIST) != OK)
+		{
+			ErrorMessage("Failed to write the random graph\n");
+			writeResult = NOTOK;
+		}
 	}
 
 	origGraph = gp_DupGraph(theGraph);
@@ -438,8 +444,11 @@ char saveEdgeListFormat;
 	// user wants the edge list formatted file.
 	if (Result == OK || Result == NONEMBEDDABLE)
 	{
-		if (outfileName != NULL)
-			gp_Write(theGraph, outfileName, WRITE_ADJLIST);
+		if (outfileName != NULL && gp_Write(theGraph, outfileName, WRITE_ADJLIST) != OK)
+		{
+			ErrorMessage("Failed to write the result\n");
+			writeResult = NOTOK;
+		}
 
 		if (!getQuietModeSetting())
 		{
@@ -479,5 +488,5 @@ char saveEdgeListFormat;
 	gp_Free(&origGraph);
 
 	FlushConsole(stdout);
-	return Result;
+	return writeResult == OK ? Result : NOTOK;
 }
-- 
2.43.0


From 0701a201658e5a69ef055838e9b28da911332e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 52/68] fix: stop comparing at the end of the string when a
 file contains null characters (L05)

---
 c/planarityApp/planarityUtils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 91e8521..7519b85 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -189,7 +189,8 @@ int TextFileMatchesString(char *theFilename, char *theString)
 
 			// If c1 doesn't equal c2 (whether c2 is a null terminator or a different character)
 			// then the file content doesn't match the string
-			if (c1 != c2)
+			// or the string has ended where the file has a null character
+			if (c1 != c2 || c2 == '\0')
 			{
 				Result = FALSE;
 				break;
-- 
2.43.0


From 6b7394fc46512e5bfb9580fff7a36bb06b7d7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 53/68] fix: take file names in the menu from the line after
 the choice, and quit at the end of input (L06)

---
 c/planarityApp/planarityMenu.c | 38 ++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 66ac1f2..cc4eed9 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -32,7 +32,9 @@ int menu(void)
 
         Prompt("Enter Choice: ");
         fflush(stdin);
-        scanf(" %c", &Choice);
+        // Quit at the end of the input
+        if (scanf(" %c", &Choice) != 1)
+            Choice = 'q';
         Choice = tolower(Choice);
 
         if (Choice == 'h')
@@ -113,7 +115,11 @@ void TransformGraphMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
+
+        // What remains of the line of the menu choice reads as an empty name
+        infileName[strcspn(infileName, "\n\r")] = '\0';
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -122,11 +128,10 @@ void TransformGraphMenu(void)
         }
     } while (strlen(infileName) == 0);
 
-    infileName[strcspn(infileName, "\n\r")] = '\0';
-
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        return;
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -134,7 +139,8 @@ void TransformGraphMenu(void)
         Message(GetSupportedOutputChoices());
         Prompt("Enter output format: ");
         fflush(stdin);
-        scanf(" %c", &outputFormat);
+        if (scanf(" %c", &outputFormat) != 1)
+            return;
         outputFormat = tolower(outputFormat);
         if (strchr(GetSupportedOutputFormats(), outputFormat))
             sprintf(commandStr, "-%c", outputFormat);
@@ -183,7 +189,11 @@ void TestAllGraphsMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
+
+        // What remains of the line of the menu choice reads as an empty name
+        infileName[strcspn(infileName, "\n\r")] = '\0';
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -192,11 +202,10 @@ void TestAllGraphsMenu(void)
         }
     } while (strlen(infileName) == 0);
 
-    infileName[strcspn(infileName, "\n\r")] = '\0';
-
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        return;
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -205,7 +214,8 @@ void TestAllGraphsMenu(void)
 
         Prompt("Enter algorithm specifier: ");
         fflush(stdin);
-        scanf(" %c", &algorithmSpecifier);
+        if (scanf(" %c", &algorithmSpecifier) != 1)
+            return;
         algorithmSpecifier = tolower(algorithmSpecifier);
         if (IsAlgorithmChoice(algorithmSpecifier))
             sprintf(commandStr, "-%c", algorithmSpecifier);
@@ -229,4 +239,10 @@ void TestAllGraphsMenu(void)
         if (Result != OK)
             ErrorMessage("Algorithm test on all graphs in .g6 input file failed.\n");
     }
+
+    if (outputStr != NULL)
+    {
+        free(outputStr);
+        outputStr = NULL;
+    }
 }
-- 
2.43.0


From fe7dfa50116e45b77bd945c81e3f288f8fc4c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 54/68] fix: limit the length of a file name read by the menu
 (L06)

---
 c/planarityApp/planarityUtils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 7519b85..a05f126 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -528,7 +528,9 @@ char *ConstructInputFilename(char *infileName)
 	{
 		Prompt("Enter graph file name: ");
 		fflush(stdin);
-		scanf(" %s", theFileName);
+		// The limit is FILENAMEMAXLENGTH
+		if (scanf(" %128s", theFileName) != 1)
+			return NULL;
 
 		if (!strchr(theFileName, '.'))
 			strcat(theFileName, ".txt");
-- 
2.43.0


From ef3b7b375d2fad56c71c4663b0c28dd460c13bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 55/68] fix: release the transformed graph text in the
 self-test (L05)

---
 c/planarityApp/planarityCommandLine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 8fd4954..b54d84a 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -559,6 +559,7 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 			if (Result != OK || expectedOutfileName == NULL)
 			{
 				ErrorMessage("Unable to construct output filename for expected transformation output.\n");
+				free(actualOutput);
 				return -1;
 			}
 
@@ -590,6 +591,9 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 				expectedOutfileName = NULL;
 			}
 		}
+
+		if (actualOutput != NULL)
+			free(actualOutput);
 	}
 
 	Message("\n");
-- 
2.43.0


From c4301664bb67f7a1dc7256ac59b178bec62b4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:47 +0000
Subject: [PATCH 56/68] fix: release an empty input string given to
 TransformGraph (L05)

---
 c/planarityApp/planarityTransformGraph.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index cf6a6da..f76faa0 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -97,6 +97,7 @@ int transformString(graphP theGraph, char *inputStr)
 	if (inputStr == NULL || strlen(inputStr) == 0)
 	{
 		ErrorMessage("Input string is null or empty.\n");
+		free(inputStr);
 		return NOTOK;
 	}
 
-- 
2.43.0


From 3934e7e1508dc8dd74a0d56beb08e92dbeebc02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:17 +0000
Subject: [PATCH 57/68] fix: check for a null graph before using it in the DFS
 utilities (G07)

---
 c/graphLib/graphDFSUtils.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 997952f..e9566cb 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -135,6 +135,9 @@ int gp_CreateDFSTree(graphP theGraph)
 
 int gp_SortVertices(graphP theGraph)
 {
+    if (theGraph == NULL)
+        return NOTOK;
+
     return theGraph->functions.fpSortVertices(theGraph);
 }
 
@@ -250,12 +253,14 @@ int _SortVertices(graphP theGraph)
 
 int gp_LowpointAndLeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack;
     int v, u, uneighbor, e, L, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
@@ -378,12 +383,14 @@ int gp_LowpointAndLeastAncestor(graphP theGraph)
 
 int gp_LeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack;
     int v, u, uneighbor, e, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
-- 
2.43.0


From d29f66418f06e1ba364c1944380aa6dfb9602448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:17 +0000
Subject: [PATCH 58/68] fix: clear the visited flags before computing least
 ancestors (E13)

---
 c/graphLib/graphDFSUtils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index e9566cb..c979c4c 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -412,6 +412,8 @@ int gp_LeastAncestor(graphP theGraph)
 
     sp_ClearStack(theStack);
 
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
     // This outer loop causes the connected subgraphs of a disconnected graph to be processed
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v);)
     {
-- 
2.43.0


From 9d9873ab504dfaff8838fe797c6c30c9260f96f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:10 +0000
Subject: [PATCH 59/68] fix: reject the long form of small orders on the first
 .g6 line too (F07)

---
 c/graphLib/io/g6-read-iterator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index d27ec5a..4bd62d9 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -397,6 +397,12 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 			n |= (graphChar - 63) << (6 * i);
 		}
 
+		if (n < 63)
+		{
+			ErrorMessage("Graph order is not in its shortest form.\n");
+			return NOTOK;
+		}
+
 		if (n > 100000)
 		{
 			ErrorMessage("Graph order is too large; we only support n <= 100000.\n");
-- 
2.43.0


From 99e1f26fe81ef4507892757209903236508e181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:57 +0000
Subject: [PATCH 60/68] fix: write the input graph when a homeomorph search
 finds nothing in RandomGraphs (L08)

---
 c/planarityApp/planarityRandomGraphs.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 7a5d161..9ac2ac3 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -113,12 +113,15 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 
 				if (Result == OK)
 				{
+					// A homeomorph search that finds nothing leaves no graph content to write in theGraph
+					graphP embeddableGraph = strchr("234", command) != NULL ? origGraph : theGraph;
+
 					MainStatistic++;
 
 					if (tolower(EmbeddableOut) == 'y')
 					{
 						sprintf(theFileName, "embedded%c%d.txt", FILE_DELIMITER, K%10);
-						writeResult = gp_Write(theGraph, theFileName, WRITE_ADJMATRIX);
+						writeResult = gp_Write(embeddableGraph, theFileName, WRITE_ADJMATRIX);
 						if (writeResult != OK && !writeErrorReported_Embedded)
 						{
 							sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
@@ -130,7 +133,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 					if (tolower(AdjListsForEmbeddingsOut) == 'y')
 					{
 						sprintf(theFileName, "adjlist%c%d.txt", FILE_DELIMITER, K%10);
-						writeResult = gp_Write(theGraph, theFileName, WRITE_ADJLIST);
+						writeResult = gp_Write(embeddableGraph, theFileName, WRITE_ADJLIST);
 						if (writeResult != OK && !writeErrorReported_AdjList)
 						{
 							sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
@@ -474,12 +477,18 @@ int writeResult = OK;
 			Message(messageContents);
 			SaveAsciiGraph(origGraph, theFileName);
 
-			strcat(theFileName, ".out.txt");
-			messageFormat =  "Saving edge list format of result to \"%.*s\"\n";
-			charsAvailForStr = (int) (MAXLINE - strlen(messageFormat));
-			sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
-			Message(messageContents);
-			SaveAsciiGraph(theGraph, theFileName);
+			// As for a specific graph, there is no result to write if a graph could not be drawn
+			// or if a homeomorph search found nothing
+			if (!(command == 'd' && Result == NONEMBEDDABLE) &&
+				!(strchr("234", command) != NULL && Result == OK))
+			{
+				strcat(theFileName, ".out.txt");
+				messageFormat =  "Saving edge list format of result to \"%.*s\"\n";
+				charsAvailForStr = (int) (MAXLINE - strlen(messageFormat));
+				sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
+				Message(messageContents);
+				SaveAsciiGraph(theGraph, theFileName);
+			}
 		}
 	}
 	else ErrorMessage("Failure occurred");
-- 
2.43.0


From 25ee18dafc23721cc9a7e9577ab272d31737418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:57 +0000
Subject: [PATCH 61/68] fix: bound the file names made for graphs given as
 strings (L09)

---
 c/planarityApp/planaritySpecificGraph.c | 6 +++---
 c/planarityApp/planarityUtils.c         | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 7dfd55f..648a2ba 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -180,9 +180,9 @@ int Result = OK;
 		            // An empty but non-NULL string is passed to indicate the necessity
 		            // of selecting a default name for the second output file.
 				    // By default, add ".render.txt" to the primary output filename
-				    if (strlen(outfile2Name) == 0)
-   				        strcat((outfile2Name = outfileName), ".render.txt");
-				    writeResult = gp_DrawPlanar_RenderToFile(theGraph, outfile2Name);
+				    if (strlen(outfile2Name) == 0 && (outfile2Name = outfileName) != NULL)
+   				        strcat(outfile2Name, ".render.txt");
+				    writeResult = outfile2Name == NULL ? NOTOK : gp_DrawPlanar_RenderToFile(theGraph, outfile2Name);
 			    }
 		    }
 
diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index a05f126..7131bfc 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -555,13 +555,18 @@ char *ConstructInputFilename(char *infileName)
  If outfileName is non-NULL, then the result string contains its content.
  If outfileName is NULL, then the infileName and the command's algorithm name
  are used to construct a string.
- Returns non-NULL string
+ Returns non-NULL string, or NULL if there is no name to use
  ****************************************************************************/
 
 char *ConstructPrimaryOutputFilename(char *infileName, char *outfileName, char command)
 {
 	char *algorithmName = GetAlgorithmName(command);
 
+	// The input filename cannot be used if it is absent or too long, which can happen if the input is in a string
+	if ((outfileName == NULL || strlen(outfileName) > FILENAMEMAXLENGTH) &&
+		(infileName == NULL || (infileName != theFileName && strlen(infileName) > FILENAMEMAXLENGTH)))
+		return NULL;
+
 	if (outfileName == NULL)
 	{
 		// The output filename is based on the input filename
-- 
2.43.0


From 0d543da7c29a392582a4931e62e70f96e69ff7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:57 +0000
Subject: [PATCH 62/68] fix: read a graph from a stream that cannot be
 repositioned (L01)

---
 c/graphLib/io/graphIO.c | 55 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 34b3ae0..91b3d3d 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -20,6 +20,8 @@ int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf);
 int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf);
 int _WriteDebugInfo(graphP theGraph, FILE *Outfile);
 
+FILE *_CopyToTempFile(FILE *Infile);
+
 /********************************************************************
  _ReadAdjMatrix()
  This function reads the undirected graph in upper triangular matrix format.
@@ -423,6 +425,7 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
 
 int gp_Read(graphP theGraph, char *FileName)
 {
+    FILE *tempFile = NULL;
     FILE *Infile;
     bool extraDataAllowed = false;
     char lineBuff[255];
@@ -433,6 +436,21 @@ int gp_Read(graphP theGraph, char *FileName)
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
         return NOTOK;
 
+    // Detecting the format requires going back to the beginning, so
+    // a file that cannot be repositioned, such as a pipe, is copied.
+    if (fseek(Infile, 0, SEEK_CUR) != 0)
+    {
+        tempFile = _CopyToTempFile(Infile);
+
+        if (Infile != stdin)
+            fclose(Infile);
+
+        if (tempFile == NULL)
+            return NOTOK;
+
+        Infile = tempFile;
+    }
+
     if (fgets(lineBuff, 255, Infile) == NULL)
         lineBuff[0] = '\0';
     // Reset file pointer to beginning of file
@@ -506,12 +524,47 @@ int gp_Read(graphP theGraph, char *FileName)
         }
     }
 
-    if (strcmp(FileName, "stdin") != 0 && Infile != NULL)
+    if (Infile != NULL && Infile != stdin)
         fclose(Infile);
 
     return RetVal;
 }
 
+/********************************************************************
+ _CopyToTempFile()
+ Copies the rest of Infile to a temporary file, which is positioned
+ at its beginning and is removed when closed.
+
+ Returns NULL on failure, or the temporary file.
+ ********************************************************************/
+
+FILE *_CopyToTempFile(FILE *Infile)
+{
+    char buffer[4096];
+    size_t numRead;
+    FILE *tempFile = tmpfile();
+
+    if (tempFile == NULL)
+        return NULL;
+
+    while ((numRead = fread(buffer, 1, sizeof(buffer), Infile)) > 0)
+    {
+        if (fwrite(buffer, 1, numRead, tempFile) != numRead)
+        {
+            fclose(tempFile);
+            return NULL;
+        }
+    }
+
+    if (ferror(Infile) || fflush(tempFile) != 0 || fseek(tempFile, 0, SEEK_SET) != 0)
+    {
+        fclose(tempFile);
+        return NULL;
+    }
+
+    return tempFile;
+}
+
 /********************************************************************
  gp_ReadFromString()
  Populates theGraph using the information stored in inputStr (whose
-- 
2.43.0


From d87253b853894146b8c24fb97560d47226ecc93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:57 +0000
Subject: [PATCH 63/68] fix: reject a .g6 line with a null character in it
 (F07)

---
 c/graphLib/io/g6-read-iterator.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 4bd62d9..204535f 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -461,12 +461,32 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 
 	char firstChar = '\0';
 	char *graphEncodingChars = NULL;
+
+	// Fill the buffer so that the terminator set by fgets() can be told from null characters in the file
+	if (g6Input->pFile != NULL)
+		memset(currGraphBuff, '\n', currGraphBuffSize);
+
 	// The order 1 graph has no encoding characters, so there may be nothing left on the first line
 	if (sf_fgets(currGraphBuff, currGraphBuffSize, g6Input) != NULL || (numGraphsRead == 0 && numCharsForGraphEncoding == 0))
 	{
 		numGraphsRead++;
 		firstChar = currGraphBuff[0];
 
+		// A null character in the file would hide the rest of the line from the checks below
+		if (g6Input->pFile != NULL)
+		{
+			int lineEnd = currGraphBuffSize - 1;
+			while (lineEnd > 0 && currGraphBuff[lineEnd] != '\0')
+				lineEnd--;
+
+			if (lineEnd > 0 && strlen(currGraphBuff) != (size_t) lineEnd)
+			{
+				sprintf(messageContents, "Invalid null character on line %d\n", numGraphsRead);
+				ErrorMessage(messageContents);
+				return NOTOK;
+			}
+		}
+
 		if (!_firstCharIsValid(firstChar, numGraphsRead))
 			return NOTOK;
 
-- 
2.43.0


From 5a9a2c84dcdecd60aa701838564b1ed61c4a802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:57 +0000
Subject: [PATCH 64/68] fix: reject numbers too large for an integer in graph
 files (F07)

---
 c/graphLib/io/graphIO.c | 43 ++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 91b3d3d..848a1bd 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -7,6 +7,7 @@ See the LICENSE.TXT file for licensing information.
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "../graph.h"
 #include "g6-read-iterator.h"
@@ -33,7 +34,7 @@ FILE *_CopyToTempFile(FILE *Infile);
 
 int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
 {
-    int N = -1;
+    long long N = -1;
     int v, w, Flag;
 
     if (Infile == NULL && inBuf == NULL)
@@ -42,20 +43,20 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
     // Read the number of vertices from the first line of the file
     if (Infile != NULL)
     {
-        if (fscanf(Infile, " %d ", &N) != 1)
+        if (fscanf(Infile, " %lld ", &N) != 1)
             return NOTOK;
     }
     else
     {
         sb_ReadSkipWhitespace(inBuf);
-        if (sscanf(sb_GetReadString(inBuf), " %d ", &N) != 1)
+        if (sscanf(sb_GetReadString(inBuf), " %lld ", &N) != 1)
             return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
     }
 
     // Initialize the graph based on the number of vertices
-    if (gp_InitGraph(theGraph, N) != OK)
+    if (N < 0 || N > INT_MAX || gp_InitGraph(theGraph, (int)N) != OK)
         return NOTOK;
 
     // Read an upper-triangular matrix row for each vertex
@@ -126,8 +127,10 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
 
 int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
 {
-    int N = -1;
-    int v, W, adjList, e, indexValue, ErrorCode;
+    // Numbers are read as long long because a number that is too large for an int is
+    // an error, rather than the result of reducing it to the size of an int
+    long long N = -1, indexValue, W;
+    int v, adjList, e, ErrorCode;
     int zeroBased = FALSE;
 
     if (Infile == NULL && inBuf == NULL)
@@ -138,7 +141,7 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         fgetc(Infile);
         fgetc(Infile);
-        if (fscanf(Infile, " %d ", &N) != 1)
+        if (fscanf(Infile, " %lld ", &N) != 1)
             return NOTOK;
     }
     else
@@ -146,14 +149,14 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipWhitespace(inBuf);
-        if (sscanf(sb_GetReadString(inBuf), " %d ", &N) != 1)
+        if (sscanf(sb_GetReadString(inBuf), " %lld ", &N) != 1)
             return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
     }
 
     // Initialize theGraph based on the number of vertices in the input
-    if (gp_InitGraph(theGraph, N) != OK)
+    if (N < 0 || N > INT_MAX || gp_InitGraph(theGraph, (int)N) != OK)
         return NOTOK;
 
     // Clear the visited members of the vertices so they can be used
@@ -167,17 +170,17 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         // Read the vertex number
         if (Infile != NULL)
         {
-            if (fscanf(Infile, "%d", &indexValue) != 1)
+            if (fscanf(Infile, "%lld", &indexValue) != 1)
                 return NOTOK;
         }
         else
         {
-            if (sscanf(sb_GetReadString(inBuf), "%d", &indexValue) != 1)
+            if (sscanf(sb_GetReadString(inBuf), "%lld", &indexValue) != 1)
                 return NOTOK;
             sb_ReadSkipInteger(inBuf);
         }
 
-        if (indexValue > theGraph->N)
+        if (indexValue < 0 || indexValue > theGraph->N)
             return NOTOK;
 
         if (indexValue == 0 && v == gp_GetFirstVertex(theGraph))
@@ -239,13 +242,13 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
             // Read the value indicating the next adjacent vertex (or the list end)
             if (Infile != NULL)
             {
-                if (fscanf(Infile, " %d ", &W) != 1)
+                if (fscanf(Infile, " %lld ", &W) != 1)
                     return NOTOK;
             }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                if (sscanf(sb_GetReadString(inBuf), " %d ", &W) != 1)
+                if (sscanf(sb_GetReadString(inBuf), " %lld ", &W) != 1)
                     return NOTOK;
                 sb_ReadSkipInteger(inBuf);
                 sb_ReadSkipWhitespace(inBuf);
@@ -355,8 +358,8 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
 int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
 {
     char Line[256];
-    int N = -1;
-    int M = -1, m, u, v, ErrorCode;
+    long long N = -1, M = -1, m, u, v;
+    int ErrorCode;
     int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
 
     /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
@@ -367,10 +370,10 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
     }
 
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &N) != 1)
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %lld", &N) != 1)
         return NOTOK;
 
-    if (gp_InitGraph(theGraph, N) != OK)
+    if (N < 0 || N > INT_MAX || gp_InitGraph(theGraph, (int)N) != OK)
         return NOTOK;
 
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
@@ -380,13 +383,13 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
     }
 
     /* Read the number of edges */
-    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1 || M < 0)
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %lld", &M) != 1 || M < 0)
         return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2)
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %lld %lld", &u, &v) != 2)
             return NOTOK;
 
         if (u < 1 || u > N || v < 1 || v > N)
-- 
2.43.0


From 9dad11c0ab06bb57530a4bf6aa99cac2f90fb8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:57 +0000
Subject: [PATCH 65/68] fix: make one list collection for the vertex positions
 of all components (E14)

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 9d05492..7050a3a 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -27,7 +27,7 @@ int _CheckVisibilityRepresentationIntegrity(DrawPlanarContext *context);
 
 /* Private functions */
 int _ComputeVertexPositions(DrawPlanarContext *context);
-int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, int root, int *pIndex);
+int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, listCollectionP theOrder, int root, int *pIndex);
 int _ComputeEdgePositions(DrawPlanarContext *context);
 int _ComputeVertexRanges(DrawPlanarContext *context);
 int _ComputeEdgeRanges(DrawPlanarContext *context);
@@ -76,7 +76,14 @@ int _ComputeVisibilityRepresentation(DrawPlanarContext *context)
 int _ComputeVertexPositions(DrawPlanarContext *context)
 {
     graphP theEmbedding = context->theGraph;
-    int v, vertpos;
+    int v, vertpos, Result = OK;
+
+    // The components share one list collection since making one costs time
+    // proportional to the number of vertices in the whole graph
+    listCollectionP theOrder = LCNew(gp_PrimaryVertexIndexBound(theEmbedding));
+
+    if (theOrder == NULL)
+        return NOTOK;
 
     vertpos = 0;
     for (v = gp_GetFirstVertex(theEmbedding); gp_VertexInRange(theEmbedding, v); v++)
@@ -85,12 +92,14 @@ int _ComputeVertexPositions(DrawPlanarContext *context)
         // compute the vertex positions
         if (gp_IsDFSTreeRoot(theEmbedding, v))
         {
-            if (_ComputeVertexPositionsInComponent(context, v, &vertpos) != OK)
-                return NOTOK;
+            Result = _ComputeVertexPositionsInComponent(context, theOrder, v, &vertpos);
+            if (Result != OK)
+                break;
         }
     }
 
-    return OK;
+    LCFree(&theOrder);
+    return Result;
 }
 
 /********************************************************************
@@ -186,15 +195,11 @@ int _ComputeVertexPositions(DrawPlanarContext *context)
   based on the between/beyond indicator stored in W during embedding.
  ********************************************************************/
 
-int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, int root, int *pVertpos)
+int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, listCollectionP theOrder, int root, int *pVertpos)
 {
     graphP theEmbedding = context->theGraph;
-    listCollectionP theOrder = LCNew(gp_PrimaryVertexIndexBound(theEmbedding));
     int W, P, C, V, e;
 
-    if (theOrder == NULL)
-        return NOTOK;
-
     // Determine the vertex order using a depth first search with
     // pre-order visitation.
 
@@ -280,9 +285,6 @@ int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, int root, int
         V = LCGetNext(theOrder, root, V);
     }
 
-    // Clean up and return
-
-    LCFree(&theOrder);
     return OK;
 }
 
-- 
2.43.0


From 084fe4372ab82d82ff87a7f0ac0557c9f34ff738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:35 +0000
Subject: [PATCH 66/68] fix: read numbers from a string without scanning the
 rest of it each time (E14)

---
 c/graphLib/io/graphIO.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 848a1bd..a157e3f 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -22,6 +22,28 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf);
 int _WriteDebugInfo(graphP theGraph, FILE *Outfile);
 
 FILE *_CopyToTempFile(FILE *Infile);
+int _GetIntegerFromString(strBufP inBuf, long long *pInteger);
+
+/********************************************************************
+ _GetIntegerFromString()
+ Gets the integer at the read position, which is not advanced.
+ The time depends on the integer only, whereas sscanf() begins by
+ determining the length of the whole rest of the string.
+
+ Returns OK, or NOTOK if there is no integer at the read position.
+ ********************************************************************/
+
+int _GetIntegerFromString(strBufP inBuf, long long *pInteger)
+{
+    char *start = sb_GetReadString(inBuf), *end = start;
+
+    if (start == NULL)
+        return NOTOK;
+
+    *pInteger = strtoll(start, &end, 10);
+
+    return end == start ? NOTOK : OK;
+}
 
 /********************************************************************
  _ReadAdjMatrix()
@@ -49,7 +71,7 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
     else
     {
         sb_ReadSkipWhitespace(inBuf);
-        if (sscanf(sb_GetReadString(inBuf), " %lld ", &N) != 1)
+        if (_GetIntegerFromString(inBuf, &N) != OK)
             return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
@@ -75,8 +97,9 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
+                if (!isdigit((unsigned char) sb_GetReadString(inBuf)[0]))
                     return NOTOK;
+                Flag = sb_GetReadString(inBuf)[0] - '0';
 
                 // Each flag is one digit, and the next flag may follow immediately
                 sb_ReadSkipChar(inBuf);
@@ -149,7 +172,7 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipWhitespace(inBuf);
-        if (sscanf(sb_GetReadString(inBuf), " %lld ", &N) != 1)
+        if (_GetIntegerFromString(inBuf, &N) != OK)
             return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
@@ -175,7 +198,7 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         }
         else
         {
-            if (sscanf(sb_GetReadString(inBuf), "%lld", &indexValue) != 1)
+            if (_GetIntegerFromString(inBuf, &indexValue) != OK)
                 return NOTOK;
             sb_ReadSkipInteger(inBuf);
         }
@@ -248,7 +271,7 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                if (sscanf(sb_GetReadString(inBuf), " %lld ", &W) != 1)
+                if (_GetIntegerFromString(inBuf, &W) != OK)
                     return NOTOK;
                 sb_ReadSkipInteger(inBuf);
                 sb_ReadSkipWhitespace(inBuf);
-- 
2.43.0


From 3df434794b75a919ed85ac26076b24ead06b17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:35 +0000
Subject: [PATCH 67/68] fix: read drawing data without scanning the rest of it
 for each line (E14)

---
 .../graphDrawPlanar_Extensions.c              | 53 ++++++++++++++++---
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 0159df6..5c3df61 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -5,6 +5,7 @@ See the LICENSE.TXT file for licensing information.
 */
 
 #include <stdlib.h>
+#include <limits.h>
 
 #include "graphDrawPlanar.private.h"
 #include "graphDrawPlanar.h"
@@ -597,6 +598,44 @@ static int _FindEdgeRecord(graphP theGraph, int u, int v)
     return NIL;
 }
 
+/********************************************************************
+ _ReadDrawingLine()
+
+ Reads an index, the character after it, and three integers.
+ The time depends on the line only, whereas sscanf() begins by
+ determining the length of the whole rest of the string.
+
+ Returns OK, or NOTOK if that is not at the beginning of readPos
+ ********************************************************************/
+
+static int _ReadDrawingLine(char *readPos, int *pPos, int *pStart, int *pEnd)
+{
+    int *values[3];
+    int k;
+    long value;
+    char *end;
+
+    values[0] = pPos;
+    values[1] = pStart;
+    values[2] = pEnd;
+
+    strtol(readPos, &end, 10);
+    if (end == readPos || *end == '\0')
+        return NOTOK;
+    readPos = end + 1;
+
+    for (k = 0; k < 3; k++)
+    {
+        value = strtol(readPos, &end, 10);
+        if (end == readPos || value < INT_MIN || value > INT_MAX)
+            return NOTOK;
+        *values[k] = (int) value;
+        readPos = end;
+    }
+
+    return OK;
+}
+
 /********************************************************************
  ********************************************************************/
 
@@ -612,9 +651,9 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
 
         else if (extraData != NULL && extraDataSize > 0)
         {
-            int v, e, m, tempInt, RetVal = OK;
+            int v, e, m, RetVal = OK;
             int *vertexAtPos = NULL;
-            char line[64], tempChar;
+            char line[64];
             char *readPos = (char *) extraData;
             DrawPlanar_EdgeRec edgeRead;
 
@@ -631,10 +670,9 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
             // Read the N lines of vertex information
             for (v = gp_GetFirstVertex(theGraph); RetVal == OK && gp_VertexInRange(theGraph, v); v++)
             {
-                if (sscanf(readPos, " %d%c %d %d %d", &tempInt, &tempChar,
-                                  &context->VI[v].pos,
+                if (_ReadDrawingLine(readPos, &context->VI[v].pos,
                                   &context->VI[v].start,
-                                  &context->VI[v].end) != 5 ||
+                                  &context->VI[v].end) != OK ||
                     (readPos = strchr(readPos, '\n')) == NULL ||
                     context->VI[v].pos < 0 || context->VI[v].pos >= theGraph->N ||
                     context->VI[v].start < 0 || context->VI[v].start > context->VI[v].end ||
@@ -652,10 +690,9 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
             // but each one spans the positions of its endpoints.
             for (m = 0; RetVal == OK && m < 2 * theGraph->M; m++)
             {
-                if (sscanf(readPos, " %d%c %d %d %d", &tempInt, &tempChar,
-                                  &edgeRead.pos,
+                if (_ReadDrawingLine(readPos, &edgeRead.pos,
                                   &edgeRead.start,
-                                  &edgeRead.end) != 5 ||
+                                  &edgeRead.end) != OK ||
                     (readPos = strchr(readPos, '\n')) == NULL ||
                     edgeRead.pos < 0 || edgeRead.pos >= theGraph->M ||
                     edgeRead.start < 0 || edgeRead.start > edgeRead.end ||
-- 
2.43.0


From 1720a73b179a581dd7582d6960b7b7da31407377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:35 +0000
Subject: [PATCH 68/68] fix: append to a string without scanning it from its
 beginning (E14)

---
 c/graphLib/io/strOrFile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 907c08a..1528696 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -166,15 +166,18 @@ int sf_fputs(char *strToWrite, strOrFileP theStrOrFile)
 		outputLen = fputs(strToWrite, theStrOrFile->pFile);
 	else if (theStrOrFile->theStr != NULL)
 	{
-		// Want to be able to contain the original theStr contents, the strToWrite, and a null terminator (added by strcat)
-		char *newStr = realloc(theStrOrFile->theStr, (strlen(theStrOrFile->theStr) + lenOfStringToPuts + 1) * sizeof(char));
+		// The content before theStrPos need not be scanned to find the end of the string
+		size_t lenOfStr = theStrOrFile->theStrPos + strlen(theStrOrFile->theStr + theStrOrFile->theStrPos);
+
+		// Want to be able to contain the original theStr contents, the strToWrite, and a null terminator (added by strcpy)
+		char *newStr = realloc(theStrOrFile->theStr, (lenOfStr + lenOfStringToPuts + 1) * sizeof(char));
 		// If realloc failed, pointer returned will be NULL; error will be handled by eventually freeing iterator, which will
 		// clean up the old memory for theStrOrFile->theStr
 		if (newStr == NULL)
 			return outputLen;
 		else
 			theStrOrFile->theStr = newStr;
-		strcat(theStrOrFile->theStr, strToWrite);
+		strcpy(theStrOrFile->theStr + lenOfStr, strToWrite);
 		theStrOrFile->theStrPos += lenOfStringToPuts;
 		outputLen = lenOfStringToPuts;
 	}
-- 
2.43.0

