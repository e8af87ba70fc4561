From ed6c753cf9c60940ed29ac6c753138b89754d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 01/76] fix: close the introduction at the first chapter even
 when an outline or list ends it

The innermost open marker was remembered from before an intro outline, intro
list or list was closed, so the intro (or headers) container stayed open
through all the chapters.
---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index b1e1fb6..83004e0 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1666,6 +1666,7 @@ class InternalBibleBook:
                 dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"Shall we close '{marker}' given {_findNextRelevantListMarker(j)=} and {_findNextRelevantMarker(j)=} @ {self.BBB}_{C}:{V}" )
                 if _findNextRelevantListMarker(j) not in OUR_MAIN_TEXT_LIST_MARKERS:
                     _closeLastOpenMarker( 'list' )
+            lastOpenMarker = _getLastOpenMarker() # We might have just closed one of the above
 
             if marker == 'c':
                 # print( f"  At 'c' {self.BBB}_{C}:{V} with {lastOpenMarker=} {openMarkers=}" )
-- 
2.43.0


From a822b779fa924c7367190f2d4e9ab7507188e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 02/76] fix: keep an empty marker that precedes a verse with no
 chapter marker

When chapter 1 was made explicit, an empty last line other than p/q1/m/nb
(e.g. \q2, \pi1, \ib) was silently dropped.
---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 83004e0..ca25fe9 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2453,13 +2453,13 @@ class InternalBibleBook:
                     else: lastAdjustedMarker = lastOriginalMarker = lastAdjustedText = lastCleanText = lastExtras = lastOriginalText = None
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.BBB, "lastMarker (popped) was", lastAdjustedMarker, lastAdjustedText )
-                    if lastAdjustedMarker in ('p','q1','m','nb'): # The chapter marker should go before this
+                    if lastAdjustedMarker == 'nb' or lastAdjustedMarker in USFM_BIBLE_PARAGRAPH_MARKERS: # The chapter marker should go before this
                         self._processedLines.append( InternalBibleEntry('c', 'c', '1', '1', None, '1') ) # Write the explicit chapter number
                         self._processedLines.append( InternalBibleEntry(lastAdjustedMarker, lastOriginalMarker, lastAdjustedText, lastCleanText, lastExtras, lastOriginalText) )
                     else: # Assume that the last marker was part of the introduction, so write it first
                         if lastAdjustedMarker not in ( 'ip', ):
                             logging.info( "{} {}:{} Assumed {} was part of intro after {}".format( self.BBB, C, V, lastAdjustedMarker, marker ) )
-                        if lastOriginalText:
+                        if lastAdjustedMarker is not None:
                             self._processedLines.append( InternalBibleEntry(lastAdjustedMarker, lastOriginalMarker, lastAdjustedText, lastCleanText, lastExtras, lastOriginalText) )
                         self._processedLines.append( InternalBibleEntry('c', 'c', '1', '1', None, '1') ) # Write the explicit chapter number
 
-- 
2.43.0


From 26d50642d9f73ab41bc27176bdba6c4f8876b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 03/76] fix: adding two entry lists gives a new list and leaves
 both operands as they were

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index f0bc06a..875f558 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -871,8 +871,9 @@ class InternalBibleEntryList:
         So we can use Python + operator to add lists (e.g., to combine verses)
         """
         assert isinstance( listToAppend, InternalBibleEntryList ), f"__add__ {type(listToAppend)=} {listToAppend=}"
-        self.data.extend( listToAppend )
-        return self
+        result = InternalBibleEntryList( self )
+        result.data.extend( listToAppend )
+        return result
     # end of InternalBibleEntryList.__add__
 
 
-- 
2.43.0


From 521076b0368bd593a65765c7c9c1849b8a8df6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 04/76] fix: entry list contains() looks at no more than
 maxLines entries

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index 875f558..f5c7af0 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -887,9 +887,9 @@ class InternalBibleEntryList:
         Returns None if no match is found
         """
         for j,entry in enumerate( self.data ):
-            if entry.marker == searchMarker: return j
             if maxLines is not None:
                 if j >= maxLines: break
+            if entry.marker == searchMarker: return j
     # end of InternalBibleEntryList.contains
 # end of class InternalBibleEntryList
 
-- 
2.43.0


From c5fc14db40b298bd3804cfc5c057aac8e1927897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 05/76] fix: compare processed entries, extras and extras lists
 by their contents (they have no __dict__)

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index f5c7af0..b435dad 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -413,7 +413,8 @@ class InternalBibleExtra:
 
 
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ):
+            return all( getattr(self,slot)==getattr(other,slot) for slot in self.__slots__ )
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -492,7 +493,7 @@ class InternalBibleExtraList:
 
     def __len__( self ): return len( self.data )
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ): return self.data == other.data
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -645,7 +646,7 @@ class InternalBibleEntry:
         #for someKey, someItem in sorted( other.__dict__.items() ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'other', someKey, repr(someItem) )
         #halt
-        return isinstance( other, self.__class__ ) and self.__dict__ == other.__dict__
+        return isinstance( other, self.__class__ ) and all( getattr(self,slot)==getattr(other,slot) for slot in self.__slots__ )
     def __ne__( self, other ):
         return not self.__eq__( other )
 
-- 
2.43.0


From 03e989091dbd926c07056f2a92b754831e32136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 06/76] fix: complete verse lookup of a bridged or suffixed key
 returns its lines once

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index fae2409..226280d 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -336,7 +336,8 @@ class InternalBibleBookCVIndex:
 
         # Now look for specific verses that match
         try:
-            indexEntries.append( self.__indexData[CVkey] )
+            if self.__indexData[CVkey] not in indexEntries: # might have already been found above
+                indexEntries.append( self.__indexData[CVkey] )
         except KeyError:
             dPrint( 'Info', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextB {self.workName} was unable to immediately find {self.BBB} {CVkey=}")
             if strict or CVkey[0]=='-1': # strict selection or else in the introduction (no verse ranges there)
-- 
2.43.0


From f24c23350196db15bdd07b7830d6f59c3c70bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 07/76] fix: retrieving a chapter stops at its own end also
 when the next chapter number is missing or it is the introduction

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 28 ++++++++-----------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index 226280d..1f93cc6 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -273,14 +273,19 @@ class InternalBibleBookCVIndex:
         Raises a KeyError if the C key doesn't exist.
         """
         firstIndexEntry = self.__indexData[(C,'0')]
-        try:
-            nextIndexEntry = self.__indexData[(str(int(C)+1),'0')]
-            return self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()]
-        except KeyError: # presumably no more chapters
-            return self.givenBibleEntries[firstIndexEntry.getEntryIndex():]
+        return self.givenBibleEntries[firstIndexEntry.getEntryIndex():self.__getChapterEndIndex( C )]
     # end of InternalBibleBookCVIndex.getChapterEntries
 
 
+    def __getChapterEndIndex( self, C:str ) -> int:
+        """
+        Returns the index of the line after the last line of the given chapter
+            (which might not be followed by a consecutively numbered chapter).
+        """
+        return max( indexEntry.getNextEntryIndex() for (ixC,_ixV),indexEntry in self.__indexData.items() if ixC==C )
+    # end of InternalBibleBookCVIndex.__getChapterEndIndex
+
+
     def getVerseEntriesWithContext( self, CVkey:tuple[str,str], strict:bool|None=False, complete:bool|None=False ) -> tuple[InternalBibleEntryList,list[str]]:
         """
         Given C:V, return a 2-tuple containing
@@ -429,18 +434,7 @@ class InternalBibleBookCVIndex:
         except KeyError as err:
             (logging.warning if C=='0' else logging.error)( f"getChapterEntriesWithContext {self.workName} couldn't get {self.BBB} ({C},0){f' from {self.__indexData.keys()}' if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag else ''}")
             raise err
-        try:
-            nextIndexEntry = self.__indexData[(str(int(C)+1),'0')]
-            return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()] ), firstIndexEntry.getContextList()
-        except KeyError: # Couldn't find the next chapter
-            if C != '-1': # presumably no more chapters
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():] ), firstIndexEntry.getContextList()
-            # else it's a bit more complicated finding the introduction because mostly there's no chapter zero
-            try:
-                nextIndexEntry = self.__indexData[('1','0')]
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()] ), firstIndexEntry.getContextList()
-            except KeyError: # give up and just return everything
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():] ), firstIndexEntry.getContextList()
+        return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():self.__getChapterEndIndex( C )] ), firstIndexEntry.getContextList()
     # end of InternalBibleBookCVIndex.getChapterEntriesWithContext
 
 
-- 
2.43.0


From 288514cbe47cf2057d6e9c31e3d16b88e8476efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 08/76] fix: verse range retrieval handles bridged and partial
 verses, and gaps between chapters when not strict

---
 BibleOrgSys/Internals/InternalBibleBook.py | 76 ++++++++++------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index ca25fe9..49d06fa 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5250,51 +5250,45 @@ class InternalBibleBook:
         endV = endBCVReference[2] if isinstance( endBCVReference, tuple ) else endBCVReference.getV()
 
         # dPrint( 'Info', DEBUGGING_THIS_MODULE, f"InternalBibleBook.getContextVerseData concatenating {self.workName} {self.BBB} from {startC}:{startV} to {endC}:{endV} {strict=}" )
-        intC = int(startC)
-        intV = getLeadingInt(startV) + 1 # Handles strings like '4b'
+        # A verse entry might be for several verses (e.g., '4-5' or '4,5') or only for part of a verse (e.g., '4a')
+        #   so a verse number might have zero, one, or more index entries (and we only want to use each of those once)
+        verseIndexEntries = {}
+        for (ixC,ixV), indexEntry in self._CVIndex.items():
+            if ',' in ixV: ixVints = [getLeadingInt(bit) for bit in ixV.split( ',' )]
+            elif '-' in ixV: ixVints = range( getLeadingInt(ixV), getLeadingInt(ixV.split( '-' )[-1])+1 )
+            else: ixVints = [getLeadingInt(ixV)]
+            for ixVint in ixVints:
+                verseIndexEntries.setdefault( (ixC,ixVint), [] ).append( indexEntry )
+        startIndexEntry = self._CVIndex[(startC,startV)]
+        endIndexEntry = self._CVIndex[(endC,endV)] if (endC,endV) in self._CVIndex else None
+        usedIndexes = { startIndexEntry.getEntryIndex() }
+
+        intC, endCint = int(startC), int(endC)
+        intV = startVint = getLeadingInt(startV) # Handles strings like '4b'
         endVint = getLeadingInt(endV)
-        for _safetyCount in range( 1000 ): # Maximum number of expected verses in this chunk -- might be something big like '1Sam 16:1–1Ki 2:11'
-            # dPrint( 'Normal', DEBUGGING_THIS_MODULE, f"  InternalBibleBook.getContextVerseData looking for {intC}:{intV}" )
-            if intC > int(endC) \
-            or (intC==int(endC) and intV > endVint):
-                break
-            # dPrint( 'Normal', DEBUGGING_THIS_MODULE, f"    InternalBibleBook.getContextVerseData adding {intC}:{intV}" )
+        while intC < endCint or (intC==endCint and intV <= endVint):
             strC, strV = str(intC), str(intV)
-            try:
-                thisVerseEntryList = self._CVIndex.getVerseEntries( (strC,strV), strict=False )
-                assert isinstance( thisVerseEntryList, InternalBibleEntryList )
-                verseEntryList += thisVerseEntryList
-            except KeyError as kerr:
-                # dPrint( 'Normal', DEBUGGING_THIS_MODULE, f"    InternalBibleBook.getContextVerseData got KeyError with {strC}:{strV}" )
-                if startC == '-1': # This is expected, because LV doesn't have intros, so endV will be excessive
-                    assert endC == '-1'
-                    assert intV > 0, f"{self.workName} {self.BBB} {startC}:{startV} {intV=}" # We should have got some lines
+            indexEntries = verseIndexEntries.get( (strC,intV), [] )
+            for indexEntry in indexEntries:
+                entryIndex = indexEntry.getEntryIndex()
+                if entryIndex in usedIndexes \
+                or (strC==startC and intV==startVint and entryIndex < startIndexEntry.getEntryIndex()) \
+                or (strC==endC and intV==endVint and endIndexEntry and entryIndex > endIndexEntry.getEntryIndex()):
+                    continue
+                usedIndexes.add( entryIndex )
+                verseEntryList += self._CVIndex.givenBibleEntries[entryIndex:indexEntry.getNextEntryIndex()]
+            if not indexEntries:
+                if intC==-1 and endC=='-1': # This is expected, because LV doesn't have intros, so endV will be excessive
                     break
-                else:
-                    # We're in a chapter and may have reached the end
-                    if startC != endC:
-                        numVerses = self.getNumVerses( strC )
-                        if intV > numVerses:
-                            intC += 1
-                            intV = 0
-                            # Try again with the first verse of the next chapter
-                            thisVerseEntryList = self._CVIndex.getVerseEntries( (str(intC),'0'), strict=True )
-                            assert isinstance( thisVerseEntryList, InternalBibleEntryList )
-                            verseEntryList += thisVerseEntryList
-                        else:
-                            if not strict:
-                                logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}) for {self.workName} {self.BBB} failed at {strC}:{strV}")
-                                halt
-                                break # return what we've got
-                            raise kerr
-                    else: # we're only doing one chapter
-                        if strict:
-                            raise kerr
-                        else: # Log it, but continue looping
-                            logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}, {strict=}) for {self.workName} {self.BBB} failed to find {strC}:{strV}")
+                if intC < endCint and (intC==-1 or intV > (self.getNumVerses( strC ) or 0)): # then we finished that chapter
+                    intC, intV = intC+1, 0
+                    if intC==0 and ('0',0) not in verseIndexEntries: # There's not usually any chapter zero
+                        intC = 1
+                    continue
+                if strict: raise KeyError( (strC,strV) )
+                logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}, {strict=}) for {self.workName} {self.BBB} failed to find {strC}:{strV}")
+                # but continue looping
             intV += 1
-        else:
-            loop_safety_counter_too_small
 
         if DEBUGGING_THIS_MODULE:
             assert isinstance( verseEntryList, InternalBibleEntryList )
-- 
2.43.0


From 47933297adf14659caabb9a4321b54ffe8fb4d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 09/76] fix: verse ranges over several books use the lines of
 every book in the range

---
 BibleOrgSys/Internals/InternalBible.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index b1f4c43..1ebab07 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2335,9 +2335,19 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
             if endBBB == startBBB: # most common case
                 return self.books[startBBB].getContextVerseDataRange( startBCVReference, endBCVReference, strict=strict )
             else: # sometimes they can be different books
-                verseEntryList1, contextList1 = self.books[startBBB].getContextVerseDataRange( startBCVReference, (startBBB,'999','999'), strict=strict )
-                verseEntryList2, _contextList2 = self.books[startBBB].getContextVerseDataRange( (endBBB,'1','1'), endBCVReference, strict=strict )
-                return verseEntryList1+verseEntryList2, contextList1
+                sequenceList = BibleOrgSysGlobals.loadedBibleBooksCodes.getSequenceList()
+                verseEntryList, contextList = InternalBibleEntryList(), []
+                for BBB in sequenceList[sequenceList.index(startBBB):sequenceList.index(endBBB)+1]:
+                    if BBB in self.availableBBBs: self.loadBookIfNecessary( BBB )
+                    if BBB not in self.books: continue
+                    numChapters = str( self.getNumChapters( BBB ) )
+                    if numChapters=='-1' and BBB not in (startBBB,endBBB): continue # There's no chapters in this book
+                    thisVerseEntryList, thisContextList = self.books[BBB].getContextVerseDataRange(
+                                startBCVReference if BBB==startBBB else (BBB,'1','0'),
+                                endBCVReference if BBB==endBBB else (BBB,numChapters,str(self.getNumVerses( BBB, numChapters ))), strict=strict )
+                    verseEntryList += thisVerseEntryList
+                    if BBB==startBBB: contextList = thisContextList
+                return verseEntryList, contextList
         else:
             logging.warning( f"InternalBible.getContextVerseDataRange( {startBCVReference}, {endBCVReference}, {strict=} ): {self.name} doesn't have {startBBB}{'' if endBBB==startBBB else f' or {endBBB}'}" )
     # end of InternalBible.getContextVerseDataRange
-- 
2.43.0


From e2189a8141bfc303461220e4c68915eed3ce8da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 10/76] fix: versification counts the highest verse of a
 chapter and lists only really omitted and reordered verses

---
 BibleOrgSys/Internals/InternalBibleBook.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 49d06fa..510ba55 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2997,6 +2997,7 @@ class InternalBibleBook:
         versification, omittedVerses, combinedVerses, reorderedVerses = [], [], [], []
         chapterText, chapterNumber, lastChapterNumber = '-1', -1, -1
         verseText = verseNumberString = lastVerseNumberString = '0'
+        highestVerseNumberString, presentVerses = '0', set()
         for j, entry in enumerate( self._processedLines ):
             marker, text = entry.getMarker(), entry.getText()
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, marker, text )
@@ -3004,7 +3005,7 @@ class InternalBibleBook:
                 if chapterNumber == -1: # it's the book introduction
                     versification.append( (chapterText, str(j-1)) ) # Count each line as a 'verse'
                 else: # it's a regular chapter
-                    versification.append( (chapterText, lastVerseNumberString) )
+                    versification.append( (chapterText, highestVerseNumberString) )
                 chapterText = text.strip()
                 if ' ' in chapterText: # Seems that we can have footnotes here :)
                     versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Unexpected space in USFM chapter number field {!r}").format( self.BBB, lastChapterNumber, lastVerseNumberString, chapterText, lastChapterNumber ) )
@@ -3017,7 +3018,7 @@ class InternalBibleBook:
                     versificationErrors.append( _("{} ('{}' after '{}') USFM chapter numbers out of sequence in {} Bible book").format( self.BBB, chapterNumber, lastChapterNumber, self.workName ) )
                     vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("USFM chapter numbers out of sequence in {} Bible book {} ('{}' after '{}')").format( self.workName, self.BBB, chapterNumber, lastChapterNumber ) )
                 lastChapterNumber = chapterNumber
-                verseText = verseNumberString = lastVerseNumberString = '0'
+                verseText = verseNumberString = lastVerseNumberString = highestVerseNumberString = '0'
             elif marker == 'cp':
                 versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Encountered cp field {}").format( self.BBB, chapterNumber, lastVerseNumberString, text ) )
                 vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Encountered cp field '{}' after {}:{} of {}").format( text, chapterNumber, lastVerseNumberString, self.BBB ) )
@@ -3103,7 +3104,9 @@ class InternalBibleBook:
                         if char.isdigit(): newString += char
                         else: break
                     lastVerseNumber = int(newString) if newString else 999
-                if verseNumber != lastVerseNumber+1:
+                if verseNumber == lastVerseNumber and verseText != text: # e.g., verse 5b after 5a
+                    pass
+                elif verseNumber != lastVerseNumber+1:
                     if verseNumber <= lastVerseNumber:
                         versificationErrors.append( _("{} {} ('{}' after '{}') USFM verse numbers out of sequence in Bible book").format( self.BBB, chapterText, verseText, lastVerseNumberString ) )
                         vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("USFM verse numbers out of sequence in {} Bible book {} {} ('{}' after '{}')").format( self.workName, self.BBB, chapterText, verseText, lastVerseNumberString ) )
@@ -3116,10 +3119,14 @@ class InternalBibleBook:
                         for number in range( lastVerseNumber+1, verseNumber ):
                             omittedVerses.append( (chapterText, str(number)) )
                 lastVerseNumberString = endVerseNumberString
-                if not lastVerseNumberString.isdigit():
+                if lastVerseNumberString.isdigit():
+                    for number in range( verseNumber, int(lastVerseNumberString)+1 ): presentVerses.add( (chapterText, str(number)) )
+                    if int(lastVerseNumberString) > int(highestVerseNumberString): highestVerseNumberString = lastVerseNumberString
+                else:
                     logging.error( f"getVersification value for {self.BBB}_{chapterText} is not an integer: {lastVerseNumberString!r}" )
         assert (chapterText.isdigit() or chapterText=='-1') and lastVerseNumberString.isdigit(), f"getVersification not digits {self.workName} {self.BBB} {chapterText=} {verseText=} {lastVerseNumberString=}"
-        versification.append( (chapterText, lastVerseNumberString) ) # Append the verse count for the final chapter
+        versification.append( (chapterText, highestVerseNumberString) ) # Append the verse count for the final chapter
+        omittedVerses = [CVtuple for CVtuple in dict.fromkeys(omittedVerses) if CVtuple not in presentVerses] # Verses which came later weren't really omitted
         #if reorderedVerses: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Reordered verses in", self.BBB, "are:", reorderedVerses )
         if versificationErrors: self.checkResultsDictionary['Versification Errors'] = versificationErrors
         return versification, omittedVerses, combinedVerses, reorderedVerses
-- 
2.43.0


From 669d26632528ad534616667e7ac65e04fa3acc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 11/76] fix: verse range retrieval accepts SimpleVerseKey
 references

---
 BibleOrgSys/Internals/InternalBibleBook.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 510ba55..af6bdc9 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5251,10 +5251,10 @@ class InternalBibleBook:
         assert isinstance( verseEntryList, InternalBibleEntryList )
 
         # Now concatenate the verse lists for the following verses
-        startC = startBCVReference[1] if isinstance( startBCVReference, tuple ) else startBCVReference.getC()
-        startV = startBCVReference[2] if isinstance( startBCVReference, tuple ) else startBCVReference.getV()
-        endC = endBCVReference[1] if isinstance( endBCVReference, tuple ) else endBCVReference.getC()
-        endV = endBCVReference[2] if isinstance( endBCVReference, tuple ) else endBCVReference.getV()
+        startC = startBCVReference[1] if isinstance( startBCVReference, tuple ) else startBCVReference.getChapterNumStr()
+        startV = startBCVReference[2] if isinstance( startBCVReference, tuple ) else startBCVReference.getVerseNumStr()
+        endC = endBCVReference[1] if isinstance( endBCVReference, tuple ) else endBCVReference.getChapterNumStr()
+        endV = endBCVReference[2] if isinstance( endBCVReference, tuple ) else endBCVReference.getVerseNumStr()
 
         # dPrint( 'Info', DEBUGGING_THIS_MODULE, f"InternalBibleBook.getContextVerseData concatenating {self.workName} {self.BBB} from {startC}:{startV} to {endC}:{endV} {strict=}" )
         # A verse entry might be for several verses (e.g., '4-5' or '4,5') or only for part of a verse (e.g., '4a')
-- 
2.43.0


From 50970713e2c79e7337974a418bc0a7db77a2f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 12/76] fix: the markup writer writes UTF-8 (as its declaration
 says) whatever the locale

---
 BibleOrgSys/InputOutput/MLWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index 809cfab..4bbfaed 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -362,7 +362,7 @@ class MLWriter:
             with open( self._outputFilePath, 'ab' ) as self.__outputFile: # Append binary bytes
                 self.__outputFile.write( b'\xef\xbb\xbf' )
                 #self.__outputFile.write( decode( codecs.BOM_UTF8 ) )
-        self.__outputFile = open( self._outputFilePath, 'at' ) # Append text mode
+        self.__outputFile = open( self._outputFilePath, 'at', encoding='utf-8' ) # Append text mode
         self._status = 'Open'
         self._currentColumn = 0
         if self._outputType=='XML' and not noAutoXML:
-- 
2.43.0


From 58328916c2735f4851d7f2b693fb31b76a2ac471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 13/76] fix: backing up a file that does not exist leaves the
 older backups as they are

---
 BibleOrgSys/BibleOrgSysGlobals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 3f77e2c..c2f1596 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -677,6 +677,8 @@ def backupAnyExistingFile( filenameOrFilepath:Path|str, numBackups:int=1, extens
     if debugFlag and DEBUGGING_THIS_MODULE:
         assert not str(filenameOrFilepath).lower().endswith( '.bak' )
 
+    if not os.access( filenameOrFilepath, os.F_OK ): return # There's nothing to backup (so don't push the older backups down and out)
+
     if extension[0] != '.': extension = '.' + extension
     for n in range( numBackups, 0, -1 ): # e.g., 4,3,2,1
         source = str(filenameOrFilepath) + ('' if n==1 else (extension + ('' if n<3 else str(n-1))))
-- 
2.43.0


From 9d29253a923c81fe252a0348908703630a13cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 14/76] fix: expanding a range over several books starts each
 later book at its first verse, skips books without chapter data and leaves
 out omitted verses

---
 .../Reference/BibleVersificationSystems.py    | 47 +++++++------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 6a7c289..dc2ec6c 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -907,38 +907,27 @@ class BibleVersificationSystem:
                     else: S = ''
                     resultList.append( (BBB1, str(Cint), str(Vint), S,) )
         else: # it's a range that spans multiple books
-            BBB, Cfirst, Vfirst = BBB1, C1int, V1int
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  here1 in expandCVRange:", BBB, Cfirst, Vfirst )
+            BBB = BBB1
             while BBB != BBB2: # Go to the end of this book
-                Clast = self.getNumChapters( BBB )
-                if Clast is None: # This book didn't have any chapter info in the versification scheme  :(
+                if BBB not in self.__chapterDataDict: # This book didn't have any chapter info in the versification scheme  :(
                     logging.critical( "Book {} didn't have chapter information for expanding range {} to {}".format( BBB, startRef, endRef ) )
-                    break
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    here2 in expandCVRange:", BBB, Cfirst, Clast )
-                for Cint in range( Cfirst, Clast+1 ):
-                    Vlast = self.getNumVerses( BBB, str(Cint) )
-                    if Cint==Cfirst: # We're on the first chapter
-                        startVint = V1int
-                        endVint = Vlast
-                    else: # It's not the first chapter
-                        startVint = 1
-                        endVint = Vlast
-                    for Vint in range( startVint, endVint+1 ):
-                        if Cint==C1int and Vint==V1int: S = S1
-                        else: S = ''
-                        resultList.append( (BBB, str(Cint), str(Vint), S,) )
-                BBB, Cfirst, Vfirst = bookOrderSystem.getNextBookCode( BBB ), 1, 1
-            for Cint in range( 1, C2int+1 ): # Now finish the last book
-                if Cint==C2int: # We're on the final chapter
-                    startVint = 1
-                    endVint = V2int
-                else: # Must be an inbetween chapter
-                    startVint = 1
-                    endVint = self.getNumVerses( BBB2, str(Cint) )
-                for Vint in range( startVint, endVint+1 ):
-                    if Cint==C2int and Vint==V2int: S = S2
+                else:
+                    for C in self.__chapterDataDict[BBB]:
+                        if C=='numChapters' or (BBB==BBB1 and int(C)<C1int): continue
+                        startVint = V1int if BBB==BBB1 and int(C)==C1int else 1 # Check if we're on the very first chapter
+                        for Vint in range( startVint, self.getNumVerses( BBB, C )+1 ):
+                            if BBB==BBB1 and int(C)==C1int and Vint==V1int: S = S1
+                            else: S = ''
+                            resultList.append( (BBB, C, str(Vint), S,) )
+                BBB = bookOrderSystem.getNextBookCode( BBB )
+            for C in self.__chapterDataDict[BBB2]: # Now finish the last book
+                if C=='numChapters' or int(C)>C2int: continue
+                endVint = V2int if int(C)==C2int else self.getNumVerses( BBB2, C ) # Check if we're on the final chapter
+                for Vint in range( 1, endVint+1 ):
+                    if int(C)==C2int and Vint==V2int: S = S2
                     else: S = ''
-                    resultList.append( (BBB2, str(Cint), str(Vint), S,) )
+                    resultList.append( (BBB2, C, str(Vint), S,) )
+        resultList = [ref for ref in resultList if not self.isOmittedVerse( ref )] # We only want the valid references
 
         vPrint( 'Never', DEBUGGING_THIS_MODULE, startRef, endRef, resultList, haveErrors, haveWarnings )
         return resultList #, haveErrors, haveWarnings
-- 
2.43.0


From e077c9bc731315b2180060655c7bec6fd3248e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 15/76] fix: each organisational system numbers its own verses
 (whatever other systems were asked about before)

---
 .../Reference/BibleOrganisationalSystems.py   | 25 +++++++++++--------
 .../Reference/BibleVersificationSystems.py    | 10 ++++++++
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index bade387..d6812d0 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -532,20 +532,22 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
     # end of BibleOrganisationalSystem.isValidBCVRef
 
 
-    __absoluteVerseDict = {}
+    __absoluteVerseDict = None # Each system needs its own one
     def __makeAbsoluteVerseList( self ):
         """
-        Make up a list of four-tuples containing
-            BBB, chapterNumber, firstVerseNumber, lastVerseNumber
+        Make up a dictionary with (BBB,chapterNumber) keys containing two-tuples
+            firstVerseNumber, lastVerseNumber
         """
+        self.__absoluteVerseDict = {}
         accumulatedCount = 0
         for BBB in self.getBookList():
+            if not BibleVersificationSystem.__contains__( self, BBB ): continue # No chapters and verses known for this book
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, BibleVersificationSystem.getNumVersesList( self, BBB ) )
-            for j,numVerses in enumerate( BibleVersificationSystem.getNumVersesList( self, BBB ) ):
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, j, numVerses )
-                BibleOrganisationalSystem.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
+            for C,numVerses in zip( BibleVersificationSystem.getChapterList( self, BBB ), BibleVersificationSystem.getNumVersesList( self, BBB ) ):
+                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, numVerses )
+                self.__absoluteVerseDict[(BBB,C)] = (accumulatedCount+1,accumulatedCount+numVerses)
                 accumulatedCount += numVerses
-        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BibleOrganisationalSystem.__absoluteVerseDict )
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__absoluteVerseDict )
     # end of BibleOrganisationalSystem.__makeAbsoluteVerseList
 
 
@@ -559,8 +561,9 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         C, V = int(C), int(V)
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        rangeStart, rangeEnd = BibleOrganisationalSystem.__absoluteVerseDict[ (BBB,C) ]
+        if self.__absoluteVerseDict is None: self.__makeAbsoluteVerseList()
+        if (BBB,C) not in self.__absoluteVerseDict: return None
+        rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
         if 1 <= V <= rangeEnd-rangeStart+1:
             return rangeStart + V - 1
     # end of BibleOrganisationalSystem.getAbsoluteVerseNumber
@@ -576,8 +579,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: assert 1 <= avNumber <= 99999
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        for (BBB,C),(rangeStart, rangeEnd) in BibleOrganisationalSystem.__absoluteVerseDict.items():
+        if self.__absoluteVerseDict is None: self.__makeAbsoluteVerseList()
+        for (BBB,C),(rangeStart, rangeEnd) in self.__absoluteVerseDict.items():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, rangeStart, rangeEnd )
             if rangeStart <= avNumber <= rangeEnd:
                 return BBB, str(C), str(avNumber - rangeStart + 1)
diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index dc2ec6c..f73c4a2 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -747,6 +747,16 @@ class BibleVersificationSystem:
     # end of BibleVersificationSystem.getNumVerses
 
 
+    def getChapterList( self, BBB:str ) -> list[int]:
+        """
+        Returns a list containing the chapter numbers (int) of the book.
+        (They're not always 1..numChapters, e.g., for additions to other books.)
+        """
+        assert len(BBB) == 3
+        return [int(x) for x in self.__chapterDataDict[BBB] if x!='numChapters']
+    # end of BibleVersificationSystem.getChapterList
+
+
     def getNumVersesList( self, BBB:str ) -> list[int]:
         """
         Returns a list containing an integer for each chapter indicating the number of verses.
-- 
2.43.0


From 9919357ad33b811a4862b600dd65942a68713346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 16/76] fix: first book and alternative book of an
 organisational system are books that it includes

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index d6812d0..8bfa8a0 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -439,11 +439,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Return the BBB code for the first book
             otherwise returns None.
         """
-        if 1: return BibleBookOrderSystem.getBookAtOrderPosition( self, 1 )
-        else: # I think this is wrong! Should use BookOrderSystem -- see next function
-            bookList = self.getOrganisationalSystemValue( 'includesBooks' )
-            if bookList is None: return None
-            return bookList[0]
+        firstCode = BibleBookOrderSystem.getBookAtOrderPosition( self, 1 )
+        return firstCode if self.containsBook( firstCode ) else self.getNextBookCode( firstCode )
     # end of BibleOrganisationalSystem.getFirstBookCode
 
 
@@ -477,8 +474,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         """
         if self.containsBook( BBB ): return BBB
         # else
-        # temp …. needs a try/except
-        return BibleOrgSysGlobals.loadedBibleBooksCodes.getPossibleAlternativeBooksCodes( BBB )[0]
+        for altBBB in BibleOrgSysGlobals.loadedBibleBooksCodes.getPossibleAlternativeBooksCodes( BBB ) or []:
+            if self.containsBook( altBBB ): return altBBB
     # end of BibleOrganisationalSystem.getAlternativeBBBIfNecessary
 
 
-- 
2.43.0


From bb01334038eb49ca2a55fec79c448e2791e2d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 17/76] fix: an organisational system that is based on a text
 of its own name which is not defined can be loaded

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index 8bfa8a0..712a08f 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -240,6 +240,7 @@ class BibleOrganisationalSystems:
                     for trySystemName in trySystemNames:
                         if trySystemName == systemName: # Avoid infinite recursion
                             trySystemName += '_' + possibleType
+                            if self.getOrganisationalSystem( trySystemName, suppressErrors=True ) is thisSystem: continue
                         result = self.getOrganisationalSystemValue( trySystemName, valueName, suppressErrors=True )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "trySystemName result is {}".format( repr(result) ) ); halt
                         if result is not None: return result
-- 
2.43.0


From e6fa67dd4310ad50b28dba114288062ad12d904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 18/76] fix: an organisational system without a known book
 order can be loaded

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index 712a08f..d8a2cf4 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -68,7 +68,7 @@ from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
 
 #from BibleOrgSys.Misc.singleton import singleton
-from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem
+from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystems, BibleBookOrderSystem
 from BibleOrgSys.Reference.BiblePunctuationSystems import BiblePunctuationSystem
 from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystem
 from BibleOrgSys.Reference.BibleBooksNames import BibleBooksNamesSystem
@@ -334,7 +334,7 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
 
         # Do some cross-checking
         myBooks = getOrganisationalSystemValue( 'includesBooks' )
-        if myBooks is not None:
+        if myBooks is not None and bookOrderSystemName in BibleBookOrderSystems().loadData(): # Some systems have no (known) book order
             for BBB in myBooks:
                 if not BibleBookOrderSystem.containsBook( self, BBB ):
                     logging.error( _("Book {!r} is included in {} system but missing from {} book order system").format( BBB, self.__systemName, BibleBookOrderSystem.getBookOrderSystemName( self ) ) )
-- 
2.43.0


From d6e96748a8d59cde58d3988c3d6580f07a84aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 19/76] fix: versification copes with lists of more than two
 verses

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index af6bdc9..ff5d98e 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3065,9 +3065,9 @@ class InternalBibleBook:
                 elif ',' in verseText: # we have a range like 7,8
                     versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Encountered comma combined verses field {}").format( self.BBB, chapterNumber, lastVerseNumberString, verseText ) )
                     vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Encountered comma combined verses field {} after {}:{} of {}").format( verseText, chapterNumber, lastVerseNumberString, self.BBB ) )
-                    bits = verseText.split( ',', 1 )
+                    bits = verseText.split( ',' ) # There could be more than two verses in the list
                     verseNumberString, verseNumber = bits[0], 0
-                    endVerseNumberString, endVerseNumber = bits[1], 0
+                    endVerseNumberString, endVerseNumber = bits[-1], 0
                     try:
                         verseNumber = int( verseNumberString )
                     except ValueError:
-- 
2.43.0


From 9501da0276d3f6f705a21f51deeec0084b1a1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 20/76] fix: sort references with chapters above 99, verses
 above 149 or verse letters correctly

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index fc14f86..6bfcf86 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -714,22 +714,21 @@ class BibleBooksCodes:
         try:
             BBB, C, V = BCVReferenceTuple
             S = ''
-        except:
+        except ValueError:
             BBB, C, V, S = BCVReferenceTuple
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, BCVReferenceTuple ); halt # Need to finish handling BCVReferenceTuple
         result = self.getReferenceNumber( BBB )
 
         try:
             intC = int( C )
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(C) ); halt # Need to finish handling C
-        result = result * 100 + intC
+        result = result * 1000 + intC # There's up to 151 chapters (in PSA)
 
         try:
             intV = int( V.split('-')[0] ) # If it's a verse span e.g., 3-4, just take the first part
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(V) ); halt # Need to finish handling V
-        result = result * 150 + intV
+        result = result * 1000 + intV # There's up to 176 verses (in PSA 119)
 
         try:
             intS = {'a':0, 'b':1}[S.lower()] if S else 0
-- 
2.43.0


From c70081a05e9d7501de4969de493360dab068b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 21/76] fix: names and abbreviations shared by several books or
 divisions are not resolved to one of them

---
 BibleOrgSys/Reference/BibleBooksNames.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 498ab7d..ee104f8 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -125,13 +125,17 @@ def expandBibleNamesInputs ( systemName, divisionsNamesDict, booknameLeadersDict
 
     # Secondly make a set of the given allowed names
     divNameInputDict, bkNameInputDict, ambigSet = {}, {}, set()
+    divNamePairs, bkNamePairs = [], [] # (field,value) pairs -- the same field might be given for more than one division or book
+    sharedDivNames, sharedBkNames = set(), set() # Fields which are given for more than one division or book so can't be resolved
     for divAbbrev in divisionsNamesDict.keys():
         for field in divisionsNamesDict[divAbbrev]['inputFields']:
             UCField = field.upper()
             if UCField in divNameInputDict or UCField in bkNameInputDict:
                 logging.warning( _("Have duplicate entries of {!r} in divisionsNames for {}").format( UCField, systemName ) )
                 ambigSet.add( UCField )
+            if divNameInputDict.get( UCField, divAbbrev ) != divAbbrev: sharedDivNames.add( UCField )
             divNameInputDict[UCField] = divAbbrev # Store the index into divisionsNamesDict
+            divNamePairs.append( (UCField,divAbbrev) )
     for refAbbrev in bookNamesDict.keys():
         if refAbbrev in bookList and isinstance(bookNamesDict[refAbbrev], dict) :
             for field in bookNamesDict[refAbbrev]['inputFields']: # inputFields include the defaultName, defaultAbbreviation, and inputAbbreviations
@@ -139,7 +143,9 @@ def expandBibleNamesInputs ( systemName, divisionsNamesDict, booknameLeadersDict
                 if UCField in divNameInputDict or UCField in bkNameInputDict:
                     logging.warning( _("Have duplicate entries of {!r} in divisions and book names for {}").format( UCField, systemName ) )
                     ambigSet.add( UCField )
+                if bkNameInputDict.get( UCField, refAbbrev ) != refAbbrev: sharedBkNames.add( UCField )
                 bkNameInputDict[UCField] = refAbbrev # Store the index to the book
+                bkNamePairs.append( (UCField,refAbbrev) )
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'amb', len(ambigSet), ambigSet )
 
     # Now expand the divisions names
@@ -158,24 +164,24 @@ def expandBibleNamesInputs ( systemName, divisionsNamesDict, booknameLeadersDict
     #
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "\ndivNameInputDict", len(divNameInputDict), divNameInputDict )
     tempDNDict = {}
-    for UCField in divNameInputDict.keys():
-        expandAbbrevs( UCField, divNameInputDict[UCField], divNameInputDict, tempDNDict, ambigSet  )
+    for UCField,divAbbrev in divNamePairs:
+        expandAbbrevs( UCField, divAbbrev, divNameInputDict, tempDNDict, ambigSet  )
         for leader in UCBNLeadersDict: # Note that the leader here includes a trailing space
             if UCField.startswith( leader ):
                 for replacementLeader in UCBNLeadersDict[leader]:
-                    expandAbbrevs( UCField.replace(leader,replacementLeader), divNameInputDict[UCField], divNameInputDict, tempDNDict, ambigSet )
+                    expandAbbrevs( UCField.replace(leader,replacementLeader), divAbbrev, divNameInputDict, tempDNDict, ambigSet )
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\ntempDN', len(tempDNDict), tempDNDict )
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\namb2', len(ambigSet), ambigSet )
 
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "\nbkNameInputDict", len(bkNameInputDict), bkNameInputDict )
     tempBNDict = {}
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, bkNameInputDict.keys(), UCBNLeadersDict )
-    for UCField in bkNameInputDict.keys():
-        expandAbbrevs( UCField, bkNameInputDict[UCField], bkNameInputDict, tempBNDict, ambigSet  )
+    for UCField,refAbbrev in bkNamePairs:
+        expandAbbrevs( UCField, refAbbrev, bkNameInputDict, tempBNDict, ambigSet  )
         for leader in UCBNLeadersDict: # Note that the leader here includes a trailing space
             if UCField.startswith( leader ):
                 for replacementLeader in UCBNLeadersDict[leader]:
-                    expandAbbrevs( UCField.replace(leader,replacementLeader), bkNameInputDict[UCField], bkNameInputDict, tempBNDict, ambigSet )
+                    expandAbbrevs( UCField.replace(leader,replacementLeader), refAbbrev, bkNameInputDict, tempBNDict, ambigSet )
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\ntempBN', len(tempBNDict) )
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\namb3', len(ambigSet), ambigSet )
 
@@ -192,6 +198,10 @@ def expandBibleNamesInputs ( systemName, divisionsNamesDict, booknameLeadersDict
         #else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Didn't add {!r}", field )
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "\nbkNameInputDict--final", len(bkNameInputDict) )
 
+    # Remove any given names that are ambiguous (because they are shared by different divisions or by different books)
+    for field in sharedDivNames: del divNameInputDict[field]
+    for field in sharedBkNames: del bkNameInputDict[field]
+
     # Now sort both dictionaries to be longest string first
     sortedDNDict = dict( sorted(divNameInputDict.items(), key=lambda s: -len(s[0])) )
     sortedBNDict = dict( sorted( bkNameInputDict.items(), key=lambda s: -len(s[0])) )
-- 
2.43.0


From b13e96ae5c4628a5494919f15eb2cb1773646202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 22/76] fix: list the markers after a stray closing nested
 marker, and end a marker where it is opened again

---
 BibleOrgSys/Reference/USFM2Markers.py | 5 +++--
 BibleOrgSys/Reference/USFM3Markers.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 09eefc0..449d9b2 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -645,7 +645,8 @@ class USFM2Markers:
             elif x==' ' or x=='': # Open marker in line or at end of line
                 cx = [m] #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "set", cx )
             elif x=='+': cx.append( m ) #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "add", m, cx )
-            elif x=='-': cx.pop() #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "del", m, cx )
+            elif x=='-':
+                if cx: cx.pop() #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "del", m, cx )
             elif x=='*': cx = [] #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "clr", cx )
             else:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USFM2Markers.getMarkerListFromText: Shouldn't happen", firstResult, secondResult,
@@ -666,7 +667,7 @@ class USFM2Markers:
                 assert cx[cxi] == m
                 for k in range( j+1, rLen ):
                     m2, ix2, x2, mx2, cx2, tx2 = secondResult[k]
-                    if len(cx2)<=cxi or cx2[cxi] != m: ixEnd = k; break
+                    if x2 in (' ','') or len(cx2)<=cxi or cx2[cxi] != m: ixEnd = k; break # A following opening marker closes any previous ones
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'final', j, m, ix, repr(x), repr(mx), cx, repr(tx), ixEnd )
             thirdResult.append( (m, ix, x, mx, cx[:], ixEnd, tx,) )
 
diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 2f0a2c5..133d236 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -695,7 +695,7 @@ class USFM3Markers:
                 assert cx[cxi] == m, f"In USFM3Markers.getMarkerListFromText: {cxi=} {cx[cxi]=}  {m=}"
                 for k in range( j+1, rLen ):
                     m2, ix2, x2, mx2, cx2, tx2 = secondResult[k]
-                    if len(cx2)<=cxi or cx2[cxi] != m: ixEnd = k; break
+                    if x2 in (' ','') or len(cx2)<=cxi or cx2[cxi] != m: ixEnd = k; break # A following opening marker closes any previous ones
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'final', j, m, ix, repr(x), repr(mx), cx, repr(tx), ixEnd )
             thirdResult.append( (m, ix, x, mx, cx[:], ixEnd, tx,) )
 
-- 
2.43.0


From 7778a1323be85fa49851e9a58567e04adb7f5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 23/76] fix: cleaned notes keep dashes and pluses inside them
 and drop the space after opening character markers

---
 BibleOrgSys/Internals/InternalBibleBook.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index ff5d98e..dcdd2df 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1098,13 +1098,14 @@ class InternalBibleBook:
                             .replace( '&gt;',  '>' ) \
                             .replace( '&quot;', '"' ) # Undo any replacements above
             for sign in ('- ', '+ '): # Remove common leader characters (and the following space)
-                cleanedNote = cleanedNote.replace( sign, '' )
+                if cleanedNote.startswith( sign ): cleanedNote = cleanedNote[len(sign):]; break # but not from inside the note
             # TODO: This is bad having a list like this inside the code!!!
             for marker in ['\\xo*','\\xo ', '\\xt*','\\xt ', '\\xta*','\\xta ', '\\xk*','\\xk ', '\\xq*','\\xq ', '\\xop*','\\xop ', 
                             '\\xot*','\\xot ', '\\xnt*','\\xnt ', '\\xdc*','\\xdc ',
                             '\\fr*','\\fr ','\\ft*','\\ft ','\\fqa*','\\fqa ','\\fq*','\\fq ',
                             '\\fv*','\\fv ','\\fk*','\\fk ','\\fl*','\\fl ','\\fdc*','\\fdc ',] \
                                 + BibleOrgSysGlobals.internal_SFMs_to_remove:
+                if marker[-1] not in ' *': cleanedNote = cleanedNote.replace( marker+' ', '' ) # The space is part of an opening marker
                 cleanedNote = cleanedNote.replace( marker, '' )
             if '\\z' in cleanedNote:
                 fixErrors.append( lineLocationSpace + _("Found custom marker in {}: {}").format( thisOne, cleanedNote ) )
-- 
2.43.0


From c2e1a0319b7ca0e10880e3d1270139bd92d93d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 24/76] fix: a note on a chapter or verse number is lifted only
 once

---
 BibleOrgSys/Internals/InternalBibleBook.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index dcdd2df..68e2d45 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2410,13 +2410,7 @@ class InternalBibleBook:
                         self.addPriorityError( 30 if '\f ' in cBits[1] else 98, C, V, _("Extra {!r} material after chapter number").format( cBits[1] ) )
                         if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook._processLine: Something on c line", self.BBB, C, V, repr(text), repr(cBits[1]) )
-                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, cBits[1], fixErrors )
-                        if (adjText or cleanText or extras) and BibleOrgSysGlobals.debugFlag:
-                            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook._processLine: Something on c line", self.BBB, C, V, repr(text), repr(cBits[1]) )
-                            if adjText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " adjText:", repr(adjText) )
-                            if cleanText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " cleanText:", repr(cleanText) )
-                            if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " extras:", extras )
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, C, C, extras, C) ) # Write the chapter number as a separate line
+                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, C, C, None, C) ) # Write the chapter number as a separate line
                         adjustedMarker, text = 'c~', cBits[1]
             elif originalMarker=='cp' and text:
                 V = '0'
@@ -2517,16 +2511,8 @@ class InternalBibleBook:
                     if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
                         assert verseNumberBit and verseNumberRest
                         assert '\\' not in verseNumberBit
-                    if len(vBits)>2: # rarely happens (e.g., footnote on verse number)
-                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, vBits[1], fixErrors )
-                        if (adjText or cleanText or extras) and BibleOrgSysGlobals.debugFlag:
-                            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook._processLine: Something on v line", self.BBB, C, V, repr(text), repr(vBits[1]) )
-                            if adjText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " adjText:", repr(adjText) )
-                            if cleanText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " cleanText:", repr(cleanText) )
-                            if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " extras:", extras )
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, verseNumberBit, verseNumberBit, extras, verseNumberBit) ) # Write the verse number (or range) as a separate line
-                    else:
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, verseNumberBit, verseNumberBit, None, verseNumberBit) ) # Write the verse number (or range) as a separate line
+                    # Any footnote on the verse number is left at the beginning of the verse text
+                    self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, verseNumberBit, verseNumberBit, None, verseNumberBit) ) # Write the verse number (or range) as a separate line
 
                     strippedVerseText = verseNumberRest.lstrip()
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "QQQ9: lstrip" )
-- 
2.43.0


From 2482e2dc05fb263b56019034dc8e2addda92a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 25/76] fix: a newline marker inside a line starts a new line

---
 BibleOrgSys/Internals/InternalBibleBook.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 68e2d45..6d59a29 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2538,21 +2538,15 @@ class InternalBibleBook:
 
             if self.objectTypeString in ('USFM2','USFM3'):
                 markerList = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerListFromText( text )
-                ix = 0
                 for insideMarker, iMIndex, nextSignificantChar, fullMarker, characterContext, endIndex, markerField in markerList: # check paragraph markers
                     if BibleOrgSysGlobals.loadedUSFMMarkers.isNewlineMarker(insideMarker): # Need to split the line for everything else to work properly
-                        if ix==0:
-                            fixErrors.append( lineLocationSpace + _("Marker {!r} shouldn't appear within line in \\{}: {!r}").format( insideMarker, originalMarker, text ) )
-                            logging.error( "InternalBibleBook._processLine: " + _("Marker {!r} shouldn't appear within line after {} {}:{} in \\{}: {!r}").format( insideMarker, self.BBB, C, V, originalMarker, text ) ) # Only log the first error in the line
-                            self.addPriorityError( 96, C, V, _("Marker \\{} shouldn't be inside a line").format( insideMarker ) )
-                        thisText = text[ix:iMIndex].rstrip()
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "QQQ10: rstrip" ); halt
-                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, thisText, fixErrors )
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, adjText, cleanText, extras, originalText) )
-                        ix = iMIndex + 1 + len(insideMarker) + len(nextSignificantChar) # Get the start of the next text -- the 1 is for the backslash
-                        adjMarker = BibleOrgSysGlobals.loadedUSFMMarkers.toStandardMarker( insideMarker ) # setup for the next line
-                if ix != 0: # We must have separated multiple lines
-                    text = text[ix:]
+                        fixErrors.append( lineLocationSpace + _("Marker {!r} shouldn't appear within line in \\{}: {!r}").format( insideMarker, originalMarker, text ) )
+                        logging.error( "InternalBibleBook._processLine: " + _("Marker {!r} shouldn't appear within line after {} {}:{} in \\{}: {!r}").format( insideMarker, self.BBB, C, V, originalMarker, text ) )
+                        self.addPriorityError( 96, C, V, _("Marker \\{} shouldn't be inside a line").format( insideMarker ) )
+                        thisText = text[:iMIndex].rstrip()
+                        if thisText or adjustedMarker != 'c~': __doAppendEntry( adjustedMarker, originalMarker, thisText, thisText )
+                        _processLine( insideMarker, text[iMIndex+len(fullMarker):] ) # Process the rest as if it was on a line of its own
+                        return
             elif self.objectTypeString == 'SwordBibleModule':
                 # First replace fixed strings
                 ixLT = text.find( '<' )
-- 
2.43.0


From bc62b6cd64196b3cbeab616562c879d2b4197556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 26/76] fix: text before the first marker line of a file is not
 read as a marker line, and an inferred record key is remembered

---
 BibleOrgSys/InputOutput/ESFMFile.py | 5 +++--
 BibleOrgSys/InputOutput/SFMFile.py  | 4 ++--
 BibleOrgSys/InputOutput/USFMFile.py | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/InputOutput/ESFMFile.py b/BibleOrgSys/InputOutput/ESFMFile.py
index b03df82..7819ca7 100755
--- a/BibleOrgSys/InputOutput/ESFMFile.py
+++ b/BibleOrgSys/InputOutput/ESFMFile.py
@@ -115,7 +115,8 @@ class ESFMFile:
                     if line[0]=='#': continue # Just discard comment lines
 
                     while line and line[0]==' ': line = line[1:] # Remove leading spaces
-                    if line and line[0]!='\\': # Not a SFM line
+                    if not line: continue # Just discard blank lines
+                    if line[0]!='\\': # Not a SFM line
                         if len(result)==0: # We don't have any SFM data lines yet
                             if BibleOrgSysGlobals.verbosityLevel > 2:
                                 logging.error( "Non-ESFM line in " + esfm_filename + " -- line ignored at #" + str(lineCount) )
@@ -129,7 +130,7 @@ class ESFMFile:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     marker, text = splitUSFMMarkerFromText( line )
                     if marker not in ignoreSFMs:
diff --git a/BibleOrgSys/InputOutput/SFMFile.py b/BibleOrgSys/InputOutput/SFMFile.py
index 09c40b2..0da4c16 100755
--- a/BibleOrgSys/InputOutput/SFMFile.py
+++ b/BibleOrgSys/InputOutput/SFMFile.py
@@ -125,7 +125,7 @@ class SFMLines:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     lineAfterBackslash = line[1:]
                     si1 = lineAfterBackslash.find( ' ' )
@@ -261,7 +261,7 @@ class SFMRecords:
 
                     if not key and marker not in ignoreSFMs:
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '    Assuming', marker, 'to be the SFM key for', SFMFilepath)
-                        key = marker
+                        self.key = key = marker
                     if marker==key: # Save the previous record
                         if record and record[0][1] not in ignoreEntries: # Looks at the text associated with the first (record key) marker
                             strippedRecord = []
diff --git a/BibleOrgSys/InputOutput/USFMFile.py b/BibleOrgSys/InputOutput/USFMFile.py
index fcec6a7..e78a605 100755
--- a/BibleOrgSys/InputOutput/USFMFile.py
+++ b/BibleOrgSys/InputOutput/USFMFile.py
@@ -177,7 +177,7 @@ class USFMFile:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     marker, text = splitUSFMMarkerFromText( line )
                     if marker not in ignoreSFMs:
-- 
2.43.0


From 302fb619564a918a220822fb2f8e29c8cc7475d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 27/76] fix: extending a container of lines or notes with
 itself ends

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index b435dad..75e6d5a 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -550,7 +550,7 @@ class InternalBibleExtraList:
 
     def extend( self, newExtraList ):
         assert isinstance( newExtraList, InternalBibleExtraList )
-        self.data.extend( newExtraList )
+        self.data.extend( newExtraList.data )
     # end of InternalBibleExtraList.extend
 
     def checkForIndex( self, stringIndex ):
@@ -865,7 +865,7 @@ class InternalBibleEntryList:
         Extend the InternalBibleEntryList with the newList given.
         """
         assert isinstance( additionalList, InternalBibleEntryList )
-        self.data.extend( additionalList )
+        self.data.extend( additionalList.data )
     # end of InternalBibleEntryList.extend
     def __add__( self, listToAppend ):
         """
@@ -873,7 +873,7 @@ class InternalBibleEntryList:
         """
         assert isinstance( listToAppend, InternalBibleEntryList ), f"__add__ {type(listToAppend)=} {listToAppend=}"
         result = InternalBibleEntryList( self )
-        result.data.extend( listToAppend )
+        result.data.extend( listToAppend.data )
         return result
     # end of InternalBibleEntryList.__add__
 
-- 
2.43.0


From ba851b6292d877c1449897dfc929dd6f2f7b49c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 28/76] fix: verse keys: lists of six, eight and nine verses,
 backwards ranges, chapter keys, key texts that can be read back, and equality
 of index keys

---
 BibleOrgSys/Reference/VerseReferences.py | 152 +++++++++++------------
 1 file changed, 75 insertions(+), 77 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 7ca2e7b..a9f5292 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -109,7 +109,7 @@ DEBUGGING_THIS_MODULE = False
 #
 #       All metacharacters (which must be escaped to search for literals): . ^ $ * + ? { } [ ] \ | ( )
 #
-BBB_RE = '([A-PR-XZ][A-EG-VX-Z1][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
+BBB_RE = '([A-PR-XZ][A-EG-VX-Z124][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
 C_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Chapter numbers 1..199 (doesn't handle chapters -1 or 0)
 V_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Verse numbers 1..199 (doesn't handle verse 0)
 S_RE = '!([a-d]?)'
@@ -125,6 +125,9 @@ BCVS_RE = '{}_{}'.format( BBB_RE, CVS_RE )
 BCVI_RE = '{}_{}'.format( BBB_RE, CVI_RE )
 BCVSI_RE = '{}_{}(?:(?:{})|(?:{}))?'.format( BBB_RE, CV_RE, S_RE, I_RE )
 
+# We don't know how many verses there really are in a chapter
+MAX_RANGE_VERSE = 222
+
 # The following all include beginning and end markers, i.e., only match entire strings
 BCVS1_RE = re.compile( '^{}$'.format( BCVS_RE ) )
 BCVI1_RE = re.compile( '^{}$'.format( BCVI_RE ) )
@@ -248,7 +251,7 @@ class SimpleVerseKey():
     def __eq__( self, other ):
         #if type( other ) is type( self ): return self.__dict__ == other.__dict__
         if type( other ) is type( self ):
-            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S
+            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S and self.I==other.I
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -346,8 +349,7 @@ class SimpleVerseKey():
             self.BBB, self.C, self.V, self.S, self.I = match.group(1), match.group(2), match.group(3), (match.group(4) if match.group(4) else ''), None
             if self.BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVerseKey: Invalid {!r} book code".format( self.BBB ) )
-            if BibleOrgSysGlobals.strictCheckingFlag:
-                assert self.BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+                return False
             self.keyType = 'ParsedBCVS'
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.getShortText() )
             return True
@@ -359,8 +361,7 @@ class SimpleVerseKey():
             self.BBB, self.C, self.V, self.I, self.S = match.group(1), match.group(2), match.group(3), (match.group(4) if match.group(4) else ''), None
             if self.BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVerseKey: Invalid {!r} book code".format( self.BBB ) )
-            if BibleOrgSysGlobals.strictCheckingFlag:
-                assert self.BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+                return False
             self.keyType = 'ParsedBCVI'
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.getShortText() )
             return True
@@ -389,8 +390,7 @@ class SimpleVerseKey():
             self.BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             if self.BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVerseKey: Invalid {!r} book code".format( self.BBB ) )
-            if BibleOrgSysGlobals.strictCheckingFlag:
-                assert self.BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+                return False
             self.keyType = 'ParsedBCVS'
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.getShortText() )
             return True
@@ -459,7 +459,7 @@ class SimpleVersesKey():
             else:
                 BBB, C, V, S = svk.getBCVS()
                 if BBB == lastBBB:
-                    if C == lastC: resultStr += ',{}{}{}'.format( V, '!' if S else '', S )
+                    if not self.keyType.endswith( 'CV' ): resultStr += ',{}{}{}'.format( V, '!' if S else '', S )
                     else: resultStr += ';{}:{}{}{}'.format( C,V, '!' if S else '', S )
                 else: resultStr += ';{}_{}:{}{}{}'.format( BBB, C,V, '!' if S else '', S )
                 lastBBB, lastC = BBB, C
@@ -513,7 +513,7 @@ class SimpleVersesKey():
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2)]
@@ -528,7 +528,7 @@ class SimpleVersesKey():
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "SDADQ", referenceString )
@@ -546,7 +546,7 @@ class SimpleVersesKey():
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             C3, V3, S3 = match.group(8), match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2), SimpleVerseKey(BBB,C3,V3,S3)]
@@ -562,7 +562,7 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "CCVSD", referenceString )
@@ -584,7 +584,7 @@ class SimpleVersesKey():
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -605,9 +605,9 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -632,7 +632,7 @@ class SimpleVersesKey():
             V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -656,11 +656,11 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -685,12 +685,12 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
-            V9, S9 = match.group(18), match.group(19) if match.group(19) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
+            V9, S9 = match.group(19), match.group(20) if match.group(20) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -745,7 +745,7 @@ class SimpleVersesKey():
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2)]
@@ -760,7 +760,7 @@ class SimpleVersesKey():
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -776,7 +776,7 @@ class SimpleVersesKey():
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             C3, V3, S3 = match.group(8), match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.keyType = '3CV'
@@ -837,10 +837,11 @@ class VerseRangeKey():
 
 
     def getVerseKeyText( self ):
+        if self.keyType=='C': return '{}_{}'.format( self.rangeStart.getBBB(), self.rangeStart.getChapterNumStr() )
         resultStr = self.rangeStart.getVerseKeyText()
         BBB, C, V, S = self.rangeEnd.getBCVS()
         if BBB == self.rangeStart.getBBB():
-            if C == self.rangeStart.getChapterNumStr(): resultStr += '-{}{}{}'.format( V, '!' if S else '', S )
+            if self.keyType == 'V-V': resultStr += '-{}{}{}'.format( V, '!' if S else '', S )
             else: resultStr += '–{}:{}{}{}'.format( C,V, '!' if S else '', S )
         else: resultStr += '–{}_{}:{}{}{}'.format( BBB, C,V, '!' if S else '', S )
         return resultStr
@@ -882,20 +883,16 @@ class VerseRangeKey():
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1) or S2!=S1
+            if (int(V2),S2) <= (int(V1),S1): # The range must go forward
+                if not self.ignoreParseErrors:
+                    logging.error( "VerseRangeKey: Range goes backwards in {!r}".format( referenceString ) )
+                return False
             self.rangeStart = SimpleVerseKey( BBB, C, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C, V2, S2 )
-            self.verseKeysList = []
-            self.verseKeysList.append( SimpleVerseKey( BBB, C, V1, S1 ) )
-            V = V1
-            if BibleOrgSysGlobals.debugFlag:
-                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Expanding range from {} to {}…".format( self.rangeStart.getShortText(), self.rangeEnd.getShortText() ) )
-            assert int(V2)>int(V1) or S2!=S1
-            while True:
-                V = str( int(V) + 1 )
-                if V==V2:
-                    self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
-                    break
+            self.verseKeysList = [SimpleVerseKey( BBB, C, V1, S1 )]
+            for V in range( int(V1)+1, int(V2) ):
                 self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
+            self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
             self.keyType = 'V-V'
             return True
         match = re.search( CHAPTER_RANGE_RE, referenceString )
@@ -909,18 +906,19 @@ class VerseRangeKey():
                 logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+            if (int(C2),int(V2),S2) <= (int(C1),int(V1),S1): # The range must go forward
+                if not self.ignoreParseErrors:
+                    logging.error( "VerseRangeKey: Range goes backwards in {!r}".format( referenceString ) )
+                return False
             self.rangeStart = SimpleVerseKey( BBB, C1, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C2, V2, S2 )
-            self.verseKeysList = []
-            C, V, S = C1, V1, S1
-            while True:
-                if C==C2 and V==V2:
-                    self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
-                    break
-                self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
-                V = str( int(V) + 1 )
-                if int(V)>222:
-                    C,V = str( int(C) + 1 ), '1'
+            self.verseKeysList = [SimpleVerseKey( BBB, C1, V1, S1 )]
+            C, V = int(C1), int(V1)
+            while (C,V) != (int(C2),int(V2)):
+                V += 1
+                if V>MAX_RANGE_VERSE: C,V = C+1, 1
+                if (C,V) != (int(C2),int(V2)): self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
+            self.verseKeysList.append( SimpleVerseKey( BBB, C2, V2, S2 ) )
             self.keyType = 'CV-CV'
             return True
         match = re.search( CHAPTER_RE, referenceString )
@@ -929,11 +927,12 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             BBB, C = match.group(1), match.group(2)
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "VerseRangeKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.rangeStart = SimpleVerseKey( BBB, C, '1' )
             self.rangeEnd = SimpleVerseKey( BBB, C, '999' )
+            self.verseKeysList = [SimpleVerseKey( BBB, C, V ) for V in range( 1, MAX_RANGE_VERSE+1 )]
             self.keyType = 'C'
             return True
         # else:
@@ -963,16 +962,16 @@ class VerseRangeKey():
                 logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+            if (int(V2),S2) <= (int(V1),S1): # The range must go forward
+                if not self.ignoreParseErrors:
+                    logging.error( "VerseRangeKey: Range goes backwards in {!r}".format( referenceString ) )
+                return False
             self.rangeStart = SimpleVerseKey( BBB, C, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C, V2, S2 )
-            self.verseKeysList = []
-            V, S = V1, S1
-            while True:
-                if V==V2:
-                    self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
-                    break
+            self.verseKeysList = [SimpleVerseKey( BBB, C, V1, S1 )]
+            for V in range( int(V1)+1, int(V2) ):
                 self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
-                V = str( int(V) + 1 )
+            self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
             self.keyType = 'V-V'
             return True
         match = re.search( OSIS_CHAPTER_RANGE_RE, referenceString )
@@ -986,18 +985,19 @@ class VerseRangeKey():
                 logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+            if (int(C2),int(V2),S2) <= (int(C1),int(V1),S1): # The range must go forward
+                if not self.ignoreParseErrors:
+                    logging.error( "VerseRangeKey: Range goes backwards in {!r}".format( referenceString ) )
+                return False
             self.rangeStart = SimpleVerseKey( BBB, C1, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C2, V2, S2 )
-            self.verseKeysList = []
-            C, V, S = C1, V1, S1
-            while True:
-                if C==C2 and V==V2:
-                    self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
-                    break
-                self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
-                V = str( int(V) + 1 )
-                if int(V)>222:
-                    C,V = str( int(C) + 1 ), '1'
+            self.verseKeysList = [SimpleVerseKey( BBB, C1, V1, S1 )]
+            C, V = int(C1), int(V1)
+            while (C,V) != (int(C2),int(V2)):
+                V += 1
+                if V>MAX_RANGE_VERSE: C,V = C+1, 1
+                if (C,V) != (int(C2),int(V2)): self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
+            self.verseKeysList.append( SimpleVerseKey( BBB, C2, V2, S2 ) )
             self.keyType = 'CV-CV'
             return True
         match = re.search( OSIS_CHAPTER_RE, referenceString )
@@ -1006,11 +1006,12 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             bk, C = match.group(1), match.group(2)
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "VerseRangeKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.rangeStart = SimpleVerseKey( BBB, C, '1' )
             self.rangeEnd = SimpleVerseKey( BBB, C, '999' )
+            self.verseKeysList = [SimpleVerseKey( BBB, C, V ) for V in range( 1, MAX_RANGE_VERSE+1 )]
             self.keyType = 'C'
             return True
         # else:
@@ -1072,15 +1073,12 @@ class FlexibleVersesKey():
 
 
     def getVerseKeyText( self ):
-        if self.keyType=='V-V,V':
-            vRange, vSingle = self.verseKeyObjectList[0], self.verseKeyObjectList[1]
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here", vRange, vSingle, "'{},{}'".format( vRange.getVerseKeyText(), vSingle.getVerseNumber() ) )
-            S = vSingle.getVerseSuffix()
-            return '{},{}{}{}'.format( vRange.getVerseKeyText(), vSingle.getVerseNumber(), '!' if S else '', S )
         resultText = ''
         for verseKeyObject in self.verseKeyObjectList:
-            if resultText: resultText += ', '
-            resultText += verseKeyObject.getVerseKeyText()
+            verseKeyText = verseKeyObject.getVerseKeyText()
+            # All of the objects are in the same chapter so the book and chapter are only given once
+            if resultText: verseKeyText = ',' + verseKeyText[verseKeyText.index( ':' )+1:]
+            resultText += verseKeyText
         return resultText
 
 
-- 
2.43.0


From 2a409b5048c52e7823d4437a7dfcafdf9c5695b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 29/76] fix: OSIS verse keys can be read, write their suffix,
 and list their verses

---
 BibleOrgSys/Reference/VerseReferences.py | 57 +++++++++++++++---------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index a9f5292..bb5c1c8 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -166,21 +166,21 @@ BCVS_RANGES3_RE = re.compile( '^{}-{},{}-{},{}-{}$'.format( BCVS_RE, VS_RE, VS_R
 BCVS_RANGES4_RE = re.compile( '^{}-{},{}-{},{}-{},{}-{}$'.format( BCVS_RE, VS_RE, VS_RE, VS_RE, VS_RE, VS_RE, VS_RE, VS_RE ) )
 
 # OSIS
-OSIS_BOOK_RE = re.compile( '([1-5A-EG-JL-PRSTVWZ][BCEJKMPSTa-ehimoprsuxz](?:[AJMa-eghik-pr-v](?:[DEPacdeghklmnrstuvz](?:[Gachnrsz](?:[nrst][ah]?)?)?)?)?)' ) # Finds OSIS book codes
-OSIS_C_RE = re.compile( '([1-9][0-9]?|[1][0-9][0-9])' ) #  Chapter numbers 1..199
-OSIS_V_RE = re.compile( '([1-9][0-9]?|[1][0-9][0-9])' ) #  Verse numbers 1..199
-OSIS_S_RE = re.compile( '([a-f]?)' )
+OSIS_BOOK_RE = '([1-5A-EG-JL-PRSTVWZ][BCEJKMPSTa-ehimoprsuxz](?:[AJMa-eghik-pr-v](?:[DEPacdeghklmnrstuvz](?:[Gachnrsz](?:[nrst][ah]?)?)?)?)?)' # Finds OSIS book codes
+OSIS_C_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Chapter numbers 1..199
+OSIS_V_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Verse numbers 1..199
+OSIS_S_RE = '([a-f]?)'
 # Derived REs
 OSIS_VS_RE = '{}(?:!{})?'.format( OSIS_V_RE, OSIS_S_RE )
 OSIS_CVS_RE = r'{}\.{}'.format( OSIS_C_RE, OSIS_VS_RE )
-OSIS_BCVS_RE = '{}_{}'.format( OSIS_BOOK_RE, OSIS_CVS_RE )
+OSIS_BCVS_RE = '{}[._]{}'.format( OSIS_BOOK_RE, OSIS_CVS_RE )
 # The following all include beginning and end markers, i.e., only match entire strings
 OSIS_BCVS1_RE = re.compile( '^{}$'.format( OSIS_BCVS_RE ) )
 OSIS_BCVS2_RE = re.compile( r'^{}\.{}$'.format( OSIS_BCVS_RE, OSIS_VS_RE ) )
 OSIS_BCVS2C_RE = re.compile( '^{};{}$'.format( OSIS_BCVS_RE, OSIS_CVS_RE ) )
 OSIS_BCVS3_RE = re.compile( r'^{}\.{}\.{}$'.format( OSIS_BCVS_RE, OSIS_VS_RE, OSIS_VS_RE ) )
 OSIS_BCVS3C_RE = re.compile( '^{};{};{}$'.format( OSIS_BCVS_RE, OSIS_CVS_RE, OSIS_CVS_RE ) )
-OSIS_CHAPTER_RE = re.compile( '^{}_{}$'.format( OSIS_BOOK_RE, OSIS_C_RE ) )
+OSIS_CHAPTER_RE = re.compile( '^{}[._]{}$'.format( OSIS_BOOK_RE, OSIS_C_RE ) )
 OSIS_BCVS_RANGE_RE = re.compile( '^{}-{}$'.format( OSIS_BCVS_RE, OSIS_VS_RE ) )
 OSIS_CHAPTER_RANGE_RE = re.compile( '^{}–{}$'.format( OSIS_BCVS_RE, OSIS_CVS_RE ) )
 # Special cases
@@ -190,6 +190,19 @@ OSIS_BCVS_PLUS_RANGE_PLUS_RE = re.compile( r'^{}\.{}-{}\.{}$'.format( OSIS_BCVS_
 
 
 
+def getBBBFromOSIS( OSISBookAbbreviation:str ) -> str|None:
+    """
+    Returns our book code for the given OSIS book code
+        (the first one if there's several),
+        or None if it's not a known OSIS book code.
+    """
+    try: BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( OSISBookAbbreviation )
+    except KeyError: return None
+    return BBB if isinstance( BBB, str ) else BBB[0]
+# end of getBBBFromOSIS
+
+
+
 class SimpleVerseKey():
     """
     Handles individual verse references (no ranges, etc. allowed) in the internal BCVS or BCVI form
@@ -317,7 +330,7 @@ class SimpleVerseKey():
     def getOSISBookAbbreviation( self ):
         return BibleOrgSysGlobals.loadedBibleBooksCodes.getOSISAbbreviation( self.BBB )
     def getOSISReference( self ):
-        return '{}.{}.{}'.format( self.getOSISBookAbbreviation(), self.C, self.V )
+        return '{}.{}.{}{}{}'.format( self.getOSISBookAbbreviation(), self.C, self.V, '!' if self.S else '', self.S if self.S else '' )
 
     def __iter__( self ):
         """
@@ -387,7 +400,7 @@ class SimpleVerseKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)) )
             bk, self.C, self.V, self.S, self.I = match.group(1), match.group(2), match.group(3), (match.group(4) if match.group(4) else ''), None
-            self.BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
+            self.BBB = getBBBFromOSIS( bk )
             if self.BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVerseKey: Invalid {!r} book code".format( self.BBB ) )
                 return False
@@ -726,7 +739,7 @@ class SimpleVersesKey():
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)) )
-            bk, C = match.group(1), match.group(2)
+            BBB, C = getBBBFromOSIS( match.group(1) ), match.group(2)
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
@@ -741,7 +754,7 @@ class SimpleVersesKey():
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)) )
-            bk = match.group(1)
+            BBB = getBBBFromOSIS( match.group(1) )
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
@@ -755,7 +768,7 @@ class SimpleVersesKey():
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)) )
-            bk, C = match.group(1), match.group(2)
+            BBB, C = getBBBFromOSIS( match.group(1) ), match.group(2)
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
@@ -765,13 +778,14 @@ class SimpleVersesKey():
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
                 assert int(V3)>int(V2)+1 or S3!=S2
+            self.verseKeysList = [SimpleVerseKey(BBB,C,V1,S1), SimpleVerseKey(BBB,C,V2,S2), SimpleVerseKey(BBB,C,V3,S3)]
             self.keyType = '3V'
             return True
         match = re.search( OSIS_BCVS3C_RE, referenceString )
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)) )
-            bk = match.group(1)
+            BBB = getBBBFromOSIS( match.group(1) )
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             C3, V3, S3 = match.group(8), match.group(9), match.group(10) if match.group(10) else ''
@@ -779,6 +793,7 @@ class SimpleVersesKey():
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+            self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2), SimpleVerseKey(BBB,C3,V3,S3)]
             self.keyType = '3CV'
             return True
         # else:
@@ -955,7 +970,7 @@ class VerseRangeKey():
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
-            bk, C = match.group(1), match.group(2)
+            BBB, C = getBBBFromOSIS( match.group(1) ), match.group(2)
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
@@ -978,7 +993,7 @@ class VerseRangeKey():
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
-            bk = match.group(1)
+            BBB = getBBBFromOSIS( match.group(1) )
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
@@ -1004,7 +1019,7 @@ class VerseRangeKey():
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
-            bk, C = match.group(1), match.group(2)
+            BBB, C = getBBBFromOSIS( match.group(1) ), match.group(2)
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -1620,19 +1635,19 @@ class FlexibleVersesKey():
         """
         fnPrint( DEBUGGING_THIS_MODULE, "parseOSISString( {!r} )".format( referenceString ) )
         try:
-            resultKey = SimpleVerseKey( referenceString, ignoreParseErrors=True )
+            resultKey = SimpleVerseKey( referenceString, OSIS=True, ignoreParseErrors=True )
             self.verseKeyObjectList.append( resultKey )
             #self.keyType = 'RESULT'
             return True
         except TypeError: pass
         try:
-            resultKey = SimpleVersesKey( referenceString, ignoreParseErrors=True )
+            resultKey = SimpleVersesKey( referenceString, OSIS=True, ignoreParseErrors=True )
             self.verseKeyObjectList.append( resultKey )
             #self.keyType = 'RESULT'
             return True
         except TypeError: pass
         try:
-            resultKey = VerseRangeKey( referenceString, ignoreParseErrors=True )
+            resultKey = VerseRangeKey( referenceString, OSIS=True, ignoreParseErrors=True )
             self.verseKeyObjectList.append( resultKey )
             #self.keyType = 'RESULT'
             return True
@@ -1642,7 +1657,7 @@ class FlexibleVersesKey():
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
-            bk, C = match.group(1), match.group(2)
+            BBB, C = getBBBFromOSIS( match.group(1) ), match.group(2)
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
@@ -1661,7 +1676,7 @@ class FlexibleVersesKey():
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
-            bk, C = match.group(1), match.group(2)
+            BBB, C = getBBBFromOSIS( match.group(1) ), match.group(2)
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
@@ -1680,7 +1695,7 @@ class FlexibleVersesKey():
         if match:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
-            bk, C = match.group(1), match.group(2)
+            BBB, C = getBBBFromOSIS( match.group(1) ), match.group(2)
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
-- 
2.43.0


From 21cdc393cfa47985a4c134cb98e15c14d4966073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 30/76] fix: reference parser: full book names, chapters after
 separators, ranges across chapters and books

---
 BibleOrgSys/Reference/BibleReferences.py | 88 +++++++++++++++++-------
 1 file changed, 64 insertions(+), 24 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 887de88..38be41a 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -240,7 +240,7 @@ class BibleSingleReference( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None or adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't seem to have a valid (or complete) bookname yet
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -452,7 +452,7 @@ class BibleSingleReferences( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None or adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't seem to have a valid (or complete) bookname yet
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -598,6 +598,8 @@ class BibleSingleReferences( BibleReferenceBase ):
                     if char in self.punctuationDict['chapterVerseSeparator'] and temp and temp.isdigit(): # Assume it's a follow on chapter number
                         C = temp
                         status = 3 # Now get the verse number
+                    elif temp and char==' ' and adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't have the complete bookname yet
+                        temp += char
                     elif char in self.punctuationDict['bookChapterSeparator']:
                         bookNameOrAbbreviation = temp
                         BBB = self.getBBBFromText( bookNameOrAbbreviation )
@@ -611,14 +613,22 @@ class BibleSingleReferences( BibleReferenceBase ):
                         logging.error( _("Unexpected {!r} character in Bible reference {!r} when getting book name").format( char, referenceString ) )
                         haveErrors = True
                 continue
-        if status==3: # Got a C but still getting the V hopefully
+        if status==4: # Must have ended with a separator character
+            if temp:
+                logging.error( _("Unable to deduce reference from final {!r} in Bible reference {!r}").format( temp, referenceString ) )
+                haveErrors = True
+            else:
+                logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
+                haveWarnings = True
+                status = 9
+        elif status==3: # Got a C but still getting the V hopefully
             if V: status = 4
         if BBB is not None:
             if status==2 and C and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # Have a single chapter book and what we were given is presumably the verse number
                 V = C
                 C = '1'
                 status = 4
-            if status>=4 and not haveErrors:
+            if status==4 and not haveErrors:
                 saveReference( BBB, C, V, S, refList )
                 status = 9
         self.referenceList = refList
@@ -755,7 +765,7 @@ class BibleReferenceList( BibleReferenceBase ):
             Checks the reference info then saves it as a referenceTuple in the refList.
             """
             fnPrint( DEBUGGING_THIS_MODULE, f"BibleReferences.saveReferenceRange( startTuple={startTuple}, {BBB}, {C}:{V}, S={S}, refList={refList}" )
-            if V and not S and V[-1] in ('a','b','c',): # Remove the suffix
+            if len(V)>1 and not S and V[-1].isalpha() and V[-1] in self.punctuationDict['allowedVerseSuffixes']: # Remove the suffix
                 S = V[-1]; V = V[:-1]
             if V=='3O': V = '30' # Fix a bug in byr-w.usfm
             if not BBB:
@@ -780,11 +790,13 @@ class BibleReferenceList( BibleReferenceBase ):
                 haveErrors = True
                 S = S[0] # Just take the first one
             finishTuple = ( BBB, C, V, S, )
-            if BBB is None or not self._BibleOrganisationalSystem.isValidBCVRef( finishTuple, referenceString ): # No error messages here because it will be caught at expandCVRange below
-                haveErrors = True # Just set this flag
             rangeTuple = (startTuple, finishTuple,)
-            verseList = self._BibleOrganisationalSystem.expandCVRange( startTuple, finishTuple, referenceString, self._BibleOrganisationalSystem )
-            if verseList is not None: totalVerseList.extend( verseList )
+            if BBB is None or startTuple[0] is None or (V and not V.isdigit()):
+                haveErrors = True # Just set this flag
+            else:
+                verseList = self._BibleOrganisationalSystem.expandCVRange( startTuple, finishTuple, referenceString, self._BibleOrganisationalSystem )
+                if verseList is not None: totalVerseList.extend( verseList )
+                else: haveErrors = True # One end is invalid, or the range goes backwards
             if rangeTuple in refList:
                 logging.warning( _("saveReferenceRange: Reference range {} is repeated in Bible reference {!r}").format( rangeTuple, referenceString ) )
                 haveWarnings = True
@@ -830,7 +842,7 @@ class BibleReferenceList( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None or adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't seem to have a valid (or complete) bookname yet
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -929,8 +941,12 @@ class BibleReferenceList( BibleReferenceBase ):
                         status = 3 # Get the next verse number
                     elif char in self.punctuationDict['bookSeparator']:
                         saveReference( BBB, C, V, S, self.referenceList )
-                        BBB, C = None, ''
-                        status = 0
+                        if self.punctuationDict['chapterSeparator'] == self.punctuationDict['bookSeparator']:
+                            temp, spaceCount = '', 0
+                            status = 4 # We don't know what to expect next
+                        else:
+                            bookNameOrAbbreviation, BBB, C = '', None, ''
+                            status = 0
                     elif char in self.punctuationDict['verseBridgeCharacter']:
                         saveStartReference( BBB, C, V, S )
                         status = 8 # Getting verse range
@@ -958,7 +974,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     V, S = '', ''
                 elif V and (char in self.punctuationDict['chapterSeparator'] or char in self.punctuationDict['bookSeparator']):
                     saveReference( BBB, C, V, S, self.referenceList )
-                    V = ''
+                    V, S = '', ''
                     if self.punctuationDict['chapterSeparator'] == self.punctuationDict['bookSeparator']:
                         temp, spaceCount = '', 0
                         status = 4 # We don't know what to expect next
@@ -1022,6 +1038,9 @@ class BibleReferenceList( BibleReferenceBase ):
                         C = temp
                         status = 3 # Now get the verse number
                     elif char in self.punctuationDict['bookChapterSeparator']: # but this is often a space which also occurs in things like 1 Thess
+                        if temp and char==' ' and adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't have the complete bookname yet
+                            temp += char
+                            continue
                         BBB = self.getBBBFromText( temp )
                         if BBB is not None: # Must have found a bookname
                             bookNameOrAbbreviation = temp
@@ -1041,6 +1060,8 @@ class BibleReferenceList( BibleReferenceBase ):
                 if char==' ' and not X:
                     logging.warning( _("Extra space(s) after range bridge at position {} in Bible reference {!r}").format( nnn, referenceString ) )
                     haveWarnings = True
+                elif char==' ' and X and adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't have the complete book name yet
+                    X += char
                 elif char==' ' and BBB and C and X: # Assume it's the space after a book name
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here with", BBB, C, X )
                     BBB2 = self.getBBBFromText( X )
@@ -1125,18 +1146,25 @@ class BibleReferenceList( BibleReferenceBase ):
                         logging.warning( _("Missing space after bridge character at position {} in Bible reference {!r}").format( nnn, referenceString ) )
                         haveWarnings = True
                     C += char
+                elif C and not S and char in self.punctuationDict['allowedVerseSuffixes'] and BBB!='???' and self._BibleOrganisationalSystem.isSingleChapterBook(BBB): # Could be like Jude 5a
+                    S = char
                 elif C and char in self.punctuationDict['chapterVerseSeparator']:
                     status = 8 # Start getting the verse number
                 elif C and char in self.punctuationDict['verseSeparator'] and BBB!='???' and self._BibleOrganisationalSystem.isSingleChapterBook(BBB):
                     V = C
                     C = '1'
                     saveReferenceRange( startReferenceTuple, BBB, C, V, S, self.referenceList )
-                    status, V, S = 8, '', ''
+                    status, V, S = 3, '', '' # Go get a verse number
                 elif C and char in self.punctuationDict['bookSeparator'] and BBB!='???' and self._BibleOrganisationalSystem.isSingleChapterBook(BBB):
                     V = C
                     C = '1'
                     saveReferenceRange( startReferenceTuple, BBB, C, V, S, self.referenceList )
-                    status, BBB, C, V, S = 0, None, '', '', ''
+                    V, S = '', ''
+                    if self.punctuationDict['chapterSeparator'] == self.punctuationDict['bookSeparator']:
+                        temp, spaceCount = '', 0
+                        status = 4 # We don't know what to expect next
+                    else:
+                        status, bookNameOrAbbreviation, BBB, C = 0, '', None, ''
                 elif C and (char in self.punctuationDict['chapterSeparator'] or char in self.punctuationDict['bookSeparator']):
                     saveReferenceRange( startReferenceTuple, BBB, C, V, S, self.referenceList )
                     C, V, S = '', '', ''
@@ -1192,6 +1220,12 @@ class BibleReferenceList( BibleReferenceBase ):
                 status = 9
         elif status==3: # Got a C but still getting the V hopefully
             if V: status = 4
+        elif status==4 and temp: # Ended with a chapter number or a bookname
+            if temp.isdigit() and BBB is not None and not self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # it must be specifying another entire chapter
+                C, V, S = temp, '', ''
+            else:
+                logging.error( _("Unable to deduce reference from final {!r} in Bible reference {!r}").format( temp, referenceString ) )
+                haveErrors = True
         elif status==4: # Must have ended with a separator character
             logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
             haveWarnings = True
@@ -1204,6 +1238,8 @@ class BibleReferenceList( BibleReferenceBase ):
         #    saveReferenceRange( startReferenceTuple, BBB, C, V, S, self.referenceList )
         #    status = 9
         elif status==7 and C: # Getting C range
+            if BBB is not None and BBB!='???' and BBB!=startReferenceTuple[0] and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # what we were given is presumably the verse number
+                C, V = '1', C
             saveReferenceRange( startReferenceTuple, BBB, C, V, S, self.referenceList )
             status = 9
         elif status==8 and V: # Getting V range
@@ -1257,17 +1293,21 @@ class BibleReferenceList( BibleReferenceBase ):
         Assumes that the book names and punctuation are OSIS standard.
         """
         # Set things up for OSIS system e.g., 1Cor.3.5-1Cor.3.9
-        self.punctuationDict = {'booknameCase': 'M', 'booknameLength': 'M', 'spaceAllowedAfterBCS': 'N', 'punctuationAfterBookAbbreviation': '', 'chapterVerseSeparator': '.', 'bookChapterSeparator': '.', 'chapterSeparator': ';', 'bookBridgeCharacter': '-', 'chapterBridgeCharacter': '-', 'verseBridgeCharacter': '-', 'bookSeparator': ';', 'verseSeparator': ',', 'allowedVerseSuffixes': ''}
-        OSISList = BibleOrgSysGlobals.loadedBibleBooksCodes.getAllOSISBooksCodes()
-        #self.getBBBFromText = lambda s: BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation(s)
-        self.getBBBFromText = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation
+        OSISPunctuationDict = {'booknameCase': 'M', 'booknameLength': 'M', 'spaceAllowedAfterBCS': 'N', 'punctuationAfterBookAbbreviation': '', 'chapterVerseSeparator': '.', 'bookChapterSeparator': '.', 'chapterSeparator': ';', 'bookBridgeCharacter': '-', 'chapterBridgeCharacter': '-', 'verseBridgeCharacter': '-', 'bookSeparator': ';', 'verseSeparator': ',', 'allowedVerseSuffixes': ''}
+        def getBBBFromOSISText( OSISText:str ) -> str|None:
+            """ Returns the (first) book code or None if it's not an OSIS book code. """
+            try: BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( OSISText )
+            except KeyError: return None
+            return BBB if isinstance( BBB, str ) else BBB[0]
+        # end of getBBBFromOSISText
+        savedPunctuationDict, savedGetBBBFromText = self.punctuationDict, self.getBBBFromText
+        self.punctuationDict = OSISPunctuationDict
+        self.getBBBFromText = getBBBFromOSISText
 
         # Now do the actual parsing using the standard routine
-        sucessFlag, haveWarnings, resultList = self.parseReferenceString( referenceString )
-
-        # Set things up again how they were
-        self.punctuationDict = self._BibleOrganisationalSystem.getPunctuationDict()
-        self.getBBBFromText = self._BibleOrganisationalSystem.getBBBFromText # This is the function that finds a book by name
+        try: sucessFlag, haveWarnings, resultList = self.parseReferenceString( referenceString )
+        finally: # Set things up again how they were
+            self.punctuationDict, self.getBBBFromText = savedPunctuationDict, savedGetBBBFromText
 
         return sucessFlag, haveWarnings, resultList
     # end of BibleReferenceList.parseOSISReferenceString
-- 
2.43.0


From d352defb21a4cafbfdb79acb1364a8e7f0978147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 31/76] fix: a reloaded book is really re-read, and
 re-processing leaves other books alone

---
 BibleOrgSys/Internals/InternalBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 1ebab07..b60a50c 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -414,6 +414,7 @@ class InternalBible:
         fnPrint( DEBUGGING_THIS_MODULE, f"InternalBible.reloadBook( {BBB} )" )
 
         #if BBB not in self.books and BBB not in self.triedLoadingBook:
+        self.bookNeedsReloading[BBB] = True # so that loadBook() does read it again even if it's already loaded
         try: self.loadBook( BBB ) # Some types of Bibles have this function (so an entire Bible doesn't have to be loaded at startup)
         except AttributeError: logging.info( "No function to load individual Bible book: {}".format( BBB ) ) # Ignore errors
         except FileNotFoundError: logging.info( "Unable to find and load individual Bible book: {}".format( BBB ) ) # Ignore errors
@@ -436,7 +437,7 @@ class InternalBible:
         #except KeyError:
             #if BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("reloadBook has no discoveryResults to delete") )
 
-        if 'discoveryResults' in self.__dict__: # need to update them
+        if 'discoveryResults' in self.__dict__ and BBB in self.books: # need to update them
             # Need to double-check that this doesn't cause any double-ups …XXXXXXXXXXXXXXXXXXXXXX
             self.discoveryResults[BBB] = self.books[BBB]._discover()
             self.__aggregateDiscoveryResults()
@@ -1296,7 +1297,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         """
         fnPrint( DEBUGGING_THIS_MODULE, "InternalBible:__aggregateDiscoveryResults()" )
         aggregateResults = {}
-        if BibleOrgSysGlobals.debugFlag: assert 'ALL' not in self.discoveryResults
+        self.discoveryResults.pop( 'ALL', None ) # in case we're updating earlier results
         for BBB in self.discoveryResults:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "discoveryResults for", BBB, len(self.discoveryResults[BBB]), self.discoveryResults[BBB] )
             isOT = isNT = isDC = False
-- 
2.43.0


From d3a7e05fed29f071f0409bc8bd663110eea4e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 32/76] fix: parallel loading handles blank, absent and already
 loaded books; ESFM honours the reload flag

---
 BibleOrgSys/Formats/ESFMBible.py   | 26 ++++++++++++++++++--------
 BibleOrgSys/Formats/USFM2Bible.py  | 22 +++++++++++++++-------
 BibleOrgSys/Formats/USFMBible.py   | 25 ++++++++++++++++---------
 BibleOrgSys/Formats/USXXMLBible.py | 17 +++++++++++------
 4 files changed, 60 insertions(+), 30 deletions(-)

diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 6435d3a..2b9abd7 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -480,11 +480,12 @@ class ESFMBible( Bible ):
         NOTE: You should ensure that preload() has been called first.
         """
         fnPrint( DEBUGGING_THIS_MODULE, "ESFMBible.loadBook( {}, {} )".format( BBB, filename ) )
-        if BBB in self.books: return # Already loaded
         if BBB in self.dontLoadBook: return # Must be a dictionary that's already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading ESFM {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading ESFM {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
@@ -504,6 +505,7 @@ class ESFMBible( Bible ):
             EBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
             self.stashBook( EBB )
         else: logging.info( "ESFM book {} was completely blank".format( BBB ) )
+        self.bookNeedsReloading[BBB] = False
     # end of ESFMBible.loadBook
 
 
@@ -516,13 +518,16 @@ class ESFMBible( Bible ):
         """
         fnPrint( DEBUGGING_THIS_MODULE, "ESFMBible.loadBookMP( {} )".format( BBB_Filename ) )
         BBB, filename = BBB_Filename
-        assert BBB not in self.books
         if BBB in self.dontLoadBook: return None
+        assert BBB not in self.books or self.bookNeedsReloading.get( BBB )
         self.triedLoadingBook[BBB] = True
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  ESFMBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         EBB = ESFMBibleBook( self, BBB )
         EBB.load( self.possibleFilenameDict[BBB], self.sourceFolder )
+        if not EBB._rawLines:
+            logging.info( "ESFM book {} was completely blank".format( BBB ) )
+            return None
         EBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading ESFM book {}.").format( BBB ) )
         return EBB
@@ -548,11 +553,16 @@ class ESFMBible( Bible ):
                 if BibleOrgSysGlobals.verbosityLevel > 1:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ESFMBible: Loading {} ESFM books using {} processes…".format( len(self.maximumPossibleFilenameTuples), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed." )
+                neededFilenameTuples = [(BBB,filename) for BBB,filename in self.maximumPossibleFilenameTuples
+                            if self.bookNeedsReloading.get( BBB ) or (BBB not in self.books and BBB not in self.triedLoadingBook)]
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
                 with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
-                    assert len(results) == len(self.maximumPossibleFilenameTuples)
-                    for bBook in results:
+                    results = pool.map( self._loadBookMP, neededFilenameTuples ) # have the pool do our loads
+                    assert len(results) == len(neededFilenameTuples)
+                    for (BBB,_filename),bBook in zip( neededFilenameTuples, results, strict=True ):
+                        if BBB in self.dontLoadBook: continue # it's a dictionary
+                        self.triedLoadingBook[BBB] = True # as that was only set in the subprocess
+                        self.bookNeedsReloading[BBB] = False
                         if bBook is not None:
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 8759e54..306ad9c 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -637,12 +637,12 @@ class USFM2Bible( Bible ):
 
         Parameter is a 2-tuple containing BBB and the filename.
 
-        Returns the book info.
+        Returns the book info (or None if the file was blank).
         """
         fnPrint( DEBUGGING_THIS_MODULE, "loadBookMP( {} )".format( BBB_Filename_duple ) )
 
         BBB, filename = BBB_Filename_duple
-        if BBB in self.books:
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return self.books[BBB] # Already loaded
         #if BBB in self.triedLoadingBook:
@@ -654,6 +654,9 @@ class USFM2Bible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFM2BibleBook( self, BBB )
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM2 book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM2 book {}.").format( BBB ) )
         return UBB
@@ -676,13 +679,18 @@ class USFM2Bible( Bible ):
                 if BibleOrgSysGlobals.verbosityLevel > 1:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} USFM2 books using {} processes…").format( len(self.maximumPossibleFilenameTuples), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
+                neededFilenameTuples = [(BBB,filename) for BBB,filename in self.maximumPossibleFilenameTuples
+                            if self.bookNeedsReloading.get( BBB ) or (BBB not in self.books and BBB not in self.triedLoadingBook)]
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
                 with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
-                    assert len(results) == len(self.maximumPossibleFilenameTuples)
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
+                    results = pool.map( self._loadBookMP, neededFilenameTuples ) # have the pool do our loads
+                    assert len(results) == len(neededFilenameTuples)
+                    for (BBB,_filename),bBook in zip( neededFilenameTuples, results, strict=True ):
+                        self.triedLoadingBook[BBB] = True # as that was only set in the subprocess
+                        self.bookNeedsReloading[BBB] = False
+                        if bBook is not None:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 252d910..b1dff82 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -610,7 +610,7 @@ class USFMBible( Bible ):
     # end of USFMBible.loadBook
 
 
-    def _loadBookMP( self, BBB_Filename_duple ) -> USFMBibleBook:
+    def _loadBookMP( self, BBB_Filename_duple ) -> USFMBibleBook|None:
         """
         Multiprocessing version!
         Load the requested book if it's not already loaded (but doesn't save it as that is not safe for multiprocessing)
@@ -618,13 +618,13 @@ class USFMBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         Note that self here might not be the original USFMBibleBook class instance!
 
-        Returns the book info.
+        Returns the book info (or None if the file was blank).
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"USFMBible._loadBookMP( {BBB_Filename_duple} )" )
         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"USFMBible._loadBookMP( {BBB_Filename_duple} )", id(self) )
 
         BBB, filename = BBB_Filename_duple
-        if BBB in self.books:
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return self.books[BBB] # Already loaded
         #if BBB in self.triedLoadingBook:
@@ -636,6 +636,9 @@ class USFMBible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFMBibleBook( self, BBB ) # Ensure that we point back to the original instance
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -660,14 +663,18 @@ class USFMBible( Bible ):
                 if BibleOrgSysGlobals.verbosityLevel > 1:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} USFM books using {} processes…").format( len(self.maximumPossibleFilenameTuples), numProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
+                neededFilenameTuples = [(BBB,filename) for BBB,filename in self.maximumPossibleFilenameTuples
+                            if self.bookNeedsReloading.get( BBB ) or (BBB not in self.books and BBB not in self.triedLoadingBook)]
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
                 with multiprocessing.Pool( processes=numProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
-                    assert len(results) == len(self.maximumPossibleFilenameTuples)
-                    for bBook in results:
-                        #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"Stashing {bBook.BBB} {id(bBook)} with {id(bBook.containerBibleObject)}" )
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
+                    results = pool.map( self._loadBookMP, neededFilenameTuples ) # have the pool do our loads
+                    assert len(results) == len(neededFilenameTuples)
+                    for (BBB,_filename),bBook in zip( neededFilenameTuples, results, strict=True ):
+                        self.triedLoadingBook[BBB] = True # as that was only set in the subprocess
+                        self.bookNeedsReloading[BBB] = False
+                        if bBook is not None:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 3a0f245..adbde14 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -226,7 +226,8 @@ class USXXMLBible( Bible ):
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  USXXMLBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
-        if filename is None: filename = self.possibleFilenameDict[BBB]
+        if filename is None and BBB in self.possibleFilenameDict: filename = self.possibleFilenameDict[BBB]
+        if filename is None: raise FileNotFoundError( "USXXMLBible.loadBook: Unable to find file for {}".format( BBB ) )
         UBB = USXXMLBibleBook( self, BBB )
         UBB.load( filename, self.givenFolderName, self.encoding )
         UBB.validateMarkers()
@@ -251,10 +252,11 @@ class USXXMLBible( Bible ):
         if self.doExtraChecking:
             assert self.preloadDone
 
-        if BBB in self.books: return # Already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading USX {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if not self.bookNeedsReloading.get( BBB ):
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading USX {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  USXXMLBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
@@ -298,7 +300,8 @@ class USXXMLBible( Bible ):
             # Load all the books as quickly as possible
             parameters = []
             for BBB,filename in self.USXFilenamesObject.getConfirmedFilenameTuples():
-                parameters.append( BBB )
+                if self.bookNeedsReloading.get( BBB ) or (BBB not in self.books and BBB not in self.triedLoadingBook):
+                    parameters.append( BBB )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "parameters", parameters )
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Loading {} {} books using {} processes…").format( len(parameters), 'USX', BibleOrgSysGlobals.maxProcesses ) )
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
@@ -312,6 +315,8 @@ class USXXMLBible( Bible ):
                     #self.books[BBB] = UBB
                     UBB.containerBibleObject = self # Because the pickling and unpickling messes this up
                     self.stashBook( UBB )
+                    self.triedLoadingBook[BBB] = True # as that was only set in the subprocess
+                    self.bookNeedsReloading[BBB] = False
                     # Make up our book name dictionaries while we're at it
                     assumedBookNames = UBB.getAssumedBookNames()
                     for assumedBookName in assumedBookNames:
-- 
2.43.0


From 9f7f394dd378c12232798887aaa0a8c15d47c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 33/76] fix: section index leaves no gaps, doesn't overwrite
 sections, and gives proper start/end references

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 51 +++++++++++--------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index 1f93cc6..228c5a7 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1232,21 +1232,18 @@ class InternalBibleBookSectionIndex:
                 assert isinstance( startIx, int ) and isinstance( endIx, int )
                 assert isinstance( reasonMarker, str ) and isinstance( sectionName, str )
 
+            givenStartC = startC
             # Handle any verse bridges
             if '-' in startV:
                 if DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Adjusting startV={startV} verse bridge to {startV[:startV.find('-')]!r}" )
-                startV = startV[:startV.find('-')]
+                startV, startHighV = startV[:startV.find('-')], startV[startV.find('-')+1:]
+            else: startHighV = startV
             if '-' in endV:
                 if DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Adjusting endV={endV} verse bridge to {endV[endV.find('-')+1:]!r}" )
                 endV = endV[endV.find('-')+1:]
 
-            # HAndle \ms1 specifics (v= doesn't occur before this)
-            if reasonMarker=='ms1' and startC==endC:
-                startV = str( int(startV) + 1 )
-                if int(endV) < int(startV): endV = startV
-
             # Do some basic checking here
             if reasonMarker != 'c':
                 if endV == '0':
@@ -1285,11 +1282,14 @@ class InternalBibleBookSectionIndex:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"           Incrementing startV from {startV} to {str( int(startV) + 1 )} with {reasonMarker}" )
                 #startV = str( int(startV) + 1 )
             #else:
-            for entry in self.bookObject._processedLines[startIx:endIx]:
+            for entry in self.bookObject._processedLines[startIx:endIx+1]:
                 marker, text = entry.getMarker(), entry.getCleanText()
                 dPrint( 'Never', DEBUGGING_THIS_MODULE, f"                  {marker}={text}" )
-                if marker == 'v': # e.g., if we encountered section heading but hadn't encountered the verse number yet
-                    if text != startV and '-' not in text: # Don't want to undo verse bridge work from above
+                if marker == 'c': # e.g., if we encountered a section heading at the very end of the previous chapter
+                    startC, startV, startHighV = text, '0', '0'
+                elif marker == 'v': # e.g., if we encountered section heading but hadn't encountered the verse number yet
+                    if '-' in text: text = text[:text.find('-')] # Don't want to undo verse bridge work from above
+                    if text != startV:
                         if DEBUGGING_THIS_MODULE or startV != '0':
                             dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"           Adjusting startV from {startV} to {text}" )
                         startV = text
@@ -1303,15 +1303,23 @@ class InternalBibleBookSectionIndex:
                     lastIndexEntryKey = list(tempIndexData.keys())[-1]
                     lastIndexEntry = tempIndexData[lastIndexEntryKey]
                     lStartC, lStartV, lEndC, lEndV, lStartIx, lEndIx, lReasonMarker, lSectionName, lContext = lastIndexEntry
-                    if lEndC!=startC or lEndV!=startV:
+                    if lEndC!=startC or lEndV!=startHighV: # then this text comes before the verse number
                         logging.warning( f"makeBookSectionIndex: missing section? {self.workName} {self.BBB} section index start={startC}:{startV} lEnd={lEndC}:{lEndV}" )
+                        continue
                     # if self.workName not in ('LEB','ULT','BSB','WEB'): # Why ??? ULT Psa 24:10 to Psa 25:0 , BSB Psa 1:1 ???, WEB SIR 51:0
                     #     assert lEndC==startC and lEndV==startV, f"makeBookSectionIndex: missing section? {self.workName} {self.BBB} section index start={startC}:{startV} lEnd={lEndC}:{lEndV}"
-                    lEndV += 'a'
+                    lEndV = lStartV if lStartV==f'{lEndV}{lStartV[-1]}' else f'{lEndV}a' # It might already start with 2b
                     tempIndexData[(lStartC,lStartV)] = (lStartC, lStartV, lEndC, lEndV, lStartIx, lEndIx,
                                                             lReasonMarker, lSectionName, lContext)
-                    startV += 'b'
+                    startV = f'{startHighV}{chr(ord(lEndV[-1])+1)}'
                     break
+            else: # There's no verse in this section -- handle \ms1 specifics (v= doesn't occur before this)
+                if reasonMarker=='ms1' and startC==givenStartC and startC!='-1':
+                    startV = str( getLeadingInt(startV) + 1 )
+
+            # Make sure that the section doesn't end before it starts, e.g., if it had no verses in it
+            if (int(endC),getLeadingInt(endV)) < (int(startC),getLeadingInt(startV)):
+                endC, endV = startC, startV
 
             # Check that we don't overlap with the last entry
             if tempIndexData:
@@ -1322,11 +1330,11 @@ class InternalBibleBookSectionIndex:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"          Got previous index entry: {lStartC}:{lStartV}–{lEndC}:{lEndV} {lStartIx}–{lEndIx} {lReasonMarker}={lSectionName} {lContext}" )
                 if startC==lEndC and startV==lEndV: # We have overlapping entries
                     if startV.isdigit(): startV = f'{startV}a'
-                    else: halt # Not sure how to handle overlapping entries
+                    # else it must already have a suffix, e.g., a section heading (without any verses) after verse 2b
 
-            # Save this new index entry
-            if DEBUGGING_THIS_MODULE and (startC,startV) in tempIndexData:
-                dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"           About to rewrite {startC}:{startV} in section index" )
+            # Save this new index entry (without overwriting the entry for any other section)
+            while (startC,startV) in tempIndexData: # e.g., consecutive section headings before a verse
+                startV = f'{startV[:-1]}{chr(ord(startV[-1])+1)}' if startV[-1].isalpha() else f'{startV}a'
             tempIndexData[(startC,startV)] = (startC,startV, endC,endV, startIx,endIx, reasonMarker, sectionName, None)
         # end of _saveAnySectionOutstanding
 
@@ -1424,8 +1432,8 @@ class InternalBibleBookSectionIndex:
                         ): # These chapters are often part of a large section
                         dPrint( 'Never', DEBUGGING_THIS_MODULE, f"      HandleC {j:,} {self.BBB} {strC}:{strV} {marker}='{text}' after last={lastC}:{lastV} with start={startC}:{startV}" )
                         endC, endV = lastC, lastV
-                        if lastSectionName:
-                            _saveAnySectionOutstanding( startC, startV, endC, endV, savedJ, j-1, lastMarkerReason, lastSectionName )
+                        if lastSectionName or savedJ < j: # The section name isn't set yet if a chapter had no verse data
+                            _saveAnySectionOutstanding( startC, startV, endC, endV, savedJ, j-1, lastMarkerReason, lastSectionName or f'{bookName} {startC}' )
                             lastMarkerReason = marker
                         savedJ = j
                         startC, startV = strC, strV
@@ -1448,7 +1456,7 @@ class InternalBibleBookSectionIndex:
                     endC, endV = lastC, lastV
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"endC={endC!r} endV={endV!r}" )
                     if self.workName not in ('LEB',):
-                        assert endV != '0', f"{self.workName} {self.BBB} section index {endC=} zero endV"
+                        assert endV != '0' or endC == '-1', f"{self.workName} {self.BBB} section index {endC=} zero endV"
                     if lastSectionName:
                         if j-1 == savedJ \
                         or int(endC) < int(startC):# There's only one entry line
@@ -1459,7 +1467,8 @@ class InternalBibleBookSectionIndex:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"        FIXING2 lastMarkerReason={lastMarkerReason} to {marker}" )
                             #lastMarkerReason = marker
                         _saveAnySectionOutstanding( startC, startV, endC, endV, savedJ, j-1, lastMarkerReason, lastSectionName )
-                    savedJ = j
+                        savedJ = j
+                    # else if the first chapter starts with this heading, then the chapter line(s) belong to this section
                     startC, startV = strC, str(j) if strC=='-1' else strV
                     #if marker == 'ms1': # v= markers don't precede these
                         #startV = str( int(startV) + 1 )
@@ -1487,7 +1496,7 @@ class InternalBibleBookSectionIndex:
                     lastC, lastV = strC, strV
 
             endC, endV = strC, strV
-            _saveAnySectionOutstanding( startC, startV, endC, endV, savedJ, j, lastMarkerReason, lastSectionName )
+            _saveAnySectionOutstanding( startC, startV, endC, endV, savedJ, j, lastMarkerReason, lastSectionName or f'{bookName} {startC}' )
 
         # Now copy the info into our real dict (we don't include startC and startV in the actual entries coz they're the key)
         for key,(startC,startV, endC,endV, startIx,endIx, reasonMarker, sectionName, contextList) in tempIndexData.items():
-- 
2.43.0


From ebaee62233c445f79f3cb69f6ab6d0a91a4e4eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 34/76] fix: findText options, accents, positions and extras

---
 BibleOrgSys/Internals/InternalBible.py | 41 ++++++++++++++++----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index b60a50c..566e7e6 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2518,8 +2518,9 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         if ourFindText.lower().startswith( 'regex:' ):
             optionsDict['regexFlag'] = True
             ourFindText = ourFindText[6:]
-            compiledFindText = re.compile( ourFindText )
         if optionsDict['ignoreDiacriticsFlag']: ourFindText = BibleOrgSysGlobals.removeAccents( ourFindText )
+        if optionsDict['regexFlag']: # Don't want to lowercase things like \S and \W in the regex
+            compiledFindText = re.compile( ourFindText, re.IGNORECASE if optionsDict['caselessFlag'] else 0 )
         if optionsDict['caselessFlag']: ourFindText = ourFindText.lower()
         searchLen = len( ourFindText )
         if BibleOrgSysGlobals.debugFlag: assert searchLen
@@ -2535,12 +2536,12 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                 #self.loadBookIfNecessary( BBB )
                 resultSummaryDict['searchedBookList'].append( BBB )
                 C, V = '-1', '-1' # So first/id line starts at -1:0
-                marker = None
+                marker = lastParagraphMarker = None
                 for lineEntry in bookObject:
                     if marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                         lastParagraphMarker = marker
 
-                    marker, cleanText = lineEntry.getMarker(), lineEntry.getCleanText()
+                    marker, cleanText = lineEntry.getMarker(), lineEntry.getCleanText() or '' # Text is None for added lines like list
                     if marker[0] == '¬': continue # we'll always ignore these added lines
                     if marker in ('headers','intro','chapters'): continue # we'll always ignore these added lines
                     if marker == 'c': C, V = cleanText, '0'
@@ -2559,22 +2560,19 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  findText: will search {} chapter {}").format( BBB, C ) )
 
                         # Get our text to search
-                        origTextToBeSearched = lineEntry.getFullText() if optionsDict['includeExtrasFlag'] else cleanText
-                        if C != '0' and not optionsDict['includeMainTextFlag']:
+                        origTextToBeSearched = ( lineEntry.getFullText() or '' ) if optionsDict['includeExtrasFlag'] else cleanText
+                        if C != '0' and not optionsDict['includeMainTextFlag'] and not ourMarkerList:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got {!r} but  don't include main text".format( origTextToBeSearched ) )
                             if marker in ('v~','p~') or marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                                 origTextToBeSearched = ''
-                                if origTextToBeSearched != cleanText: # we must have extras -- we need to remove the main text
-                                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Got extras" )
-                                    assert optionsDict['includeExtrasFlag']
-                                    origTextToBeSearched = ''
-                                    for extra in lineEntry.getExtras():
+                                if optionsDict['includeExtrasFlag']: # we need to remove the main text
+                                    for extra in lineEntry.getExtras() or ():
                                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "extra", extra )
                                         extraStart = ''
                                         if optionsDict['includeMarkerTextFlag']:
                                             eTypeIndex = BOS_EXTRA_TYPES.index( extra.getType() )
                                             extraStart = '\\{} '.format( BOS_EXTRA_MARKERS[eTypeIndex] )
-                                        origTextToBeSearched += ' ' if origTextToBeSearched else '' + extraStart + extra.getText()
+                                        origTextToBeSearched += ( ' ' if origTextToBeSearched else '' ) + extraStart + extra.getText()
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Now", repr(origTextToBeSearched) )
                         if optionsDict['includeMarkerTextFlag']:
                             origTextToBeSearched = '\\{} {}'.format( marker, origTextToBeSearched )
@@ -2583,10 +2581,20 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                         if optionsDict['ignoreDiacriticsFlag']: textToBeSearched = BibleOrgSysGlobals.removeAccents( textToBeSearched )
                         if optionsDict['caselessFlag']: textToBeSearched = textToBeSearched.lower()
                         textLen = len( textToBeSearched )
+                        # Places in the adjusted text need to be mapped back if its length has changed, e.g., by removing the diacritics from æ
+                        origIndexes = range( textLen+1 )
+                        if textLen != len( origTextToBeSearched ):
+                            origIndexes = []
+                            for charIx,char in enumerate( origTextToBeSearched ):
+                                if optionsDict['ignoreDiacriticsFlag']: char = BibleOrgSysGlobals.removeAccents( char )
+                                if optionsDict['caselessFlag']: char = char.lower()
+                                origIndexes += [charIx] * len( char )
+                            origIndexes.append( len( origTextToBeSearched ) )
 
                         if optionsDict['regexFlag']: # ignores wordMode flag
                             for match in compiledFindText.finditer( textToBeSearched ):
                                 ix, ixAfter = match.span()
+                                ix, ixAfter = origIndexes[ix], origIndexes[ixAfter-1]+1 if ixAfter>ix else origIndexes[ix]
 
                                 if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                                     contextBefore = origTextToBeSearched[max(0,ix-optionsDict['contextLength']):ix]
@@ -2619,18 +2627,19 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                                 elif optionsDict['wordMode'] == 'EndsLine':
                                     if ixAfter<textLen: continue
 
+                                origIx, origIxAfter = origIndexes[ix], origIndexes[ixAfter-1]+1
                                 if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
-                                    contextBefore = origTextToBeSearched[max(0,ix-optionsDict['contextLength']):ix]
-                                    contextAfter = origTextToBeSearched[ixAfter:ixAfter+optionsDict['contextLength']]
+                                    contextBefore = origTextToBeSearched[max(0,origIx-optionsDict['contextLength']):origIx]
+                                    contextAfter = origTextToBeSearched[origIxAfter:origIxAfter+optionsDict['contextLength']]
                                 else: contextBefore = contextAfter = None
 
                                 ixHyphen = V.find( '-' )
                                 if ixHyphen != -1: V = V[:ixHyphen] # Remove verse bridges
                                 #adjMarker = None if marker=='v~' else marker # most markers are v~ -- ignore them (for space)
-                                resultTuple = (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore,
-                                                                    origTextToBeSearched[ix:ixAfter], contextAfter, ) \
+                                resultTuple = (SimpleVerseKey(BBB, C, V, origIx), lineEntry.getOriginalMarker(), contextBefore,
+                                                                    origTextToBeSearched[origIx:origIxAfter], contextAfter, ) \
                                             if optionsDict['caselessFlag'] else \
-                                                (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
+                                                (SimpleVerseKey(BBB, C, V, origIx), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
                                 resultList.append( resultTuple )
                                 if BBB not in resultSummaryDict['foundBookList']: resultSummaryDict['foundBookList'].append( BBB )
 
-- 
2.43.0


From 83bc6646a458861c56f62cc6e6f7458423582edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 35/76] fix: pickled Bibles: loading all books, data levels,
 names, left-over files and finding them

---
 BibleOrgSys/Formats/PickledBible.py    | 53 ++++++++++++++++++--------
 BibleOrgSys/Internals/InternalBible.py |  4 +-
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 7caa927..37bcc9b 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -84,6 +84,21 @@ VERSION_FILENAME = 'BibleVersion.pickle' # Contains the object version number
 INFO_FILENAME = 'BibleInfo.pickle' # Contains the Bible metadata
 BOOK_FILENAME = '{}.pickle' # Each book is stored in a separate BBB.pickle file
 
+# The only types that we expect to find (dataLevels 2 and 3 also save numbers and containers)
+ALLOWED_ATTRIBUTE_TYPES = (str,bool,int,float,list,tuple,set,dict,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList)
+
+
+
+def _getFoundProjects( folderpath, foundFilenames:list ) -> list:
+    """
+    Given the pickled Bible filenames found in a folder,
+        return a list of the sources for the Bibles there.
+
+    Note that when a Bible was saved in a folder, its zip file is a copy of that same Bible.
+    """
+    if VERSION_FILENAME in foundFilenames: return [folderpath]
+    return [os.path.join( folderpath, filename ) for filename in sorted( foundFilenames )]
+# end of PickledBible._getFoundProjects
 
 
 def PickledBibleFileCheck( givenPathname:Path, strictCheck:bool=True, autoLoad:bool=False, autoLoadBooks:bool=False ) -> int:
@@ -134,22 +149,22 @@ def PickledBibleFileCheck( givenPathname:Path, strictCheck:bool=True, autoLoad:b
             foundFolders.append( something )
         elif os.path.isfile( somepath ):
             #somethingUpper = something.upper()
-            if something in (ZIPPED_PICKLE_FILENAME_END, VERSION_FILENAME):
+            if something == VERSION_FILENAME or something.endswith( ZIPPED_PICKLE_FILENAME_END ):
                 foundFiles.append( something )
 
     # See if there's an PickledBible project here in this given folder
-    numFound = len( foundFiles )
+    foundProjects = _getFoundProjects( givenFolderName, foundFiles )
+    numFound = len( foundProjects )
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, _("PickledBibleFileCheck got {} in {}").format( numFound, givenFolderName ) )
         if numFound == 1 and (autoLoad or autoLoadBooks):
-            pB = PickledBible( givenFolderName )
+            pB = PickledBible( foundProjects[0] )
             if autoLoad or autoLoadBooks: pB.preload() # Load the BibleInfo file
             if autoLoadBooks: pB.loadBooks() # Load and process the book files
             return pB
         return numFound
 
     # Look one level down
-    numFound = 0
     foundProjects = []
     for thisFolderName in sorted( foundFolders ):
         tryFolderName = os.path.join( givenFolderName, thisFolderName+'/' )
@@ -164,12 +179,13 @@ def PickledBibleFileCheck( givenPathname:Path, strictCheck:bool=True, autoLoad:b
                 if os.path.isdir( somepath ): foundSubfolders.append( something )
                 elif os.path.isfile( somepath ):
                     #somethingUpper = something.upper()
-                    if something in (ZIPPED_PICKLE_FILENAME_END, VERSION_FILENAME):
+                    if something == VERSION_FILENAME or something.endswith( ZIPPED_PICKLE_FILENAME_END ):
                         foundSubfiles.append( something )
-                        numFound += 1
         except PermissionError: pass # can't read folder, e.g., system folder
+        foundProjects += _getFoundProjects( tryFolderName, foundSubfiles )
 
     # See if there's an Pickle Bible here in this folder
+    numFound = len( foundProjects )
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, _("PickledBibleFileCheck foundProjects {} {}").format( numFound, foundProjects ) )
         if numFound == 1 and (autoLoad or autoLoadBooks):
@@ -233,10 +249,11 @@ def createPickledBible( BibleObject:Bible, outputFolder=None, metadataDict:dict[
                         typeAsString = str(attributeType)
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here4: typeAsString =", repr(typeAsString) )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'attrib', attributeName, typeAsString )
-                        if '__' not in attributeName and 'method' not in typeAsString:
+                        if '__' not in attributeName and 'method' not in typeAsString \
+                        and attributeName != 'containerBibleObject': # as that would save the entire Bible in each book file
                             if (dataLevel==1 and attributeName in ('sourceFolder','sourceFilename','sourceFilepath',
                                                         '_processedFlag','_processedLines',
-                                                        '_indexedFlag','_CVIndex')) \
+                                                        '_indexedCVFlag','_CVIndex')) \
                             or (dataLevel==2 and attributeName not in ('errorDictionary','containerBibleObject',
                                                         'checkUSFMSequencesFlag')) \
                             or dataLevel not in (1,2):
@@ -267,8 +284,11 @@ def createPickledBible( BibleObject:Bible, outputFolder=None, metadataDict:dict[
                 typeAsString = str(attributeType)
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here4: typeAsString =", repr(typeAsString) )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'attrib', attributeName, typeAsString )
-                if '__' not in attributeName and 'method' not in typeAsString:
-                    if attributeName == 'genericBOS': # Just save the name, not the BOS
+                if '__' not in attributeName and 'method' not in typeAsString \
+                and attributeName not in ('books','preloadDone','loadedAllBooks','triedLoadingBook','bookNeedsReloading',
+                                            'doneSetupGeneric','genericBRL') \
+                and not attributeName.startswith( 'pickle' ): # These only describe what was in memory or where that came from
+                    if attributeName == 'genericBOS' and not isinstance( attributeValue, str ): # Just save the name, not the BOS
                         attributeValue = BibleObject.genericBOS.getOrganisationalSystemName()
                     if (dataLevel==1 and attributeName in ( 'sourceFolder','sourceFilename','sourceFilepath',
                                                 'abbreviation','givenName','shortName','name',
@@ -357,7 +377,7 @@ def _loadObjectAttributes( pickleFileObject, BibleObject ):
         attributeValue = pickle.load( pickleFileObject )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Attribute {attributeName}='{attributeValue}' {type(attributeValue)}" )
         assert attributeValue is None \
-            or isinstance( attributeValue, (str,bool,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
+            or isinstance( attributeValue, ALLOWED_ATTRIBUTE_TYPES ) # Leave these asserts enabled for security
         if attributeName == 'objectNameString': attributeName = 'originalObjectNameString'
         elif attributeName == 'objectTypeString': attributeName = 'originalObjectTypeString'
         # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "attribute: {} = {}".format( attributeName, attributeValue if attributeName!='discoveryResults' else '…' ) )
@@ -385,7 +405,7 @@ def _getObjectAttributesDict( pickleFileObject, selected=None ):
         attributeValue = pickle.load( pickleFileObject )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Attribute {}={}".format( attributeName, attributeValue ) )
         assert attributeValue is None \
-            or isinstance( attributeValue, (str,bool,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
+            or isinstance( attributeValue, ALLOWED_ATTRIBUTE_TYPES ) # Leave these asserts enabled for security
         if attributeName == 'objectNameString': attributeName = 'originalObjectNameString'
         elif attributeName == 'objectTypeString': attributeName = 'originalObjectTypeString'
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "attribute: {} = {}".format( attributeName, attributeValue if attributeName!='discoveryResults' else '…' ) )
@@ -625,6 +645,7 @@ class PickledBible( Bible ):
             if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.verbosityLevel > 2:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  Loaded {} PickledBible attributes").format( loadedCount ) )
 
+            self.availableBBBs = set( self.pickleVersionData['bookList'] )
             for BBB in self.pickleVersionData['bookList']:
                 if BBB in self.triedLoadingBook:
                     del self.triedLoadingBook[BBB] # So we can load them (again) from the pickle files
@@ -646,6 +667,8 @@ class PickledBible( Bible ):
         fnPrint( DEBUGGING_THIS_MODULE, f"PickledBible._loadBookEssentials( {BBB} )" )
 
         self.triedLoadingBook[BBB] = True
+        if BBB not in self.pickleVersionData['bookList']: # Don't load a left-over file that's not from this Bible
+            raise FileNotFoundError( f"PickledBible: no {BBB} book was saved in {self.pickleSourceFolder}" )
 
         dPrint( 'Info', DEBUGGING_THIS_MODULE, _("  PickledBible: Loading {} from {} from {}…").format( BBB, self.name, self.pickleSourceFolder ) )
         #if 0: # whole book object
@@ -656,7 +679,7 @@ class PickledBible( Bible ):
             #else: # not zipped
                 #bookObject = BibleOrgSysGlobals.unpickleObject( BOOK_FILENAME.format( BBB ), self.pickleSourceFolder )
         #else: # with attribute names and values
-        bookObject = InternalBibleBook( 'NoneYet—StillUnpickling', BBB )
+        bookObject = InternalBibleBook( self, BBB )
         bookObject.objectNameString = 'Pickled Bible book object'
         bookObject.objectTypeString = 'PickledBibleBook'
         if self.pickleIsZipped:
@@ -691,7 +714,7 @@ class PickledBible( Bible ):
                 logging.warning( "We had already tried loading Pickle {} for {}".format( BBB, self.name ) )
                 return # We've already attempted to load this book
 
-        self.books[BBB] = self._loadBookEssentials( BBB )
+        self.stashBook( self._loadBookEssentials( BBB ) )
     # end of PickledBible.loadBook
 
 
@@ -726,7 +749,7 @@ class PickledBible( Bible ):
             logging.critical( "PickledBible.loadBooks() failed" )
             return
 
-        if len( self.pickleVersionData['bookList'] ) > 2:
+        if len( self.pickleVersionData['bookList'] ) > 0:
             if BibleOrgSysGlobals.maxProcesses > 1 \
             and not BibleOrgSysGlobals.alreadyMultiprocessing: # Get our subprocesses ready and waiting for work
                 # Load all the books as quickly as possible
diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 566e7e6..ff665f7 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1003,7 +1003,9 @@ class InternalBible:
         
         try: del self.XMLTree # No need to hold onto this XML source code
         except AttributeError: pass
-        try: del self.genericBOS # This is unpicklable for some reason
+        try:
+            del self.genericBOS # This is unpicklable for some reason
+            self.doneSetupGeneric = False # So that it'll be made again when BibleWriter next needs it
         except AttributeError: pass
             # CRITICAL: BibleOrgSysGlobals: Unexpected error in pickleObject: <class '_pickle.PicklingError'> Can't pickle <class 'BibleOrgSys.Reference.BibleBooksNames.BibleBooksNamesSystems'>: it's not the same object as BibleOrgSys.Reference.BibleBooksNames.BibleBooksNamesSystems
             # CRITICAL: Can't pickle badAttribute='books' when pickling <class 'dict'> from <class 'BibleOrgSys.Formats.ZefaniaXMLBible.ZefaniaXMLBible'>
-- 
2.43.0


From b306cda67fba564d904a661463cb16c16ef0bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 36/76] fix: a cl field before the first chapter is exported to
 USFM and ESFM as cl

---
 BibleOrgSys/BibleWriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b094df8..8070d7e 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -688,6 +688,7 @@ class BibleWriter( InternalBible ):
                 if pseudoMarker in ('c#','vp#',):
                     ignoredMarkers.add( pseudoMarker )
                     continue
+                if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # Our adjusted marker for a cl field before the first chapter
                 #fullText = cleanText # (temp)
                 #dPrint( 'Never', DEBUGGING_THIS_MODULE, "toUSFM: pseudoMarker = {!r} fullText = {!r}".format( pseudoMarker, fullText ) )
                 if removeVerseBridges and pseudoMarker in ('v','c',):
@@ -861,6 +862,7 @@ class BibleWriter( InternalBible ):
                     bookUSFM += '\n\\usfm 3.0'
                     addedUSFMversionField = True
 
+                if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # Our adjusted marker for a cl field before the first chapter
                 #fullText = cleanText # (temp)
                 #dPrint( 'Never', DEBUGGING_THIS_MODULE, "toUSFM: pseudoMarker = {!r} fullText = {!r}".format( pseudoMarker, fullText ) )
                 if removeVerseBridges and pseudoMarker in ('v','c',):
@@ -1038,6 +1040,7 @@ class BibleWriter( InternalBible ):
                             ignoredMarkers.add( pseudoMarker )
                             continue
 
+                        if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # Our adjusted marker for a cl field before the first chapter
                         #value = cleanText # (temp)
                         #dPrint( 'Never', DEBUGGING_THIS_MODULE, "toESFM: pseudoMarker = {!r} value = {!r}".format( pseudoMarker, value ) )
                         # if 0 and removeVerseBridges and pseudoMarker in ('v','c',):
-- 
2.43.0


From 776d4cb11967865f468e7d02777e33e744552bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 37/76] fix: verse bridges at the end of a book are expanded
 like others in USFM exports

---
 BibleOrgSys/BibleWriter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 8070d7e..b6c8645 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -738,6 +738,9 @@ class BibleWriter( InternalBible ):
                     if not fullText: bookUSFM += '\\{}'.format( pseudoMarker )
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
+            if vBridgeStartInt and vBridgeEndInt: # The book ended with a verse bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
 
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
@@ -912,6 +915,9 @@ class BibleWriter( InternalBible ):
                     if not fullText: bookUSFM += '\\{}'.format( pseudoMarker )
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
+            if vBridgeStartInt and vBridgeEndInt: # The book ended with a verse bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
 
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
-- 
2.43.0


From d2a0bd9b1fea386af8f5e4e5f18cfb2ac8b77717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 38/76] fix: pseudo-USFM listing failed on a rem line after a
 bridged verse

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b6c8645..f5a47cc 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -586,7 +586,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C == '-1': V = str( int(V) + 1 ) # Inside a chapter, V might be something like 2-3 or 4a
                     if marker == 'c': C, V = adjText, '0'
                     elif marker == 'v': V = adjText
 
-- 
2.43.0


From 3d3f39da13010b10de9adf5c2d018b43301bef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 39/76] fix: original text of the text after a chapter number
 no longer repeats the number

---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 6d59a29..2a2ff75 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2412,6 +2412,7 @@ class InternalBibleBook:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook._processLine: Something on c line", self.BBB, C, V, repr(text), repr(cBits[1]) )
                         self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, C, C, None, C) ) # Write the chapter number as a separate line
                         adjustedMarker, text = 'c~', cBits[1]
+                        originalText = cBits[1].lstrip() # The chapter number has its own entry already
             elif originalMarker=='cp' and text:
                 V = '0'
                 # Assertion is not correct in RSV52 ESG -- has cp in between verses
-- 
2.43.0


From e706ece81ad91f2657bc90c4710ec24fcc22a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 40/76] fix: USX export lost cl before the first chapter and
 failed on rem inside chapters

---
 BibleOrgSys/Formats/USXXMLBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index adbde14..9754e1c 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -937,12 +937,13 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     haveOpenPara = False
                 xw.writeLineOpenSelfclose( 'chapter', [('eid',f'{USXAbbrev} {C}')] )
                 continue
-            elif '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker in ('v=','cl¤'):
+            elif '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                 continue # Just ignore added markers — not needed here
+            if marker == 'cl¤': marker = 'cl' # Our adjusted marker for a cl field before the first chapter
             if marker in USFM_PRECHAPTER_MARKERS:
                 if self.doExtraChecking:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C == '-1': V = str( int(V) + 1 ) # Don't touch the verse number inside a chapter
             markerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
             # if BBB=='RUT': vPrint( 'Quiet', DEBUGGING_THIS_MODULE,
             #     f"{BBB} {C}:{V} {marker}({originalMarker})='{text}'{'+extras' if extras else ''} mCT={getMarkerContentType} hOP={haveOpenPara} pJO={paraJustOpened} hOV={haveOpenVerse} nCV={needToCloseVerse}" )
-- 
2.43.0


From 2d94ab20e67322fe39137d9e2cb85eef6a038d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 41/76] fix: USX export put the text of po, cls, lh and other
 paragraphs outside of them

---
 BibleOrgSys/Formats/USXXMLBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 9754e1c..a063d2a 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -1016,7 +1016,8 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 paraJustOpened = False
             # elif markerContentType == 'S': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
             elif (markerContentType == 'S' # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
-            or marker == 'nb'): # nb -- treated the same in USX 3
+            or marker == 'nb' # nb -- treated the same in USX 3
+            or (marker in BibleOrgSysGlobals.USFMParagraphMarkers and marker not in ('b','ib'))): # The text is in a following p~ entry so must keep the paragraph open for it
                 if haveOpenPara:
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                     xw.writeLineClose( 'para' )
-- 
2.43.0


From ae47807def1049324a84c65bb04149c506473fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 42/76] fix: USX export left the last paragraph open if no
 chapter end followed

---
 BibleOrgSys/Formats/USXXMLBible.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index a063d2a..e4e0918 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -1055,7 +1055,10 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     haveOpenPara = False
                 xw.writeLineOpenClose( 'para', _handleInternalTextMarkersForUSX(adjText), ('style',originalMarker if originalMarker else marker), noTextCheck=True ) # no checks coz might already have embedded XML
         # assert not haveOpenPara, f"toUSXXML.writeUSXBook ended with haveOpenPara at end of {BBB}"
-        if haveOpenPara: logging.critical( f"toUSXXML.writeUSXBook ended with haveOpenPara at end of {BBB} -- output file may not be valid XML!" )
+        if haveOpenPara: # Happens if there's no chapter or if the last paragraph follows a major section heading at the end of the chapter
+            xw.removeFinalNewline( suppressFollowingIndent=True )
+            xw.writeLineClose( 'para' )
+            haveOpenPara = False
         xw.writeLineClose( 'usx' )
         xw.removeFinalNewline()
         xw.close( writeFinalNL=False ) # Try to imitate Paratext output as closely as possible
-- 
2.43.0


From c3cd169bdfa611197cc5b5ed08ec1dc3a6ef6442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 43/76] fix: XML escapes in texts with notes and in notes in
 the USX export

---
 BibleOrgSys/Formats/USXXMLBible.py  |  4 ++--
 BibleOrgSys/InputOutput/MLWriter.py | 23 +++++++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index e4e0918..3b3cf2b 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -848,10 +848,10 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     #adjText = checkText( extraText, checkLeftovers=False ) # do any general character formatting
                     #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_processXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
                     if extraType == 'fn':
-                        extra = _processFootnote( extraText )
+                        extra = _processFootnote( MLWriter.escape_characters( extraText ) )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                     elif extraType == 'xr':
-                        extra = _processXRef( extraText )
+                        extra = _processXRef( MLWriter.escape_characters( extraText ) )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "xr got", extra )
                     elif extraType == 'fig':
                         logger.critical( "USXXML figure not handled yet" )
diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index 4bbfaed..7344297 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -47,7 +47,7 @@ if __name__ == '__main__':
         sys.path.insert( 0, aboveAboveFolderpath )
 from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
-from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleExtraList
+from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleExtra, InternalBibleExtraList
 
 
 LAST_MODIFIED_DATE = '2022-11-22' # by RJH
@@ -329,15 +329,22 @@ class MLWriter:
         escape_count = sum([rawTextString.count(c) for c in ESCAPE_MAP])
         if escape_count == 0:
             return MLWriter.escape_characters( rawTextString, checkFirst ), extras
-        else: dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"{escape_count=} {[rawTextString.count(c) for c in ESCAPE_MAP]} {rawTextString=}")
 
         # Ok, we've got chars needing to be escaped and we have extras so need to work through char by char
-        char_strings, adjExtras = [], InternalBibleExtraList()
-        for ix,char in enumerate(rawTextString):
-            if char in ESCAPE_MAP:
-                dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{ix=} {char=}")
-        dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{rawTextString=} {char_strings=} {extras=} {adjExtras=}")
-        raise Exception("MLWriter: escape characters with extras NOT WRITTEN YET")
+        char_strings:list[str] = []
+        newIndexes:list[int] = [] # The index into the escaped string for each character of the raw string
+        newLength = 0
+        for char in rawTextString:
+            newIndexes.append( newLength )
+            char_string = ESCAPE_MAP[char] if char in ESCAPE_MAP else char
+            char_strings.append( char_string )
+            newLength += len( char_string )
+        adjExtras = InternalBibleExtraList()
+        for extra in extras:
+            extraIndex = extra.getIndex()
+            adjIndex = newIndexes[extraIndex] if 0<=extraIndex<len(newIndexes) \
+                        else extraIndex + newLength - len(rawTextString)
+            adjExtras.append( InternalBibleExtra( extra.getType(), adjIndex, extra.getText(), extra.getCleanText(), 'MLWriter' ) )
         return ''.join(char_strings), adjExtras
     # end of MLWriter.escape_characters_with_extras static function
 
-- 
2.43.0


From 156b5fb08ee7e71c40e431172e14650c7e7db8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 44/76] fix: USX loader took the layout of the XML into the
 texts

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 1fa408e..564730f 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -86,6 +86,16 @@ class USXXMLBibleBook( BibleBook ):
         loadErrors:list[str] = []
 
 
+        def removeFinalLayout( someText:str ) -> str:
+            """
+            Removes any newline (and following indent) at the end of the text,
+                because that's only there to lay out the next XML element.
+            """
+            newlineIndex = someText.find( '\n', len(someText.rstrip( ' \t\n' )) )
+            return someText if newlineIndex==-1 else someText[:newlineIndex]
+        # end of load.removeFinalLayout
+
+
         def loadChapterNumberField( chapterNumberElement, chapterNumberLocation:str ) -> None:
             """
             """
@@ -201,6 +211,7 @@ class USXXMLBibleBook( BibleBook ):
                 if verseNumberElement.tail:
                     vText = verseNumberElement.tail
                     if vText[0]=='\n': vText = vText.lstrip() # Paratext puts cross references on a new line
+                    vText = removeFinalLayout( vText )
                     if vText:
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(vText) )
                         self.appendToLastLine( vText )
@@ -278,7 +289,7 @@ class USXXMLBibleBook( BibleBook ):
             if charElement.tail:
                 charTail = charElement.tail
                 if charTail[0]=='\n': charTail = charTail.lstrip() # Paratext puts footnote parts on new lines
-                if charTail and charTail[-1] in ('\n','\t'): charTail = charTail.rstrip()
+                charTail = removeFinalLayout( charTail )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "charLine", repr(charLine), "charStyle", repr(charStyle), "charTail", repr(charTail) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert '\n' not in charLine
@@ -366,7 +377,7 @@ class USXXMLBibleBook( BibleBook ):
                 #if '\n' in noteElement.tail: halt
                 noteTail = noteElement.tail
                 if noteTail[0] in ('\n','\t'): noteTail = noteTail.lstrip() # Paratext puts multiple cross-references on new lines
-                if noteTail and noteTail[-1] in ('\n','\t'): noteTail = noteTail.rstrip()
+                noteTail = removeFinalLayout( noteTail )
                 noteField += noteTail
 
             vPrint( 'Never', DEBUGGING_THIS_MODULE, "  loadNoteField returning noteField: {!r}".format( noteField ) )
@@ -403,7 +414,8 @@ class USXXMLBibleBook( BibleBook ):
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
 
             # Now process the paragraph text (or write a paragraph marker anyway)
-            paragraphText = paragraphXML.text if paragraphXML.text and paragraphXML.text.strip() else ''
+            paragraphText = removeFinalLayout( paragraphXML.text ) if paragraphXML.text and paragraphXML.text.strip() else ''
+            if paragraphText.startswith( '\n' ): paragraphText = paragraphText.lstrip() # The newline and indent are only the layout of the XML
             if version is None: paragraphText = paragraphText.rstrip() # Don't need to strip extra spaces in v2
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USXXMLBibleBook.load newLine: {!r} {!r}".format( paragraphStyle, paragraphText ) )
             self.addLine( paragraphStyle, paragraphText )
-- 
2.43.0


From 7f549f7e3a6c0d2e858cb7e37c8e5c17567c9a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 45/76] fix: USX loader lost text after a chapter number

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 564730f..6675087 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -104,7 +104,6 @@ class USXXMLBibleBook( BibleBook ):
             assert chapterNumberElement.tag == 'chapter'
 
             BibleOrgSysGlobals.checkXMLNoText( chapterNumberElement, chapterNumberLocation )
-            BibleOrgSysGlobals.checkXMLNoTail( chapterNumberElement, chapterNumberLocation )
             BibleOrgSysGlobals.checkXMLNoSubelements( chapterNumberElement, chapterNumberLocation )
 
             if ( version is None or version.startswith('3.') ) \
@@ -142,7 +141,8 @@ class USXXMLBibleBook( BibleBook ):
                     logging.warning( _("Unexpected style attribute ({}) in {}").format( chapterStyle, chapterNumberLocation ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                 #if pubNumber: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.BBB, C, repr(pubNumber) ); halt
-                self.addLine( 'c', C )
+                chapterTail = '' if BibleOrgSysGlobals.isBlank( chapterNumberElement.tail ) else removeFinalLayout( chapterNumberElement.tail ).lstrip()
+                self.addLine( 'c', f'{C} {chapterTail}' if chapterTail else C ) # Don't lose any text that followed the chapter number
                 if pubNumber: self.addLine( 'cp', pubNumber )
         # end of load.loadChapterNumberField
 
-- 
2.43.0


From d1719bdf72ec98d60b3dd9bed0fb6f7148b727d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 46/76] fix: USX loader lost character fields and notes outside
 of paragraphs

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 6675087..5304725 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -593,6 +593,9 @@ class USXXMLBibleBook( BibleBook ):
                     loadChapterNumberField( element, location )
                 elif element.tag == 'verse': # milestone (not a container in USX)
                     loadVerseNumberField( element, location ) # Not in a paragraph!
+                elif element.tag in ('char','note'): # After a chapter or verse milestone that's not in a paragraph
+                    fieldText = loadCharField( element, location ) if element.tag=='char' else loadNoteField( element, location )
+                    if fieldText: self.appendToLastLine( fieldText )
                 elif element.tag == 'para':
                     if C == '-1': V = str( int(V) + 1 ) # first/id line will be -1:0
                     BibleOrgSysGlobals.checkXMLNoTail( element, location )
-- 
2.43.0


From 000aa443d4a7a3ad3af70d8c5af053162b97a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 47/76] fix: USX loader marks nested character fields with a
 plus sign

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 5304725..6f59f3a 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -218,11 +218,12 @@ class USXXMLBibleBook( BibleBook ):
         # end of load.loadVerseNumberField
 
 
-        def loadCharField( charElement, charLocation:str ) -> str:
+        def loadCharField( charElement, charLocation:str, nested:bool=False ) -> str:
             """
             Load a formatted / char field from the USX XML.
 
             Note that this can contain other nested fields.
+                (The markers of those ones have a plus sign in USFM, e.g., \\+nd.)
 
             Results the result as a string (to be appended to whatever came before)
             """
@@ -242,7 +243,9 @@ class USXXMLBibleBook( BibleBook ):
                 else:
                     logging.error( _("QU52 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-            charLine = f"\\{charStyle} {'' if BibleOrgSysGlobals.isBlank( charElement.text) else charElement.text}"
+            plus = '+' if nested else ''
+            charLine = f"\\{plus}{charStyle} {'' if BibleOrgSysGlobals.isBlank( charElement.text) else charElement.text}"
+            charLine = removeFinalLayout( charLine )
             assert '\n' not in charLine
 
             # Now process the subelements -- chars are one of the few multiply embedded fields in USX
@@ -251,7 +254,7 @@ class USXXMLBibleBook( BibleBook ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} {}'.format( self.BBB, C, V, charElement.tag ) )
                 if subelement.tag == 'char': # milestone (not a container)
                     # print( f"RECURSIVE {sublocation=} {subelement=}" )
-                    charLine += loadCharField( subelement, sublocation ) # recursive call
+                    charLine += loadCharField( subelement, sublocation, nested=True ) # recursive call
                 elif subelement.tag == 'ref':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ref", BibleOrgSysGlobals.elementStr( subelement ) )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation )
@@ -282,7 +285,7 @@ class USXXMLBibleBook( BibleBook ):
                     assert '\t' not in charLine
             if charClosed != False: # None or True
                 # assert not charLine.endswith( ' ' )
-                charLine += '\\{}*'.format( charStyle )
+                charLine += f'\\{plus}{charStyle}*'
             # A character field must be added to the previous field
             #if charElement.tail is not None: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " tail2", repr(charElement.tail) )
             charTail = ''
-- 
2.43.0


From cb09dc9dcc99f8bd2cbdadf13978bd442d5eab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 48/76] fix: word attributes in USX export and import

---
 BibleOrgSys/Formats/USXXMLBible.py     | 27 ++++++++++----------------
 BibleOrgSys/Formats/USXXMLBibleBook.py |  4 ++++
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 3b3cf2b..8eceb72 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -511,7 +511,6 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
         """
         Writes a book to the filesFolder.
         """
-        attributeStringStarts = set() # Set of start of string of first /ww attributes (from /w after |)
 
         def _handleInternalTextMarkersForUSX( originalText:str ) -> str:
             """
@@ -556,9 +555,6 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 endCharMarker = f'\\+{charMarker}*'
                 if endCharMarker in adjText:
                     adjText = adjText.replace( endCharMarker, '</char>' )
-                if charMarker == 'w': # We may have some cleaning up to do
-                    for attributeStringStart in attributeStringStarts:
-                        adjText = adjText.replace( f'<char style="w">{attributeStringStart}=', f'<char style="w" {attributeStringStart}=') # The end marker is already in there
             if '\\z' in adjText:
                 # Handle custom (character) markers
                 while True:
@@ -866,22 +862,19 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                         extra = f"\\vp {extraText}\\vp*" # Will be handled later
                     elif extraType == 'ww':
                         # NOTE: The insert point for \ww fields is at the end of the previous \w field (immediately before the \w*)
-                        #       However, if it's only a Strongs number, the \w field was removed completely
+                        #       However, the \w field itself was removed completely
                         # if BBB == 'RUT': print( f"{BBB} {C} {V} ww is {extra} with '{adjText}'"); halt
                         ixPipe = extraText.find('|')
                         assert ixPipe != -1
-                        if extraText.count('=')==1 and '|strong="' in extraText: # e.g., 'And|strong="H1121"'
-                            # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Got ww extra with only Strongs: {adjText=} {adjIndex=} {ixPipe=}" )
-                            # We need to recreate the \w (or \w+) field that was removed, e.g., <char style="w" strong="H1121">And</char>
-                            # But note that the word is already in the text (and the index points to the end of it)
-                            # Also note that ixPipe is actually the word length
-                            extra = f'<char style="w" {extraText[ixPipe+1:]}>{extraText[:ixPipe]}</char>'
-                            adjText = f'{adjText[:adjIndex-ixPipe]}{extra}{adjText[adjIndex:]}'
-                            offset -= len(extra) - ixPipe
-                            extra = None # to subvert normal processing at bottom of this loop
-                        else: # Assume a remaining \w field and add the extra info to it
-                            extra = f'{extraText[ixPipe+1:]}>'
-                            attributeStringStarts.add(extra[:6])
+                        # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Got ww extra: {adjText=} {adjIndex=} {ixPipe=}" )
+                        # We need to recreate the \w (or \+w) field that was removed, e.g., <char style="w" strong="H1121">And</char>
+                        # But note that the word is already in the text (and the index points to the end of it)
+                        word, attributesString = MLWriter.escape_characters( extraText[:ixPipe] ), extraText[ixPipe+1:]
+                        if '=' not in attributesString: attributesString = f'lemma="{attributesString}"' # It's the default attribute for \w fields
+                        extra = f'<char style="w" {attributesString}>{word}</char>'
+                        adjText = f'{adjText[:adjIndex-len(word)]}{extra}{adjText[adjIndex:]}'
+                        offset -= len(extra) - len(word)
+                        extra = None # to subvert normal processing at bottom of this loop
                     else:
                         dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"toUSXXML._handleNotesAndExtras: Unexpected {extraType=}" )
                         extra = f"--UNKNOWN {extraType} EXTRA--"
diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 6f59f3a..6419274 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -232,6 +232,7 @@ class USXXMLBibleBook( BibleBook ):
 
             # Process the attributes first
             charStyle = charClosed = None
+            wordAttributes:list[str] = []
             for attrib,value in charElement.items():
                 if attrib=='style':
                     charStyle = value # This is basically the USFM character marker name
@@ -240,6 +241,8 @@ class USXXMLBibleBook( BibleBook ):
                 elif attrib == 'closed':
                     assert value == 'false'
                     charClosed = False
+                elif charElement.attrib.get('style')=='w' and attrib in ('lemma','strong','srcloc','gloss') or attrib.startswith('x-'):
+                    wordAttributes.append( f'{attrib}="{value}"' )
                 else:
                     logging.error( _("QU52 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
@@ -283,6 +286,7 @@ class USXXMLBibleBook( BibleBook ):
                 if BibleOrgSysGlobals.strictCheckingFlag:
                     assert '\n' not in charLine
                     assert '\t' not in charLine
+            if wordAttributes: charLine += f"|{' '.join(wordAttributes)}"
             if charClosed != False: # None or True
                 # assert not charLine.endswith( ' ' )
                 charLine += f'\\{plus}{charStyle}*'
-- 
2.43.0


From 9d1d42174943a631e967ee63a820baf5d8927874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 49/76] fix: find and replace can be asked for no context
 around the texts it finds

---
 BibleOrgSys/Formats/USFM2Bible.py | 4 ++--
 BibleOrgSys/Formats/USFMBible.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 306ad9c..9529aa0 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -404,7 +404,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
                             contextAfter = bookText[ixAfter:ixAfter+optionsDict['contextLength']]
-                        else: contextBefore = contextAfter = None
+                        else: contextBefore = contextAfter = ''
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  After  {!r}".format( contextBefore ) )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Before {!r}".format( contextAfter ) )
 
@@ -452,7 +452,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
                             contextAfter = bookText[ixAfter:ixAfter+optionsDict['contextLength']]
-                        else: contextBefore = contextAfter = None
+                        else: contextBefore = contextAfter = ''
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  After  {!r}".format( contextBefore ) )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Before {!r}".format( contextAfter ) )
 
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index b1dff82..7f8bba0 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -372,7 +372,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
                             contextAfter = bookText[ixAfter:ixAfter+optionsDict['contextLength']]
-                        else: contextBefore = contextAfter = None
+                        else: contextBefore = contextAfter = ''
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  After  {!r}".format( contextBefore ) )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Before {!r}".format( contextAfter ) )
 
@@ -420,7 +420,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
                             contextAfter = bookText[ixAfter:ixAfter+optionsDict['contextLength']]
-                        else: contextBefore = contextAfter = None
+                        else: contextBefore = contextAfter = ''
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  After  {!r}".format( contextBefore ) )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Before {!r}".format( contextAfter ) )
 
-- 
2.43.0


From b45a74bb562bb8113ce71f70416df9f0264fc868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 50/76] fix: find and replace at the ends of lines finds all of
 them, not only the end of the file

---
 BibleOrgSys/Formats/USFM2Bible.py | 2 +-
 BibleOrgSys/Formats/USFMBible.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 9529aa0..fd3fde3 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -447,7 +447,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         elif optionsDict['wordMode'] == 'EndsWord':
                             if ixAfter<len(bookText) and bookText[ixAfter].isalpha(): ix+=1; continue
                         elif optionsDict['wordMode'] == 'EndsLine':
-                            if ixAfter<len(bookText): ix+=1; continue
+                            if ixAfter<len(bookText) and bookText[ixAfter]!='\n': ix+=1; continue
 
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 7f8bba0..30fb040 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -415,7 +415,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         elif optionsDict['wordMode'] == 'EndsWord':
                             if ixAfter<len(bookText) and bookText[ixAfter].isalpha(): ix+=1; continue
                         elif optionsDict['wordMode'] == 'EndsLine':
-                            if ixAfter<len(bookText): ix+=1; continue
+                            if ixAfter<len(bookText) and bookText[ixAfter]!='\n': ix+=1; continue
 
                         if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                             contextBefore = bookText[max(0,ix-optionsDict['contextLength']):ix]
-- 
2.43.0


From 93b7123ed045d0672e4cc242871d6d19033f6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 51/76] fix: find and replace fills in its regular expression
 where it was found (not on the found text alone)

---
 BibleOrgSys/Formats/USFM2Bible.py | 2 +-
 BibleOrgSys/Formats/USFMBible.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index fd3fde3..0478d55 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -391,7 +391,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         if not match: break # none / no more found
                         ix, ixAfter = match.span()
                         regexFoundText = bookText[ix:ixAfter]
-                        try: regexReplacementText = compiledFindText.sub( ourReplaceText, regexFoundText, count=1 )
+                        try: regexReplacementText = match.expand( ourReplaceText )
                         except re.error as err:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Search/Replace regex error: {}".format( err ) )
                             resultDict['hadRegexError'] = True
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 30fb040..9086769 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -359,7 +359,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         if not match: break # none / no more found
                         ix, ixAfter = match.span()
                         regexFoundText = bookText[ix:ixAfter]
-                        try: regexReplacementText = compiledFindText.sub( ourReplaceText, regexFoundText, count=1 )
+                        try: regexReplacementText = match.expand( ourReplaceText )
                         except re.error as err:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Search/Replace regex error: {}".format( err ) )
                             resultDict['hadRegexError'] = True
-- 
2.43.0


From 3438ff3150c7a06bd099acd55023f64693991dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 52/76] fix: find and replace makes its own list of the replace
 history if there is none

---
 BibleOrgSys/Formats/USFM2Bible.py | 1 +
 BibleOrgSys/Formats/USFMBible.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 0478d55..3e871cf 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -306,6 +306,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
     # Go through all the given options
     if 'workName' not in optionsDict: optionsDict['workName'] = self.abbreviation if self.abbreviation else self.name
     if 'findHistoryList' not in optionsDict: optionsDict['findHistoryList'] = [] # Oldest first
+    if 'replaceHistoryList' not in optionsDict: optionsDict['replaceHistoryList'] = [] # Oldest first
     if 'wordMode' not in optionsDict: optionsDict['wordMode'] = 'Any' # or 'Whole' or 'EndsWord' or 'Begins' or 'EndsLine'
     #if 'caselessFlag' not in optionsDict: optionsDict['caselessFlag'] = True
     #if 'ignoreDiacriticsFlag' not in optionsDict: optionsDict['ignoreDiacriticsFlag'] = False
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 9086769..a3bc70e 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -274,6 +274,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
     # Go through all the given options
     if 'workName' not in optionsDict: optionsDict['workName'] = self.abbreviation if self.abbreviation else self.name
     if 'findHistoryList' not in optionsDict: optionsDict['findHistoryList'] = [] # Oldest first
+    if 'replaceHistoryList' not in optionsDict: optionsDict['replaceHistoryList'] = [] # Oldest first
     if 'wordMode' not in optionsDict: optionsDict['wordMode'] = 'Any' # or 'Whole' or 'EndsWord' or 'Begins' or 'EndsLine'
     #if 'caselessFlag' not in optionsDict: optionsDict['caselessFlag'] = True
     #if 'ignoreDiacriticsFlag' not in optionsDict: optionsDict['ignoreDiacriticsFlag'] = False
-- 
2.43.0


From f76af1a7b418a23066c45edcdbe3b937e14398fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 53/76] fix: find and replace ends with a regular expression
 that finds an empty text

---
 BibleOrgSys/Formats/USFM2Bible.py | 3 ++-
 BibleOrgSys/Formats/USFMBible.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 3e871cf..499f697 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -388,7 +388,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                 if optionsDict['regexFlag']: # ignores wordMode flag
                     ix = 0
                     while True:
-                        match = compiledFindText.search( bookText, ix )
+                        match = compiledFindText.search( bookText, ix ) if ix<=len(bookText) else None
                         if not match: break # none / no more found
                         ix, ixAfter = match.span()
                         regexFoundText = bookText[ix:ixAfter]
@@ -423,6 +423,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ix={:,}, ixAfter={:,}, diffLen={}".format( ix, ixAfter, diffLen ) )
                             bookText = bookText[:ix] + regexReplacementText + bookText[ixAfter:]
                             ix += len( regexReplacementText ) # Start searching after the replacement
+                            if match.start()==match.end(): ix += 1 # so we don't find the same nothing again
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ix={:,}, ixAfter={:,}, now={!r}".format( ix, ixAfter, bookText ) )
                             resultDict['numReplaces'] += 1
                             if BBB not in resultDict['replacedBookList']: resultDict['replacedBookList'].append( BBB )
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index a3bc70e..2e9f4ef 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -356,7 +356,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                 if optionsDict['regexFlag']: # ignores wordMode flag
                     ix = 0
                     while True:
-                        match = compiledFindText.search( bookText, ix )
+                        match = compiledFindText.search( bookText, ix ) if ix<=len(bookText) else None
                         if not match: break # none / no more found
                         ix, ixAfter = match.span()
                         regexFoundText = bookText[ix:ixAfter]
@@ -391,6 +391,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ix={:,}, ixAfter={:,}, diffLen={}".format( ix, ixAfter, diffLen ) )
                             bookText = bookText[:ix] + regexReplacementText + bookText[ixAfter:]
                             ix += len( regexReplacementText ) # Start searching after the replacement
+                            if match.start()==match.end(): ix += 1 # so we don't find the same nothing again
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ix={:,}, ixAfter={:,}, now={!r}".format( ix, ixAfter, bookText ) )
                             resultDict['numReplaces'] += 1
                             if BBB not in resultDict['replacedBookList']: resultDict['replacedBookList'].append( BBB )
-- 
2.43.0


From 4b3939cf3fb3bb2343bcfe7b16e0f32aa3a14a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 54/76] fix: find and replace touches no file if one of them
 cannot be saved in its encoding

---
 BibleOrgSys/Formats/USFM2Bible.py | 2 ++
 BibleOrgSys/Formats/USFMBible.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 499f697..9965975 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -496,6 +496,8 @@ def findReplaceText( self, optionsDict, confirmCallback ):
     else:
         logging.critical( _("No book files to search/replace in {}!").format( self.sourceFolder ) )
 
+    for BBB,(filepath,fileText) in filesToSave.items():
+        fileText.encode( encoding ) # raises UnicodeEncodeError (before we touch any file) if we can't save it
     for BBB,(filepath,fileText) in filesToSave.items():
         if optionsDict['doBackups']:
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "Making backup copy of {} file: {}…".format( BBB, filepath ) )
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 2e9f4ef..982564b 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -464,6 +464,8 @@ def findReplaceText( self, optionsDict, confirmCallback ):
     else:
         logging.critical( _("No book files to search/replace in {}!").format( self.sourceFolder ) )
 
+    for BBB,(filepath,fileText) in filesToSave.items():
+        fileText.encode( encoding ) # raises UnicodeEncodeError (before we touch any file) if we can't save it
     for BBB,(filepath,fileText) in filesToSave.items():
         if optionsDict['doBackups']:
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "Making backup copy of {} file: {}…".format( BBB, filepath ) )
-- 
2.43.0


From e37143a9de3461a0e736a2e3ab8ffa7c7b47f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 55/76] fix: VPLBible raised NameError (vText) at the first
 verse of any type 1-3 file

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index d53e9b2..bc66125 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -754,7 +754,7 @@ class VPLBible( Bible ):
                             thisBook.addLine( 'p', '' )
                             verseText = verseText[1:].lstrip()
 
-                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, vText ) )
+                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, verseText ) )
                         thisBook.addLine( 'v', f'{verseNumberString} {verseText}' )
                         lastVerseText = verseText
                         lastVerseNumber = verseNumber
-- 
2.43.0


From 752152170a7501283127162c7cbd83189dabd9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 56/76] fix: VPLBible couldn't read a type 1-3 file which had a
 blank line

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index bc66125..04ad5a8 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -390,7 +390,7 @@ class VPLBible( Bible ):
         with open( filepath, 'rt', encoding=self.encoding ) as myFile: # Automatically closes the file when done
             for lineNumber, line in enumerate( myFile, start=1 ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
-                #if not line: continue # Just discard blank lines # NO, needed for vplType 5
+                if not line and vplType != 5: continue # Just discard blank lines (but they're needed for vplType 5)
                 if lineNumber == 1:
                     if self.encoding.lower()=='utf-8' and line[0]==BibleOrgSysGlobals.BOM:
                         logging.info( "      VPLBible.load: Detected Unicode Byte Order Marker (BOM)" )
-- 
2.43.0


From 09d53a12e2884653e1be541bfebcf97c2cd47423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 57/76] fix: VPLBible couldn't load anything if no encoding was
 given (e.g., by VPLBibleFileCheck)

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 04ad5a8..5109cee 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -306,7 +306,7 @@ class VPLBible( Bible ):
         self.objectTypeString = 'VPL'
 
         # Now we can set our object variables
-        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding
+        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding if encoding else 'utf-8'
         if self.givenName and not self.name:
             self.name = self.givenName
         if os.path.isfile( sourceFileOrFolder ):
-- 
2.43.0


From 1b2bca2e91fb1b55a3584580db622d170f3372fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 58/76] fix: CSVBible failed for a folder if no abbreviation
 was given (e.g., by CSVBibleFileCheck)

---
 BibleOrgSys/Formats/CSVBible.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index efb2691..052e8ee 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -234,14 +234,15 @@ class CSVBible( Bible ):
             self.sourceFolder = sourceFileOrFolder
             # NOTE: The following code assumes one file for the entire work
             #           but load() can also handle one file per book
+            abbreviation = self.abbreviation or self.givenName # because the abbreviation is optional
             for self.sourceFilename in (f'{self.givenName}.csv',f'{self.givenName}.CSV',
                                         f'{self.givenName}.tsv',f'{self.givenName}.TSV',
                                         f'{self.givenName}.txt',f'{self.givenName}.TXT',
                                         self.givenName,
-                                        f'{self.abbreviation}.csv',f'{self.abbreviation}.CSV', f'{self.abbreviation.lower()}.csv',f'{self.abbreviation.lower()}.CSV',
-                                        f'{self.abbreviation}.tsv',f'{self.abbreviation}.TSV', f'{self.abbreviation.lower()}.tsv',f'{self.abbreviation.lower()}.TSV',
-                                        f'{self.abbreviation}.txt',f'{self.abbreviation}.TXT', f'{self.abbreviation.lower()}.txt',f'{self.abbreviation.lower()}.TXT',
-                                        self.abbreviation,):
+                                        f'{abbreviation}.csv',f'{abbreviation}.CSV', f'{abbreviation.lower()}.csv',f'{abbreviation.lower()}.CSV',
+                                        f'{abbreviation}.tsv',f'{abbreviation}.TSV', f'{abbreviation.lower()}.tsv',f'{abbreviation.lower()}.TSV',
+                                        f'{abbreviation}.txt',f'{abbreviation}.TXT', f'{abbreviation.lower()}.txt',f'{abbreviation.lower()}.TXT',
+                                        abbreviation,):
                 self.sourceFilepath =  os.path.join( self.sourceFolder, self.sourceFilename )
                 # Do a preliminary check on the readability of our file
                 if os.access( self.sourceFilepath, os.R_OK ): # great -- found it
-- 
2.43.0


From 1897c372269e1ca2034138239186227c59d55ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 59/76] fix: YETBible doubled the text after a paragraph marker
 inside a verse

---
 BibleOrgSys/Formats/YETBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 2b9be33..fa44563 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -437,7 +437,7 @@ class YETBible( Bible ):
                 bits = verseString.split( '\\\\' ) # Split on paragraph markers (but not character markers)
                 for j,bit in enumerate(bits):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "loop", j, repr(bit), repr(verseString) )
-                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + verseString.rstrip() )
+                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + bit.rstrip() )
                     else:
                         if bit[1]==' ': marker, bit = bit[0], bit[2:]
                         elif bit[2]==' ': marker, bit = bit[0:2], bit[3:]
-- 
2.43.0


From 974180b07bdec901d981010b61b7f28a9cc699d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 60/76] fix: YETBible didn't treat @4 as a paragraph marker

---
 BibleOrgSys/Formats/YETBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index fa44563..be75182 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -250,7 +250,7 @@ class YETBible( Bible ):
             # Paragraph markers (marked now with double backslash)
             verseString = verseString.replace( '@^', '\\\\p ' )
             verseString = verseString.replace( '@0', '\\\\m ' )
-            verseString = verseString.replace( '@1', '\\\\q1 ' ).replace( '@2', '\\\\q2 ' ).replace( '@3', '\\\\q3 ' ).replace( '@4', '\\q4 ' )
+            verseString = verseString.replace( '@1', '\\\\q1 ' ).replace( '@2', '\\\\q2 ' ).replace( '@3', '\\\\q3 ' ).replace( '@4', '\\\\q4 ' )
             verseString = verseString.replace( '@8', '\\\\m ' )
             # Character markers (marked now with single backslash)
             verseString = verseString.replace( '@6', '\\wj ' ).replace( '@5', '\\wj*' )
-- 
2.43.0


From 8775be9709b7f4708d1a3fd1856136d184ee3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:07 +0000
Subject: [PATCH 61/76] fix: CSVBible skipped every line of a file which uses
 book numbers

---
 BibleOrgSys/Formats/CSVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index 052e8ee..6221887 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -339,7 +339,7 @@ class CSVBible( Bible ):
                     BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromText( booknameString )
                     if BBB:
                         bookNumber = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
-                if lastBookNumber==-1 and not BBB:
+                if lastBookNumber==-1 and bookNumber==-1: # No book number and no known book code or name
                     dPrint( 'Never', DEBUGGING_THIS_MODULE, f"Skipping the rest of introductory line because no BBB yet: {lineCount}: '{line}'" )
                     continue
 
-- 
2.43.0


From df9348d2d759fdbabc9969d9c1c0d51f3eb8c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 62/76] fix: VPLBible put a Psalm's title into the previous
 chapter or book (or failed if there was none)

---
 BibleOrgSys/Formats/VPLBible.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 5109cee..46d0846 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -386,7 +386,7 @@ class VPLBible( Bible ):
         chapterNumber = verseNumber = 0
         lastChapterNumber = lastVerseNumber = -1
         lastVerseText = ''
-        thisBook = None
+        thisBook = psalmTitle = None
         with open( filepath, 'rt', encoding=self.encoding ) as myFile: # Automatically closes the file when done
             for lineNumber, line in enumerate( myFile, start=1 ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
@@ -519,7 +519,7 @@ class VPLBible( Bible ):
                         if BBB=='PSA' and verseNumberString=='1': # Psalm title
                             vBits = verseText[1:].split( '»' )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "vBits", vBits )
-                            thisBook.addLine( 'd', vBits[0] ) # Psalm title
+                            psalmTitle = vBits[0] # Save it until any new book and/or chapter has been started
                             verseText = vBits[1].lstrip()
 
                     # Handle the verse info
@@ -749,6 +749,10 @@ class VPLBible( Bible ):
                             else:
                                 logging.warning( _("Ignored duplicated {} verse number in {} {} {} {}:{}").format( verseNumber, self.givenName, BBB, bookCodeText, chapterNumberString, verseNumberString ) )
 
+                        if psalmTitle:
+                            thisBook.addLine( 'd', psalmTitle )
+                            psalmTitle = None
+
                         # Check for paragraph markers
                         if verseText and verseText[0]=='¶':
                             thisBook.addLine( 'p', '' )
-- 
2.43.0


From 3100a6359ac72875877b277c3adc37fab435a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:35 +0000
Subject: [PATCH 63/76] fix: VPLBibleFileCheck didn't recognise a file which
 starts with a BOM

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 46d0846..4098614 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -183,7 +183,7 @@ def VPLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
                 if firstLines is None: continue # seems we couldn't decode the file
                 if firstLines and firstLines[0][0]==BibleOrgSysGlobals.BOM:
                     logging.info( "VPLBibleFileCheck: Detected Unicode Byte Order Marker (BOM) in {}".format( thisFilename ) )
-                    firstLines = firstLines[0][1:] # Remove the Unicode Byte Order Marker (BOM)
+                    firstLines[0] = firstLines[0][1:] # Remove the Unicode Byte Order Marker (BOM)
                 for line in firstLines:
                     # Try to identify the VPL type
                     match = re.search( '^(\\w{2,5}?)\\s(\\d{1,3})[:\\.](\\d{1,3})\\s', line )
-- 
2.43.0


From e5007d54a62a858a30c4fbe6e4c121ec622f45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:32 +0000
Subject: [PATCH 64/76] fix: VPLBible failed on a type 5 file with a high
 chapter number before the first verse

---
 BibleOrgSys/Formats/VPLBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 4098614..a86ab89 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -384,6 +384,7 @@ class VPLBible( Bible ):
         # Now process the file
         bookCodeText = lastBookCodeText = BBB = lastBBB = None
         chapterNumber = verseNumber = 0
+        chapterNumberString = verseNumberString = '0'
         lastChapterNumber = lastVerseNumber = -1
         lastVerseText = ''
         thisBook = psalmTitle = None
-- 
2.43.0


From 4f3446010f9c0023331b61f06554dfe66b3f17fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 65/76] fix: VPLBible failed on the numbers of 1 and 2 Esdras
 (81 and 82) because it gave them unknown book codes

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index a86ab89..87199c3 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -553,7 +553,7 @@ class VPLBible( Bible ):
                     if bookCodeText != lastBookCodeText: # We've started a new book
                         lastBBB = BBB
                         bnDict = { 67:'TOB', 68:'JDT', 69:'ESG', 70:'WIS', 71:'SIR', 72:'BAR', 73:'LJE', 74:'PAZ', 75:'SUS',
-                                76:'BEL', 77:'MA1', 78:'MA2', 79:'MA3', 80:'MA4', 81:'ES1', 82:'ES2', 83:'MAN', 84:'PS2',
+                                76:'BEL', 77:'MA1', 78:'MA2', 79:'MA3', 80:'MA4', 81:'GES', 82:'LES', 83:'MAN', 84:'PS2',
                                 85:'PSS', 86:'ODE', }
                         if 1 <= bookCodeText <= 66: BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromReferenceNumber( bookCodeText )
                         else: BBB = bnDict[bookCodeText]
-- 
2.43.0


From 94555cc3590dc2b68815cbb9098fb85e0fd1c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:24 +0000
Subject: [PATCH 66/76] fix: BCVBible raised NameError (metadataFilepath) for
 any file which starts with a BOM, e.g., all of our own exports

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index ce47eb2..9d13cfc 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -524,7 +524,7 @@ class BCVBibleBook( BibleBook ):
                 for line in myFile:
                     lineCount += 1
                     if lineCount==1 and line and line[0]==BibleOrgSysGlobals.BOM:
-                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( metadataFilepath ) )
+                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( filename ) )
                         line = line[1:] # Remove the Byte Order Marker (BOM)
                     if line and line[-1]=='\n': line = line[:-1] # Remove trailing newline character
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, CV, "line", line )
-- 
2.43.0


From 0a91618231f8d4b1cd52e08a5447708008c229a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 67/76] fix: BCVBible called processLineFix which doesn't exist
 (any more), so it couldn't load any book

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 9d13cfc..19f2137 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -552,7 +552,7 @@ class BCVBibleBook( BibleBook ):
                     else:
                         if originalMarker is None: originalMarker = marker
                         if text is None: text = ''
-                        adjText, cleanText, extras = self.processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
+                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
                     self._processedLines.append( InternalBibleEntry(marker, originalMarker, adjText, cleanText, extras, text) )
 
             #if loadErrors: self.checkResultsDictionary['Load Errors'] = loadErrors
-- 
2.43.0


From c39d479450717b28ff1f37ce491d96ba0863b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:35 +0000
Subject: [PATCH 68/76] fix: BCVBible misread v= lines and any text with << in
 it

---
 BibleOrgSys/Formats/BCVBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 19f2137..047975d 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -529,8 +529,8 @@ class BCVBibleBook( BibleBook ):
                     if line and line[-1]=='\n': line = line[:-1] # Remove trailing newline character
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, CV, "line", line )
                     assert line and line[0]=='\\'
-                    ixEQ = line.find( '=' )
-                    ixLL = line.find( '<<' )
+                    ixEQ = line.find( '=', 3 if line.startswith( '\\v=<<' ) else 1 ) # v= is a marker which contains an equals sign itself (and always has an original marker)
+                    ixLL = line.find( '<<', 1, ixEQ if ixEQ != -1 else len(line) ) # Might also be in the text after the equals sign
                     if ixEQ == -1: ixEQ = LARGE_DUMMY_VALUE
                     if ixLL == -1: ixLL = LARGE_DUMMY_VALUE
                     ix = min( ixEQ, ixLL )
-- 
2.43.0


From a1294e552fe0784b6e5fd271a00cac1ca7b59bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:35 +0000
Subject: [PATCH 69/76] fix: BCVBible set both C and V to a tuple for the
 introduction

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 047975d..35dea14 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -518,7 +518,7 @@ class BCVBibleBook( BibleBook ):
                 filename = self.BBB+'_C'+C+'V'+V+'.txt'
             else:
                 assert CV == ('-1',)
-                C = V = '-1', '0'
+                C, V = '-1', '0'
                 filename = self.BBB+'__Intro.txt'
             with open( os.path.join( self.sourceFolder, filename ), 'rt', encoding='utf-8' ) as myFile: # Automatically closes the file when done
                 for line in myFile:
-- 
2.43.0


From f6fb54b70650aae586eaec4253f3f3c00f0ce565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 70/76] fix: BCVBible gave end markers the text of the line
 before them, and nesting markers an original marker

---
 BibleOrgSys/Formats/BCVBible.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 35dea14..eddbfb6 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -40,7 +40,7 @@ if __name__ == '__main__':
 from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint, LARGE_DUMMY_VALUE
 from BibleOrgSys.Bible import Bible, BibleBook
-from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleEntryList, InternalBibleEntry
+from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleEntryList, InternalBibleEntry, BOS_CUSTOM_NESTING_MARKERS
 
 
 LAST_MODIFIED_DATE = '2022-07-03' # by RJH
@@ -511,6 +511,7 @@ class BCVBibleBook( BibleBook ):
         fixErrors:list[str] = []
         self._processedLines = InternalBibleEntryList() # Contains more-processed tuples which contain the actual Bible text -- see below
 
+        lastNumbers:dict[str,str] = {} # The current chapter and verse, as needed for the end markers
         for CV in self.givenCVList:
             lineCount = 0
             if isinstance( CV, tuple) and len(CV)==2:
@@ -549,9 +550,14 @@ class BCVBibleBook( BibleBook ):
                     if marker[0] == '¬':
                         assert originalMarker is None and text is None
                         adjText = extras = None
+                        cleanText = lastNumbers[marker[1:]] if marker in ('¬c','¬v') else ''
+                    elif marker in BOS_CUSTOM_NESTING_MARKERS:
+                        assert originalMarker is None and text is None
+                        adjText, cleanText, extras = None, '', None
                     else:
                         if originalMarker is None: originalMarker = marker
                         if text is None: text = ''
+                        if marker in ('c','v'): lastNumbers[marker] = text
                         adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
                     self._processedLines.append( InternalBibleEntry(marker, originalMarker, adjText, cleanText, extras, text) )
 
-- 
2.43.0


From aa8ed6f5d7f39569ce4b8c8922b91fcc9e1b27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 71/76] fix: BCVBible couldn't find the file of a book without
 chapters

---
 BibleOrgSys/Formats/BCVBible.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index eddbfb6..b145b3b 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -521,6 +521,8 @@ class BCVBibleBook( BibleBook ):
                 assert CV == ('-1',)
                 C, V = '-1', '0'
                 filename = self.BBB+'__Intro.txt'
+                if len(self.givenCVList) == 1 and not os.path.exists( os.path.join( self.sourceFolder, filename ) ):
+                    filename = self.BBB+'_C0.txt' # This is how we export a book without any chapters
             with open( os.path.join( self.sourceFolder, filename ), 'rt', encoding='utf-8' ) as myFile: # Automatically closes the file when done
                 for line in myFile:
                     lineCount += 1
-- 
2.43.0


From d3279ba854c37540d7520934786c506de225e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 72/76] fix: BCV export failed for a book with an introduction
 and a single chapter without verses

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 2a2ff75..53704af 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5332,7 +5332,7 @@ class InternalBibleBook:
                         myFile.write( introLines )
                     introLines = None # Will now cause an error if we try to do more introduction bits -- should only be one intro
                     CVList.append( ('-1',) )
-                elif verseLines:
+                if verseLines:
                     with open( os.path.join( bookFolderpath, self.BBB+'_C'+C+'V'+V+'.txt' ), 'wt', encoding='utf-8' ) as myFile:
                         if BibleOrgSysGlobals.prependBOMFlag:
                             myFile.write( BibleOrgSysGlobals.BOM )
-- 
2.43.0


From 543d65b000e432da3e40efd065ebdaed9d9f797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 73/76] fix: BCVBible opened a book's metadata in the encoding
 of the locale

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index b145b3b..9c32685 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -413,7 +413,7 @@ class BCVBibleBook( BibleBook ):
         self.metadataFilepath = metadataFilepath
         self.givenCVList = None
         lastLine, lineCount, status, settingsDict = '', 0, 0, {}
-        with open( metadataFilepath ) as myFile: # Automatically closes the file when done
+        with open( metadataFilepath, 'rt', encoding='utf-8' ) as myFile: # Automatically closes the file when done
             for line in myFile:
                 lineCount += 1
                 if lineCount==1 and line and line[0]==BibleOrgSysGlobals.BOM:
-- 
2.43.0


From 1343bf70301b15db81bd0d47c936757bb68c6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 74/76] fix: BCVBible gave an inserted iot marker an original
 marker

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 9c32685..0331ad9 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -553,7 +553,7 @@ class BCVBibleBook( BibleBook ):
                         assert originalMarker is None and text is None
                         adjText = extras = None
                         cleanText = lastNumbers[marker[1:]] if marker in ('¬c','¬v') else ''
-                    elif marker in BOS_CUSTOM_NESTING_MARKERS:
+                    elif marker in BOS_CUSTOM_NESTING_MARKERS or (marker=='iot' and text is None): # iot is only inserted by us if it has no text
                         assert originalMarker is None and text is None
                         adjText, cleanText, extras = None, '', None
                     else:
-- 
2.43.0


From 1841db38aa20f20e21aa5da5b222c689c1356025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:30 +0000
Subject: [PATCH 75/76] fix: EasyWorship export gave the length of a book in
 characters instead of bytes, so any with other than ASCII characters couldn't
 be read back

---
 BibleOrgSys/Formats/EasyWorshipBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/EasyWorshipBible.py b/BibleOrgSys/Formats/EasyWorshipBible.py
index ae689ed..801d847 100755
--- a/BibleOrgSys/Formats/EasyWorshipBible.py
+++ b/BibleOrgSys/Formats/EasyWorshipBible.py
@@ -250,10 +250,11 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
                         .replace( '“', '"' ).replace( '”', '"' ) \
                         .replace( "‘", "'" ).replace( "’", "'" ) \
                         .replace( '–', '--' ).replace( '—', '--' )
-        bookBytes = zlib.compress( textBuffer.encode( 'utf8' ), ZLIB_COMPRESSION_LEVEL )
+        textBytes = textBuffer.encode( 'utf8' )
+        bookBytes = zlib.compress( textBytes, ZLIB_COMPRESSION_LEVEL )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, hexlify(bookBytes[:20]), bookBytes )
         assert bookBytes[0]==0x78 and bookBytes[1]==0xda # Zlib compression header
-        appendage = b'QK\x03\x04' + struct.pack( '<I', len(textBuffer) ) + b'\x08\x00'
+        appendage = b'QK\x03\x04' + struct.pack( '<I', len(textBytes) ) + b'\x08\x00'
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "appendage", len(appendage), hexlify(appendage), appendage )
         assert len(appendage) == 10
         compressedDictionary[BBB] = bookBytes + appendage
-- 
2.43.0


From 87812ee6bc093fe9dc9b2d36956385e9f6f42bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:33 +0000
Subject: [PATCH 76/76] fix: MyBible export lost every verse that was followed
 by a missing one

---
 BibleOrgSys/Formats/MyBibleBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index acae0d7..0d9f5f8 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1151,8 +1151,8 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                                 logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
                                 raise e # again
                             #lineCount += 1
-                    ourGlobals['lastLine'] = composedLine
-                ourGlobals['lastBCV'] = (nBBB,C,V)
+                        ourGlobals['lastLine'] = composedLine
+                        ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
                 if V > numV:
                     C += 1
-- 
2.43.0

