From c1dbcea920ba66073f100735fa7f2a72f21d4d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 01/92] fix: correct accounting and termination of the cache
 eviction

The temporary file of a new cache entry lies in the cache folder and was counted
twice, so files were evicted although there was enough space. When the old version
of the file was itself evicted, its size was subtracted twice, so the cache could
exceed its limit. When nothing was left to evict, the program crashed (largest) or
failed (lru).
---
 src/cache/cache.go | 48 ++++++++++++++++++++++++++++++++++------------
 src/util/files.go  |  5 +++++
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 029f44a..5beae3d 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -26,6 +26,9 @@ const (
 
 var (
 	cacheWriteMutex = &sync.Mutex{}
+
+	// errNoFileToEvict is returned when the cache contains no file (anymore) that could be evicted.
+	errNoFileToEvict = errors.New("no file to evict from cache")
 )
 
 func GetFilePathInCache(cacheFolderName string, filename string) string {
@@ -109,6 +112,11 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 		}
 
 		tempFileSizeInBytes := tempFileStat.Size()
+
+		// The temporary file is located within the cache folder and has therefore been counted as well. It must not be
+		// counted twice.
+		cacheSizeInBytes -= tempFileSizeInBytes
+
 		err = deleteFilesFromCacheIfNeeded(cacheFolderName, filename, tempFileSizeInBytes, cacheSizeInBytes)
 		if err != nil {
 			return outputFilepath, err
@@ -138,17 +146,22 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 // deleteFilesFromCacheIfNeeded deletes files from the cache based on the configured cache eviction strategy. When the
 // cache is small enough for the new file, no (further) files will be deleted.
 func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, newFileSizeInBytes int64, cacheSizeInBytes int64) error {
-	// The new file might already exist in an older state (and thus with different size). The file will, therefore, not
-	// just be added to the cache, but instead the old file will be replaced. The cache then grows much less in size or
-	// might even shrink (in case the new file is smaller than the old one).
-	var netCacheSizeChangeInBytes = newFileSizeInBytes
-	existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
-	if err == nil {
-		netCacheSizeChangeInBytes = newFileSizeInBytes - existingFileSizeInBytes
-	}
+	for {
+		// The new file might already exist in an older state (and thus with different size). The file will, therefore, not
+		// just be added to the cache, but instead the old file will be replaced. The cache then grows much less in size or
+		// might even shrink (in case the new file is smaller than the old one). This is determined for each round, because
+		// the old file itself might have been evicted in the meantime.
+		var netCacheSizeChangeInBytes = newFileSizeInBytes
+		existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
+		if err == nil {
+			netCacheSizeChangeInBytes = newFileSizeInBytes - existingFileSizeInBytes
+		}
+
+		sigolo.Debugf("Max cache size: %f MB; current size: %f MB; new file size: %f MB; existing file size: %f MB (NaN means there's no existing file); net cache size change: %f MB", util.ToMB(config.Current.CacheMaxSize), util.ToMB(cacheSizeInBytes), util.ToMB(newFileSizeInBytes), util.ToMB(existingFileSizeInBytes), util.ToMB(netCacheSizeChangeInBytes))
+		if config.Current.CacheMaxSize > cacheSizeInBytes+netCacheSizeChangeInBytes {
+			return nil
+		}
 
-	sigolo.Debugf("Max cache size: %f MB; current size: %f MB; new file size: %f MB; existing file size: %f MB (NaN means there's no existing file); net cache size change: %f MB", util.ToMB(config.Current.CacheMaxSize), util.ToMB(cacheSizeInBytes), util.ToMB(newFileSizeInBytes), util.ToMB(existingFileSizeInBytes), util.ToMB(netCacheSizeChangeInBytes))
-	for config.Current.CacheMaxSize <= cacheSizeInBytes+netCacheSizeChangeInBytes {
 		sigolo.Debugf("New file (%s ; %f MB) would exceed max cache size: Max cache size of %f MB < current size of %f MB + net size change of %f MB = new size of %f MB. Remove largest files until cache is small enough.", newFileName, util.ToMB(newFileSizeInBytes), util.ToMB(config.Current.CacheMaxSize), util.ToMB(cacheSizeInBytes), util.ToMB(netCacheSizeChangeInBytes), util.ToMB(cacheSizeInBytes+netCacheSizeChangeInBytes))
 
 		if config.Current.CacheEvictionStrategy == config.CacheEvictionStrategyLargest {
@@ -158,12 +171,15 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 		} else {
 			sigolo.Fatalf("Unsupported cache eviction strategy '%s'. This is a Bug.", config.Current.CacheEvictionStrategy)
 		}
+		if errors.Is(err, errNoFileToEvict) {
+			// The new file alone exceeds the max cache size. There's nothing left to evict, so the file is cached anyway.
+			sigolo.Debugf("Cache is empty but still too small for new file '%s'", newFileName)
+			return nil
+		}
 		if err != nil {
 			return err
 		}
 	}
-
-	return nil
 }
 
 func deleteLargestFileFromCache(cacheSizeInBytes int64) (error, int64) {
@@ -175,6 +191,10 @@ func deleteLargestFileFromCache(cacheSizeInBytes int64) (error, int64) {
 		return errors.Wrap(err, fmt.Sprintf("Unable to determine largest file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
 	}
 
+	if largestFilePath == "" {
+		return errNoFileToEvict, cacheSizeInBytes
+	}
+
 	sigolo.Debugf("Delete largest file from cache: '%s' (%f MB)", largestFilePath, util.ToMB(largestFileSizeInBytes))
 	err = util.CurrentFilesystem.Remove(largestFilePath)
 	if err != nil {
@@ -193,6 +213,10 @@ func deleteLruFileFromCache(cacheSizeInBytes int64) (error, int64) {
 		return errors.Wrap(err, fmt.Sprintf("Unable to determine least recently used file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
 	}
 
+	if lruFilePath == "" {
+		return errNoFileToEvict, cacheSizeInBytes
+	}
+
 	sigolo.Debugf("Delete least recently used file from cache: '%s' (%f MB)", lruFilePath, util.ToMB(lruFileSizeInBytes))
 	err = util.CurrentFilesystem.Remove(lruFilePath)
 	if err != nil {
diff --git a/src/util/files.go b/src/util/files.go
index d676673..44ea1a4 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -358,6 +358,11 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 		return err, math.MinInt64, ""
 	}
 
+	if currentLargestFile == nil {
+		// No file was found
+		return nil, 0, ""
+	}
+
 	return nil, currentLargestFile.Size(), currentLargestFilePath
 }
 
-- 
2.43.0


From 11ac8db0accfc0bf84607e8dd4e2d9c5f2ec5f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 02/92] fix: send the body again when a throttled POST request
 is retried

---
 src/http/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 9db145b..635cec9 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -152,6 +152,14 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			sigolo.Debugf("Received response status code %d and try request again in %d seconds", response.StatusCode, waitTime)
 			sleepFunc(waitTime)
+
+			if request.GetBody != nil {
+				// The body has been consumed by the previous attempt, so the next one needs a fresh body.
+				request.Body, err = request.GetBody()
+				if err != nil {
+					return nil, errors.Wrap(err, fmt.Sprintf("Unable to reset body of %s request to url %s", request.Method, url))
+				}
+			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
-- 
2.43.0


From 00b0aa84646416b106ebca07cb5f62a9844f799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 03/92] fix: keep file paths with spaces intact in image
 command templates

---
 src/image/image.go | 10 ++++------
 src/util/cmd.go    |  9 +++++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/image/image.go b/src/image/image.go
index 5d75d7f..2a7d020 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -24,19 +24,17 @@ func NewImageProcessingService() ImageProcessingService {
 func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string, commandTemplate string) error {
 	sigolo.Tracef("Process image '%s'", imageFilepath)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, imageFilepath)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, imageFilepath)
+	placeholderReplacer := strings.NewReplacer(config.InputPlaceholder, imageFilepath, config.OutputPlaceholder, imageFilepath)
 
-	err := util.ExecuteCommandWithArgs(commandString, config.Current.CacheDir)
+	err := util.ExecuteCommandWithArgs(commandTemplate, placeholderReplacer, config.Current.CacheDir)
 	return errors.Wrapf(err, "Converting image '%s' failed", imageFilepath)
 }
 
 func (s *ImageProcessingServiceImpl) ConvertToPng(inputFile string, pngFile string, commandTemplate string) error {
 	sigolo.Tracef("Convert '%s' to PNG '%s'", inputFile, pngFile)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, inputFile)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, pngFile)
+	placeholderReplacer := strings.NewReplacer(config.InputPlaceholder, inputFile, config.OutputPlaceholder, pngFile)
 
-	err := util.ExecuteCommandWithArgs(commandString, ".")
+	err := util.ExecuteCommandWithArgs(commandTemplate, placeholderReplacer, ".")
 	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
 }
diff --git a/src/util/cmd.go b/src/util/cmd.go
index 59c6f63..3118f7b 100644
--- a/src/util/cmd.go
+++ b/src/util/cmd.go
@@ -9,8 +9,13 @@ import (
 	"github.com/pkg/errors"
 )
 
-func ExecuteCommandWithArgs(commandString string, workingDirectory string) error {
-	commandParts := strings.Split(commandString, " ")
+// ExecuteCommandWithArgs executes the command of the given template. The template is split at spaces before the replacer
+// is applied to each part, so that values inserted into the template (e.g. file paths) may contain spaces themselves.
+func ExecuteCommandWithArgs(commandTemplate string, placeholderReplacer *strings.Replacer, workingDirectory string) error {
+	commandParts := strings.Split(commandTemplate, " ")
+	for i, commandPart := range commandParts {
+		commandParts[i] = placeholderReplacer.Replace(commandPart)
+	}
 	commandExecutable := commandParts[0]
 	commandArgs := commandParts[1:]
 
-- 
2.43.0


From 0f710d24302cb7706f92930f0233eaa8e9eab7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 04/92] fix: make the relative height of an SVG absolute when
 its width is absolute

---
 src/image/svg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 0ce51e6..0f8413e 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -56,7 +56,7 @@ func MakeSvgSizeAbsolute(filename string) error {
 	}
 	sigolo.Tracef("Found SVG attributes: %#v", attributes)
 
-	if !strings.HasSuffix(attributes.Width, "%") && strings.HasSuffix(attributes.Height, "%") {
+	if !strings.HasSuffix(attributes.Width, "%") && !strings.HasSuffix(attributes.Height, "%") {
 		// Width and height are already absolute values, nothing to do here.
 		sigolo.Debugf("SVG file '%s' does not relative width and height attributes. Found width=%s and height=%s. File stays unchanged.", filename, attributes.Width, attributes.Height)
 		return nil
-- 
2.43.0


From 92e9ee77283d670e672c437bdf79b9a237b8b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 05/92] fix: resolve paths from the command line relative to
 the working directory for projects, too

---
 src/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.go b/src/main.go
index 1b2010f..fb41139 100644
--- a/src/main.go
+++ b/src/main.go
@@ -208,6 +208,9 @@ func initialize(cliLogging string, cliConfig *config.Configuration, cliConfigFil
 		defer trace.Stop()
 	}
 
+	// The working directory changes for projects, so paths from the CLI must be made absolute before this happens.
+	cliConfig.MakePathsAbsoluteToWorkingDir()
+
 	cliOutputFile, err := util.ToAbsolutePath(cliOutputFile)
 	sigolo.FatalCheck(err)
 
-- 
2.43.0


From caea623065509247b47ab0b6f36ba43efaebaccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 06/92] fix: use a reordered list of image article hosts from
 project files and CLI arguments

---
 src/config/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index fe9172c..aadee5a 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 	"wiki2book/util"
 
@@ -605,7 +606,8 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override WikipediaMathRestApi with %s", c.WikipediaMathRestApi)
 		Current.WikipediaMathRestApi = c.WikipediaMathRestApi
 	}
-	if !util.EqualsInAnyOrder(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
+	// The hosts are used in the given order, so a different order is a different setting.
+	if !slices.Equal(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
 		sigolo.Tracef("Override WikipediaImageArticleHosts with %v", c.WikipediaImageArticleHosts)
 		Current.WikipediaImageArticleHosts = c.WikipediaImageArticleHosts
 	}
-- 
2.43.0


From 0c13f002fa2a583750c3c7f94d8c19d661586e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 07/92] fix: keep absolute font file paths of config files

---
 src/config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index aadee5a..c98e055 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -664,7 +664,7 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	sigolo.FatalCheck(err)
 
 	for i, f := range c.FontFiles {
-		absoluteFile := filepath.Join(absoluteConfigDir, f)
+		absoluteFile, err := util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
 		c.FontFiles[i] = absoluteFile
 	}
-- 
2.43.0


From a7b08e8e3a85baa6e19cd99f8de22dcb2e3f0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 08/92] fix: don't crash on links to a section of the same
 article

---
 src/parser/link.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index 83c24c1..1ad16e7 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -90,7 +90,10 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				continue
 			}
 
-			if linkTarget[0] == ':' {
+			if linkTarget == "" {
+				// A link without any target is a link to a section of the same article, e.g. [[#Section]].
+				linkText = strings.TrimSpace(possibleLinkWikitext)
+			} else if linkTarget[0] == ':' {
 				// A link starting with ":" indicates e.g. a link to a category. Because we have no delimiter here, the
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
-- 
2.43.0


From c6acf9d1e0275572793d51a2be3b0c8c5f592e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 09/92] fix: don't crash on internal links and images that are
 not closed

---
 src/parser/cleaner.go | 4 ++++
 src/parser/image.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index a02a8f8..16bd744 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -77,6 +77,10 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 
 		if cursor == "[[" {
 			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
+			if endIndex == -1 || endIndex+2 > len(content) {
+				// Link is not (completely) closed -> leave the text as it is
+				continue
+			}
 
 			totalLinkContent := content[i+2 : endIndex]
 			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
diff --git a/src/parser/image.go b/src/parser/image.go
index 25926ec..f8ad833 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -200,6 +200,10 @@ func (t *Tokenizer) parseImages(content string) string {
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
+		if endIndex == -1 || endIndex+2 > len(content) {
+			// Image is not (completely) closed -> leave the text as it is
+			break
+		}
 
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
-- 
2.43.0


From ac67b6af4f8a312a45981d66076d24b2e0fc4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 10/92] fix: only look at the link target to find forbidden
 link prefixes

---
 src/parser/cleaner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 16bd744..90228c2 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -83,7 +83,10 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 			}
 
 			totalLinkContent := content[i+2 : endIndex]
-			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
+			// Only the target of the link can have prefixes, colons in the section reference or link text don't matter.
+			linkTarget := strings.SplitN(totalLinkContent, "|", 2)[0]
+			linkTarget = strings.SplitN(linkTarget, "#", 2)[0]
+			linkSegments := strings.SplitN(linkTarget, ":", -1)
 			allPrefixes := linkSegments[:len(linkSegments)-1]
 
 			// It's possible to link categories with a leading colon, e.g. [[:SomeCategory:SomeLinkText]]. They should
-- 
2.43.0


From 79cf4e6a2c214630f34c70f84798dc64cc26e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 11/92] fix: don't crash on nowiki elements that are not closed

---
 src/parser/nowiki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 47914a2..3ad5184 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -23,6 +23,10 @@ func (t *Tokenizer) parseNowiki(content string) string {
 
 		if util.EqualsIgnoreCase(cursor, nowikiStart) {
 			endIndex := FindCorrespondingCloseTokenIgnoreCase(content, i+nowikiStartLen, nowikiStart, nowikiEnd)
+			if endIndex == -1 {
+				// Element is not closed -> leave the text as it is
+				continue
+			}
 
 			token := NowikiToken{
 				Content: content[i+nowikiStartLen : endIndex],
-- 
2.43.0


From dc9f3e878ab8a8a37b88f5daa0116a37f41f406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 12/92] fix: don't crash on references that are not closed

---
 src/parser/reference.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 1dc66db..63a674b 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -70,6 +70,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 		if startEndIndex == -1 {
 			// XML for <ref not closed -> broken wikitext
 			sigolo.Errorf("XML element for reference start '%s' not closed (i.e. missing '%s'). Text around this location: ...%s...", refDefStart, xmlClosing, util.GetTextAround(content, i, 50))
+			continue
 		}
 
 		if referencePlaceholderEndRegex.MatchString(content[i:startEndIndex+1]) || referencePlaceholderShortRegex.MatchString(content[i:startEndIndex+1]) {
@@ -121,6 +122,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 				if refEndIndex == -1 {
 					// No end token found -> probably unsupported wikitext syntax (like nested refs)
 					sigolo.Errorf("No end-part for reference start '%s' found. Text around this location: ...%s...", refDefStart, util.GetTextAround(content, i, 50))
+					continue
 				}
 				refNumberCounterForCurrentGroup, content = t.parseReferenceDefinition(content, i, startEndIndex, refEndIndex, refNumberCounterForCurrentGroup, nameAttributeValue, nameToRefNumberForCurrentGroup, refNumberToContentForCurrentGroup, cursorWithinReferencePlaceholder, refDefLongEndLen)
 			}
-- 
2.43.0


From a50fb23b6ca10eb8eadaaf5565d7ec4a359e3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 13/92] fix: don't crash on tables that are not closed

---
 src/parser/table.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9595b5b..20d3aed 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -116,7 +116,10 @@ func (t *Tokenizer) tokenizeTable(content string) TableToken {
 		} else if isHeadingStart {
 			rowToken, i = t.tokenizeTableRow(lines, i)
 		} else if isRowStart {
-			if strings.HasPrefix(lines[i+1], "!") {
+			if i+1 >= len(lines) {
+				// Table is not closed and ends with an empty row
+				break
+			} else if strings.HasPrefix(lines[i+1], "!") {
 				// this table row is a heading
 				rowToken, i = t.tokenizeTableRow(lines, i+1)
 			} else if strings.HasPrefix(lines[i+1], "|") {
@@ -168,11 +171,14 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 
 		// Collect all normal text rows until the next row or column starts.
 		i++
-		for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
-			line += "\n" + l
+		for i < len(lines) {
+			l := strings.TrimSpace(lines[i])
+			if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+				break
+			}
 
+			line += "\n" + l
 			i++
-			l = lines[i]
 		}
 		// Now the index is at the start of the next column/row -> reduce by 1 for later parsing.
 		i -= 1
@@ -217,11 +223,14 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 
 	// collect all lines from this caption
 	i++
-	for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
-		captionLines += "\n" + l
+	for i < len(lines) {
+		l := strings.TrimSpace(lines[i])
+		if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+			break
+		}
 
+		captionLines += "\n" + l
 		i++
-		l = strings.TrimSpace(lines[i])
 	}
 
 	captionLines = strings.TrimPrefix(captionLines, "|+")
-- 
2.43.0


From 5659a9949eee1fc4223971a9bd7fd13be3529c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 14/92] fix: keep all lines of heading cells in tables headings

---
 src/parser/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 20d3aed..acb438c 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -165,6 +165,7 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 			break
 		}
 
+		isHeading := strings.HasPrefix(line, "!")
 		line = strings.TrimPrefix(line, "|")
 		line = strings.TrimPrefix(line, "!")
 		line = strings.TrimSpace(line)
@@ -187,7 +188,7 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 		tokenizedLine = strings.TrimSpace(tokenizedLine)
 
 		var token TableColToken
-		if strings.HasPrefix(strings.TrimSpace(lines[i]), "!") {
+		if isHeading {
 			token = TableColToken{
 				Attributes: attributeToken,
 				Content:    tokenizedLine,
-- 
2.43.0


From 697c0d7885a29488daae74c2b39c087bc66bfe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 15/92] fix: keep the whole text of table cells with vertical
 bars

---
 src/parser/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index acb438c..3c940ca 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -251,7 +251,7 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttributeToken) {
 	var attributeToken TableColAttributeToken
 
-	splittedContent := strings.Split(content, "|")
+	splittedContent := strings.SplitN(content, "|", 2)
 	if len(splittedContent) < 2 {
 		return t.tokenizeContent(t, content), attributeToken
 	}
-- 
2.43.0


From 0b825d6afcbe8af043c28e806eb0879d64683e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 16/92] fix: only split cells at the separators that are valid
 in their line and keep negative numbers

---
 src/parser/table.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 3c940ca..441fb87 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -94,9 +94,16 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 // tokenizeTable expects content to be all lines of a table.
 func (t *Tokenizer) tokenizeTable(content string) TableToken {
 	// ensure that each entry starts in a new row
-	content = strings.ReplaceAll(content, "||", "\n|")
-	content = strings.ReplaceAll(content, "!!", "\n!")
+	// The additional space avoids that e.g. the "||-1" turns into the start of a new row "|-". The "!!" is only a
+	// separator in lines with heading cells.
+	content = strings.ReplaceAll(content, "||", "\n| ")
 	lines := strings.Split(content, "\n")
+	for i, line := range lines {
+		if strings.HasPrefix(strings.TrimSpace(line), "!") {
+			lines[i] = strings.ReplaceAll(line, "!!", "\n! ")
+		}
+	}
+	lines = strings.Split(strings.Join(lines, "\n"), "\n")
 
 	var rowTokens []TableRowToken
 	var captionToken TableCaptionToken
-- 
2.43.0


From 5b0c4a3933ecdee9a581a4aefdfec2184246d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 17/92] fix: don't crash on image maps without image or with an
 image of an ignored media type

---
 src/parser/image.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index f8ad833..fbde277 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -178,11 +178,18 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 			if line == "" {
 				// if empty -> delete this line i, the next line contains the image
 				lines = append(lines[:i], lines[i+1:]...)
+				if i >= len(lines) {
+					// Imagemap without any content
+					break
+				}
 				line = lines[i]
 			}
 
 			// "line" contains definitely the image of the imagemap
-			lines[i] = fmt.Sprintf("[[%s]]", t.escapeImages(line))
+			lines[i] = t.escapeImages(line)
+			if lines[i] != "" {
+				lines[i] = fmt.Sprintf("[[%s]]", lines[i])
+			}
 
 			withinImageMap = true
 			continue
-- 
2.43.0


From 3b2ea5812d7de6f7357994189d8f243db06bd8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 18/92] fix: don't crash on images without file name

---
 src/parser/image.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index fbde277..1f8ba69 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -53,6 +53,11 @@ func (t *Tokenizer) escapeImages(content string) string {
 		filename = strings.TrimSpace(fileSegments[1])
 	}
 
+	if filename == "" {
+		sigolo.Warnf("Found image without file name: %s", util.TruncString(content))
+		return ""
+	}
+
 	// Check if this media type is unwanted
 	fileExtension := strings.ToLower(strings.TrimPrefix(filepath.Ext(filename), "."))
 	if util.Contains(config.Current.IgnoredMediaTypes, fileExtension) {
-- 
2.43.0


From 0bd723638eb65d54d906a2bfa981d634aa856a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 19/92] fix: recognize image parameters as a whole and not just
 by their first characters

---
 src/parser/image.go   | 20 ++++++++++++++++++--
 src/parser/pattern.go |  9 ++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 1f8ba69..e16d16d 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -88,6 +88,21 @@ func (t *Tokenizer) escapeImages(content string) string {
 	return strings.Join(segments, "|")
 }
 
+// isIgnoredImageParam returns true for options consisting of an ignored parameter with an optional value, e.g. "left",
+// "alt=some text" or "upright 1.2".
+func isIgnoredImageParam(option string) bool {
+	name, _, _ := strings.Cut(option, "=")
+	name = strings.TrimSpace(name)
+
+	if valueIndex := strings.LastIndex(name, " "); valueIndex != -1 {
+		if _, err := strconv.ParseFloat(name[valueIndex+1:], 64); err == nil {
+			name = strings.TrimSpace(name[:valueIndex])
+		}
+	}
+
+	return util.Contains(config.Current.IgnoredImageParams, name)
+}
+
 func (t *Tokenizer) parseGalleries(content string) string {
 	lines := strings.Split(content, "\n")
 	withinGallery := false
@@ -238,13 +253,14 @@ func (t *Tokenizer) parseImages(content string) string {
 			// Do some cleanup: Remove definitely uninteresting options.
 			var filteredOptions []string
 			for _, option := range options {
-				if !util.HasAnyPrefix(option, config.Current.IgnoredImageParams...) {
+				option = strings.TrimSpace(option)
+				if !isIgnoredImageParam(option) {
 					filteredOptions = append(filteredOptions, option)
 				}
 			}
 
 			for i, option := range filteredOptions {
-				if util.HasAnyPrefix(option, imageNonInlineParameters...) {
+				if nonInlineParameterRegex.MatchString(option) {
 					tokenType = TOKEN_IMAGE
 					hasCaption = true
 				} else if strings.HasSuffix(option, "px") {
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 9e991e5..652409a 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -40,9 +40,12 @@ var (
 
 // Media files
 var (
-	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
-	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
-	hasNonInlineParameterRegex = regexp.MustCompile("(?i)(" + strings.Join(imageNonInlineParameters, "|") + ")")
+	galleryStartRegex  = regexp.MustCompile(`(?i)^<gallery.*?>`)
+	imagemapStartRegex = regexp.MustCompile(`(?i)^<imagemap.*?>`)
+	// Non-inline parameters can have longer forms (e.g. "miniatur" or "thumbnail") and a value.
+	nonInlineParameterPattern  = `(` + strings.Join(imageNonInlineParameters, "|") + `)(at[a-z]*|nail)?\s*(=[^|]*)?`
+	nonInlineParameterRegex    = regexp.MustCompile(`^` + nonInlineParameterPattern + `$`)
+	hasNonInlineParameterRegex = regexp.MustCompile(`(?i)\|\s*` + nonInlineParameterPattern + `(\||$)`)
 )
 
 // Tables
-- 
2.43.0


From e4e66a58a6cdca91bbae0bcb7322ab6ec67eee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 20/92] fix: keep "$$" in the text of articles

---
 src/generator/expand.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index a3b0e54..ca82042 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -83,7 +83,15 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	newContent := ""
 
 	for i := 0; i < len(content); i++ {
+		tokenKey := ""
 		if i < len(content)-1 && content[i:i+2] == "$$" {
+			// Normal text can contain "$$" as well, so this must be the start of an actual token key.
+			if match := tokenRegex.FindStringIndex(content[i:]); match != nil && match[0] == 0 {
+				tokenKey = content[i : i+match[1]]
+			}
+		}
+
+		if tokenKey != "" {
 			// We found a token start -> Expand content before token and the token itself
 
 			// 1. Expand normal text before token (if there is any text before the token)
@@ -94,10 +102,7 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 			}
 
 			// 2. Expand token and its content
-			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
-			tokenKey := content[i+2 : tokenEndIndex]
-
-			tokenContent, hasTokenKey := g.getToken("$$" + tokenKey + "$$")
+			tokenContent, hasTokenKey := g.getToken(tokenKey)
 			if !hasTokenKey {
 				return "", errors.Errorf("Token key %s not found in token map", tokenKey)
 			}
@@ -110,8 +115,8 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 
 			newContent += expandedContent
 
-			// Skip the token with its ending and continue after it. Only "+1" because the loop ads another "+1" so that the whole token ending of length 2 is skipped.
-			i = tokenEndIndex + 1
+			// Skip the token with its ending and continue after it. The "-1" compensates the "+1" of the loop.
+			i += len(tokenKey) - 1
 			textSegmentStartIndex = -1
 		} else if textSegmentStartIndex == -1 {
 			// When index is unset -> set it and therefore remember the start of a pure text segment
-- 
2.43.0


From c92fac911c44c933e84a661c42b5afd404a67fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 21/92] fix: don't add closing brackets to text with a single
 opening bracket

---
 src/parser/link.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/link.go b/src/parser/link.go
index 1ad16e7..91a9d72 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -71,6 +71,12 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		}
 
 		segments := strings.Split(splitItem, closingBrackets)
+		if len(segments) == 1 {
+			// Brackets are not closed, so this is not a link but normal text.
+			resultSegments = append(resultSegments, openingBrackets)
+			resultSegments = append(resultSegments, splitItem)
+			continue
+		}
 
 		possibleLinkWikitext := segments[0]
 
-- 
2.43.0


From f9bc76bdb8554ba3bbd25aa090a3f8606ec31899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 22/92] fix: keep the text of links with an unsupported
 protocol

---
 src/generator/expand.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index ca82042..6bb6f61 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -46,6 +46,8 @@ func expandToken(expansionHandler ExpansionHandler, token parser.Token) (string,
 		html = expansionHandler.expandRefUsage(t)
 	case parser.NowikiToken:
 		html = expansionHandler.expandNowiki(t)
+	case parser.StringToken:
+		html, err = expand(expansionHandler, t.String)
 	}
 
 	if err != nil {
-- 
2.43.0


From aaac89e158a892c765b1efd5b8d1e1692a2a2fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 23/92] fix: keep equal signs within headings

---
 src/parser/heading.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/heading.go b/src/parser/heading.go
index 17473f6..2e5bc82 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -21,7 +21,7 @@ func (t *Tokenizer) parseHeadings(content string) string {
 			line := strings.TrimSpace(lines[i])
 
 			if strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
-				headingText := strings.ReplaceAll(line, headingMediawikiMarker, "")
+				headingText := strings.TrimSuffix(strings.TrimPrefix(line, headingMediawikiMarker), headingMediawikiMarker)
 				headingText = strings.TrimSpace(headingText)
 
 				token := t.getToken(TOKEN_HEADING)
-- 
2.43.0


From 84fb2370a5a1c7a68640002d93720eb51db8f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 24/92] fix: parse indented tables as tables

---
 src/parser/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/list.go b/src/parser/list.go
index 3d97a63..478acdc 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -50,6 +50,11 @@ func (t *Tokenizer) parseLists(content string) string {
 			continue
 		}
 
+		if tableStartRegex.MatchString(line) {
+			// Indented table, which will be turned into a token first
+			continue
+		}
+
 		lineStartCharacter := string(line[0])
 		_, tokenKey, newIndex := t.tokenizeList(lines, i, lineStartCharacter)
 
-- 
2.43.0


From 29c2138eec7c509985888b0adc695619a6033b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 25/92] fix: don't interpret the content of math elements as
 wikitext

---
 src/parser/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 8220842..7acef8f 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -140,6 +140,8 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		originalContent := content
 
 		content = t.parseNowiki(content)
+		// The content of math elements is no wikitext, e.g. '' means a second derivative there.
+		content = t.parseMath(content)
 
 		content = t.parseBoldAndItalic(content)
 		content = t.parseHeadings(content)
@@ -151,7 +153,6 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseImages(content)
 
 		content = t.parseExternalLinks(content)
-		content = t.parseMath(content)
 		content = t.parseLists(content)
 		content = t.parseTables(content)
 		content = t.parseParagraphs(content)
-- 
2.43.0


From c05c795e47eb6716edd1a1e617c50eddaeea6827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 26/92] fix: number references in headings together with all
 other references

---
 src/parser/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 7acef8f..0658925 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -144,8 +144,9 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseMath(content)
 
 		content = t.parseBoldAndItalic(content)
-		content = t.parseHeadings(content)
+		// References may appear anywhere and are numbered across the whole content, also across headings.
 		content = t.parseReferences(content)
+		content = t.parseHeadings(content)
 		content = t.parseInternalLinks(content)
 
 		content = t.parseGalleries(content)
-- 
2.43.0


From 61580e270f18c576484f1c8cac5739a44aa975c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 27/92] fix: don't join text behind a comment with the line
 before the comment

---
 src/parser/cleaner.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 90228c2..76c5434 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -53,10 +53,11 @@ func (t *Tokenizer) removeComments(content string) string {
 			nonCommentSegment := segments[0]
 
 			// Remove potentially trailing newline:
-			if len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' {
+			if len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' && startsWithLineEnd(splitContent[i+1:]) {
 				// If this segments ends with a newline, the comment following it started with a newline. We remove the
 				// newline, because otherwise, there will be additional blank lines between former comments. Example:
 				// "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
+				// When there's text behind the comment, the newline has to stay to not join this text with the line before.
 				nonCommentSegment = nonCommentSegment[:len(nonCommentSegment)-1]
 			}
 
@@ -67,6 +68,19 @@ func (t *Tokenizer) removeComments(content string) string {
 	return strings.Join(resultSegments, "")
 }
 
+// startsWithLineEnd returns true when the content behind a comment, which is given by segments split at the end token
+// "-->" of comments, only consists of further comments until the end of the line.
+func startsWithLineEnd(segments []string) bool {
+	for _, segment := range segments {
+		if strings.HasPrefix(segment, "<!--") {
+			continue
+		}
+		segment = strings.TrimLeft(segment, " \t")
+		return segment == "" || segment[0] == '\n'
+	}
+	return false
+}
+
 // removeUnwantedInternalLinks removes all kind of unwanted links. This method leaves all allowed internal links
 // unchanged (links with a certain prefix). Category prefixes and all other not explicitly allowed prefixes are
 // considered unwanted and each such link will be removed.
-- 
2.43.0


From e9f1789a373fe92ebe84614287edc8708363e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 28/92] fix: show tags within nowiki elements instead of
 interpreting them as HTML

---
 src/generator/html.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 32b114f..1e2e5d5 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -88,7 +88,8 @@ const TEMPLATE_REF_DEF = "[%d] %s<br>"
 const TEMPLATE_REF_USAGE = "[%d]"
 
 var (
-	tokenRegex = regexp.MustCompile(parser.TOKEN_REGEX)
+	tokenRegex     = regexp.MustCompile(parser.TOKEN_REGEX)
+	nowikiReplacer = strings.NewReplacer("<", "&lt;", ">", "&gt;")
 )
 
 type HtmlGenerator struct {
@@ -394,7 +395,8 @@ func (g *HtmlGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *HtmlGenerator) expandNowiki(token parser.NowikiToken) string {
-	return token.Content
+	// The content is no wikitext and therefore no HTML either. It has to be visible as it is.
+	return nowikiReplacer.Replace(token.Content)
 }
 
 // write returns the output path or an error.
-- 
2.43.0


From f36a7f2b58618638c7ab57aec12ab25d53d204f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 29/92] fix: keep trailing templates with parameters and don't
 drop templates with similar names

---
 src/parser/cleaner.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 76c5434..7b01180 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -169,13 +169,14 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 			templateName := strings.ToLower(templateNameMatches[1])
 			templateName = strings.TrimSpace(templateName)
 
-			if util.HasAnyPrefix(templateName, ignoreTemplates...) || util.HasAnyPrefix(templateName, trailingTemplates...) {
+			isTrailingTemplate := util.Contains(trailingTemplates, templateName)
+			if util.HasAnyPrefix(templateName, ignoreTemplates...) || isTrailingTemplate {
 				// Replace the template with an empty string, since it should be ignored.
-				content = strings.Replace(content, templateText, "", 1)
+				content = content[:i] + content[closedTemplateIndex+2:]
 
 				// Collect templates that should be moved to the bottom of the article
-				if util.Contains(trailingTemplates, templateName) {
-					foundTrailingTemplates = append(foundTrailingTemplates, templateName)
+				if isTrailingTemplate {
+					foundTrailingTemplates = append(foundTrailingTemplates, templateText)
 				}
 
 				// Because the template was removed, we have to start from the original location again in the next
@@ -187,7 +188,7 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 
 	// Re-add trailing templates to the bottom of the article
 	for _, foundTrailingTemplate := range foundTrailingTemplates {
-		content += "\n{{" + foundTrailingTemplate + "}}"
+		content += "\n" + foundTrailingTemplate
 	}
 
 	return content
-- 
2.43.0


From fc1c97906eb7286e54523f538cc0d516c0627c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 30/92] fix: don't remove lines of text just because they start
 and end with bold text

---
 src/parser/cleaner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 7b01180..de5bff6 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -318,7 +318,7 @@ func (t *Tokenizer) walkSection(i int, lines []string, previousHeadingDepth int)
 func (t *Tokenizer) headingDepth(line string) int {
 	if !strings.HasPrefix(line, "=") || !strings.HasSuffix(line, "=") {
 		// No real heading. But maybe a semi-heading (line with only bold text)?
-		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") {
+		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") && strings.Count(line, "'''") == 2 {
 			return semiHeadingDepth
 		}
 		// Not even semi-heading -> No heading at all
-- 
2.43.0


From 22edb7747d5c09d3f0f26c8d2007f1425bf17d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 31/92] fix: parse indented tables directly after a list as
 tables

---
 src/parser/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/list.go b/src/parser/list.go
index 478acdc..7e97f0a 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -96,7 +96,8 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 	for i := startLineIndex; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
 
-		if !belongsToListPrefix(line, listPrefix) {
+		if !belongsToListPrefix(line, listPrefix) || tableStartRegex.MatchString(line) {
+			// Not part of this list anymore, indented tables (e.g. ":{|") are handled during the table parsing
 			break
 		}
 
-- 
2.43.0


From 3efff577d7fbb47c9f1952096acf3cd723cf18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 32/92] fix: keep the text alignment of table cells when the
 semicolon is missing

---
 src/parser/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 652409a..0f432d2 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -52,7 +52,7 @@ var (
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
 	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align:.+?;`)
+	tableTextAlignRegex     = regexp.MustCompile(`text-align:\s*[^;"'\s]+;?`)
 )
 
 // References
-- 
2.43.0


From d8a1242e62b5ac19146ff1e70d99368cb92e8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 33/92] fix: turn all cells of a heading line into headings

---
 src/parser/table.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 441fb87..f4af781 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -95,12 +95,14 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 func (t *Tokenizer) tokenizeTable(content string) TableToken {
 	// ensure that each entry starts in a new row
 	// The additional space avoids that e.g. the "||-1" turns into the start of a new row "|-". The "!!" is only a
-	// separator in lines with heading cells.
-	content = strings.ReplaceAll(content, "||", "\n| ")
+	// separator in lines with heading cells, where "||" separates heading cells as well.
 	lines := strings.Split(content, "\n")
 	for i, line := range lines {
 		if strings.HasPrefix(strings.TrimSpace(line), "!") {
-			lines[i] = strings.ReplaceAll(line, "!!", "\n! ")
+			line = strings.ReplaceAll(line, "!!", "\n! ")
+			lines[i] = strings.ReplaceAll(line, "||", "\n! ")
+		} else {
+			lines[i] = strings.ReplaceAll(line, "||", "\n| ")
 		}
 	}
 	lines = strings.Split(strings.Join(lines, "\n"), "\n")
-- 
2.43.0


From 3714e0e46c94692754d33e1175babf0f9af55e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 34/92] fix: don't interpret the content of nowiki and math
 elements as templates or links

---
 src/parser/cleaner.go  | 10 ++++++++++
 src/parser/nowiki.go   | 36 +++++++++++++++++++++++++++++++++++-
 src/parser/template.go |  5 +++++
 3 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index de5bff6..a55ceae 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -87,6 +87,11 @@ func startsWithLineEnd(segments []string) bool {
 func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 	// Go through all characters with a 2-char sliding window, hence the "-2".
 	for i := 0; i < len(content)-2; i++ {
+		if endIndex := endOfRawElement(content, i); endIndex > i {
+			i = endIndex - 1
+			continue
+		}
+
 		cursor := content[i : i+2]
 
 		if cursor == "[[" {
@@ -149,6 +154,11 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 	var foundTrailingTemplates []string
 
 	for i := 0; i < len(content)-1; i++ {
+		if endIndex := endOfRawElement(content, i); endIndex > i {
+			i = endIndex - 1
+			continue
+		}
+
 		cursor := content[i : i+2]
 
 		if cursor == "{{" {
diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 3ad5184..835623e 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -1,12 +1,46 @@
 package parser
 
-import "wiki2book/util"
+import (
+	"strings"
+	"wiki2book/util"
+)
 
 type NowikiToken struct {
 	Token
 	Content string
 }
 
+var rawElementNames = []string{"nowiki", "math"}
+
+// endOfRawElement returns the index behind the nowiki or math element starting at the given index. The content of such
+// an element is no wikitext. The given index is returned if no (closed) raw element starts there.
+func endOfRawElement(content string, index int) int {
+	if content[index] != '<' {
+		return index
+	}
+
+	for _, name := range rawElementNames {
+		startTag := "<" + name
+		if len(content) < index+len(startTag) || !util.EqualsIgnoreCase(content[index:index+len(startTag)], startTag) {
+			continue
+		}
+
+		startTagEnd := strings.IndexByte(content[index:], '>')
+		if startTagEnd == -1 || content[index+startTagEnd-1] == '/' {
+			continue
+		}
+
+		endTag := "</" + name + ">"
+		for i := index + startTagEnd; i <= len(content)-len(endTag); i++ {
+			if util.EqualsIgnoreCase(content[i:i+len(endTag)], endTag) {
+				return i + len(endTag)
+			}
+		}
+	}
+
+	return index
+}
+
 func (t *Tokenizer) parseNowiki(content string) string {
 	// The following steps are performed:
 	//   1. Split by the end token "</nowiki>" of nowiki areas
diff --git a/src/parser/template.go b/src/parser/template.go
index aa5dd2d..92d6faf 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -57,6 +57,11 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToContent map[string]string) (string, error) {
 	sigolo.Tracef("Replace template tokens in content '%s'", util.TruncString(content))
 	for i := 0; i < len(content)-templateEndTokenLen; i++ {
+		if endIndex := endOfRawElement(content, i); endIndex > i {
+			i = endIndex - 1
+			continue
+		}
+
 		cursor := content[i : i+templateStartTokenLen]
 
 		if cursor == templateStartToken {
-- 
2.43.0


From 549de9d9aec343c9d1c1fd65b3a76632851a20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 35/92] fix: keep paragraphs that only consist of a link,
 formula or similar separated

---
 src/parser/formatting.go | 5 +++--
 src/parser/pattern.go    | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/formatting.go b/src/parser/formatting.go
index 4ef7e99..e235b68 100644
--- a/src/parser/formatting.go
+++ b/src/parser/formatting.go
@@ -211,7 +211,8 @@ func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []Bol
 
 // parseParagraphs replaces two directly following newlines by a `MARKER_PARAGRAPH` marker. When the line before the two
 // newlines is a line containing a token, the two consecutive newlines do NOT count as a paragraph. This is because we
-// assume a token to be self-contained without the need ot extra space below it.
+// assume a token to be self-contained without the need ot extra space below it. Tokens that are part of the normal text
+// flow (e.g. links) are not self-contained and handled like text.
 func (t *Tokenizer) parseParagraphs(content string) string {
 	oldLines := strings.Split(content, "\n")
 	var resultLines []string
@@ -229,7 +230,7 @@ func (t *Tokenizer) parseParagraphs(content string) string {
 			lineBefore = oldLines[i-1]
 		}
 
-		if tokenLineRegex.MatchString(line) {
+		if tokenLineRegex.MatchString(line) && !inlineTokenLineRegex.MatchString(line) {
 			ignoreEmptyLinesMode = true
 			createParagraphWhenAllowed = false
 			resultLines = append(resultLines, line)
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 0f432d2..492311a 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -25,6 +25,10 @@ const (
 
 var (
 	tokenLineRegex = regexp.MustCompile(TOKEN_LINE_REGEX)
+	// Lines that only consist of a token that belongs to the normal text flow
+	inlineTokenLineRegex = regexp.MustCompile(`^\$\$TOKEN_(` + strings.Join([]string{
+		TOKEN_INTERNAL_LINK, TOKEN_EXTERNAL_LINK, TOKEN_IMAGE_INLINE, TOKEN_REF_USAGE, TOKEN_MATH, TOKEN_NOWIKI, TOKEN_STRING,
+	}, "|") + `)_\d+\$\$$`)
 )
 
 // Categories, templates, unwanted HTML
-- 
2.43.0


From 12c2210ba23653d7fdbd3224a2d89ca342fe908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 36/92] fix: don't add paragraphs around indented tables

---
 src/parser/table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index f4af781..2837aee 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -46,7 +46,11 @@ func (t *Tokenizer) parseTables(content string) string {
 
 			var newLines []string
 			newLines = append(newLines, lines[:i]...)
-			newLines = append(newLines, listPrefix+token)
+			if listPrefix != "" {
+				// Indented table: The list with this table has to be self-contained, just as the table itself
+				_, token, _ = t.tokenizeList([]string{listPrefix + token}, 0, ":")
+			}
+			newLines = append(newLines, token)
 			if i+length+1 < len(lines) {
 				newLines = append(newLines, lines[i+length+1:]...)
 			}
-- 
2.43.0


From 8bb0d54e54d270eb72877a21ec7eed84f8495e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 37/92] fix: don't turn link texts, headings and list items
 starting with e.g. "#" into lists

---
 src/parser/heading.go   |  2 +-
 src/parser/link.go      |  6 +++---
 src/parser/list.go      |  8 ++++----
 src/parser/tokenizer.go | 15 +++++++++++++++
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/parser/heading.go b/src/parser/heading.go
index 2e5bc82..d848d12 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -26,7 +26,7 @@ func (t *Tokenizer) parseHeadings(content string) string {
 
 				token := t.getToken(TOKEN_HEADING)
 				t.setRawToken(token, HeadingToken{
-					Content: t.tokenizeContent(t, headingText),
+					Content: t.tokenizeInlineContent(headingText),
 					Depth:   depth,
 				})
 				lines[i] = token
diff --git a/src/parser/link.go b/src/parser/link.go
index 91a9d72..4b364ff 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -120,7 +120,7 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		if linkType == LINK_TYPE_INTERNAL {
 			token = InternalLinkToken{
 				ArticleName: linkTarget,
-				LinkText:    t.tokenizeContent(t, linkText),
+				LinkText:    t.tokenizeInlineContent(linkText),
 			}
 			linkTokenKey = TOKEN_INTERNAL_LINK
 		} else if linkType == LINK_TYPE_EXTERNAL {
@@ -129,12 +129,12 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 			if util.HasAnyPrefix(linkTarget, "http://", "https://") {
 				token = ExternalLinkToken{
 					URL:      linkTarget,
-					LinkText: t.tokenizeContent(t, linkText),
+					LinkText: t.tokenizeInlineContent(linkText),
 				}
 				linkTokenKey = TOKEN_EXTERNAL_LINK
 			} else if strings.Contains(linkTarget, "://") {
 				token = StringToken{
-					String: t.tokenizeContent(t, linkText),
+					String: t.tokenizeInlineContent(linkText),
 				}
 				linkTokenKey = TOKEN_STRING
 			}
diff --git a/src/parser/list.go b/src/parser/list.go
index 7e97f0a..98559a1 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -167,7 +167,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 				// Description list head -> also check for description list item in the same line
 				lineParts := strings.SplitN(line[1:], ":", 2)
 
-				headPart := t.tokenizeContent(t, lineParts[0])
+				headPart := t.tokenizeInlineContent(lineParts[0])
 				headToken := ListItemToken{
 					Type:    DESCRIPTION_HEAD,
 					Content: headPart,
@@ -176,7 +176,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 
 				if len(lineParts) > 1 {
 					// There's a description list item after the heading -> Create separate token for that
-					itemPart := t.tokenizeContent(t, lineParts[1])
+					itemPart := t.tokenizeInlineContent(lineParts[1])
 					itemToken := ListItemToken{
 						Type:    DESCRIPTION_ITEM,
 						Content: itemPart,
@@ -187,12 +187,12 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 				// Description list item
 				itemToken := ListItemToken{
 					Type:    DESCRIPTION_ITEM,
-					Content: t.tokenizeContent(t, line[1:]),
+					Content: t.tokenizeInlineContent(line[1:]),
 				}
 				allListItemTokens = append(allListItemTokens, itemToken)
 			} else {
 				// Normal list item
-				tokenizedLine := t.tokenizeContent(t, line[1:])
+				tokenizedLine := t.tokenizeInlineContent(line[1:])
 				lineToken := ListItemToken{
 					Type:    NORMAL_ITEM,
 					Content: tokenizedLine,
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 0658925..2c2ece9 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"strings"
 	"wiki2book/wikipedia"
 
 	"github.com/hauke96/sigolo/v2"
@@ -133,6 +134,20 @@ func (t *Tokenizer) setRawToken(key string, tokenContent interface{}) {
 	t.tokenMap[key] = tokenContent
 }
 
+// tokenizeInlineContent tokenizes text that is part of a line, e.g. the text of a link. In contrast to whole lines, such
+// text can't be a list, so it's no problem when it starts with e.g. a "#".
+func (t *Tokenizer) tokenizeInlineContent(content string) string {
+	trimmedContent := strings.TrimSpace(content)
+	if trimmedContent == "" || !isListStartingCharacter(trimmedContent[0]) || strings.Contains(trimmedContent, "\n") {
+		return t.tokenizeContent(t, content)
+	}
+
+	// Tokenize everything without the characters that would start a list.
+	text := strings.TrimLeft(trimmedContent, "*#:; \t")
+	prefix := content[:strings.Index(content, trimmedContent)] + strings.TrimSuffix(trimmedContent, text)
+	return prefix + t.tokenizeContent(t, text)
+}
+
 // tokenizeContent takes a string and tokenizes it. After this call, the Tokenizer.tokenMap will be filled and parts
 // of the input will be replaced by token strings.
 func tokenizeContent(t *Tokenizer, content string) string {
-- 
2.43.0


From 189f92a6e5e57b43910f328e4bd267773fc5c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 38/92] fix: close list items with explicit number and
 sub-lists

---
 src/generator/html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 1e2e5d5..d4eac0e 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -342,7 +342,7 @@ func (g *HtmlGenerator) expandListItem(token parser.ListItemToken) (string, erro
 			// item of the manual HTML within this list might contain additional arguments, so we use their item
 			// instead of the item from the template.
 			template = "%s"
-			if !strings.Contains(listItemString, "</li") {
+			if !strings.Contains(listItemContent, "</li") {
 				template += "</li>"
 			}
 		} else {
-- 
2.43.0


From 8a710121564f15529e7d4621ccb565a1e8d0b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 39/92] fix: don't fail on templates that are not closed

---
 src/parser/hacks.go    | 7 +++++--
 src/parser/template.go | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/hacks.go b/src/parser/hacks.go
index d377cbf..f60c7e1 100644
--- a/src/parser/hacks.go
+++ b/src/parser/hacks.go
@@ -1,7 +1,9 @@
 package parser
 
 import (
-	"github.com/pkg/errors"
+	"wiki2book/util"
+
+	"github.com/hauke96/sigolo/v2"
 )
 
 /*
@@ -38,7 +40,8 @@ func (t *Tokenizer) hackGermanRailwayTemplates(content string, startIndex int) (
 			// Find the end "|}" to remove the both lines
 			endIndex := FindCorrespondingCloseToken(content, i+slidingWindowSize, startToken, endToken)
 			if endIndex == -1 {
-				return "", errors.Errorf("Found %s but no corresponding %s. I'll ignore this but something's wrong with the input wikitext!", startToken, endToken)
+				sigolo.Warnf("Found %s but no corresponding %s. I'll ignore this but something's wrong with the input wikitext! Text around this location: ...%s...", startToken, endToken, util.GetTextAround(content, i, 50))
+				continue
 			}
 
 			// Remove end token
diff --git a/src/parser/template.go b/src/parser/template.go
index 92d6faf..4c19231 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -6,7 +6,6 @@ import (
 	"wiki2book/util"
 
 	"github.com/hauke96/sigolo/v2"
-	"github.com/pkg/errors"
 )
 
 const templatePlaceholderPrefix = "$$TEMPLATE_PLACEHOLDER_"
@@ -67,7 +66,8 @@ func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToC
 		if cursor == templateStartToken {
 			endIndex := FindCorrespondingCloseToken(content, i+templateStartTokenLen, templateStartToken, templateEndToken)
 			if endIndex == -1 {
-				return "", errors.Errorf("Found %s but no corresponding %s. I'll ignore this but something's wrong with the input wikitext!", templateStartToken, templateEndToken)
+				sigolo.Warnf("Found %s but no corresponding %s. I'll ignore this but something's wrong with the input wikitext! Text around this location: ...%s...", templateStartToken, templateEndToken, util.GetTextAround(content, i, 50))
+				continue
 			}
 
 			originalTemplateText := content[i : endIndex+templateEndTokenLen]
-- 
2.43.0


From 4b63b673a1c4be692739fe675c62c1a5748e2e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 40/92] fix: only remove or replace links and images with two
 closing brackets

---
 src/parser/cleaner.go | 2 +-
 src/parser/image.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index a55ceae..e3a00bd 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -96,7 +96,7 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 
 		if cursor == "[[" {
 			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
-			if endIndex == -1 || endIndex+2 > len(content) {
+			if endIndex == -1 || !strings.HasPrefix(content[endIndex:], "]]") {
 				// Link is not (completely) closed -> leave the text as it is
 				continue
 			}
diff --git a/src/parser/image.go b/src/parser/image.go
index e16d16d..5b66f3d 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -227,7 +227,7 @@ func (t *Tokenizer) parseImages(content string) string {
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
-		if endIndex == -1 || endIndex+2 > len(content) {
+		if endIndex == -1 || !strings.HasPrefix(content[endIndex:], "]]") {
 			// Image is not (completely) closed -> leave the text as it is
 			break
 		}
-- 
2.43.0


From c04e2081447cd006289869f99be79c8d7710d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 41/92] fix: find images behind unclosed links and for all
 configured file prefixes

---
 src/parser/image.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 5b66f3d..7ec9dea 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -223,22 +223,21 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 func (t *Tokenizer) parseImages(content string) string {
 	var err error
 
-	startIndex := internalLinkStartRegex.FindStringIndex(content)
+	startIndex := findImageStart(content, 0)
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
 		if endIndex == -1 || !strings.HasPrefix(content[endIndex:], "]]") {
 			// Image is not (completely) closed -> leave the text as it is
-			break
+			startIndex = findImageStart(content, startIndex[1])
+			continue
 		}
 
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
-		imageContent = t.escapeImages(imageContent)
-
-		filePrefix := strings.ToLower(strings.SplitN(imageContent, ":", 2)[0])
+		imageContent = t.escapeImages("File:" + imageContent)
 
-		if imageContent == "" || !util.Contains(config.Current.FilePrefixes, filePrefix) {
+		if imageContent == "" {
 			content = content[0:startIndex[0]] + content[endIndex+2:]
 		} else {
 			options := strings.Split(imageContent, "|")
@@ -327,8 +326,29 @@ func (t *Tokenizer) parseImages(content string) string {
 		}
 
 		// Find next image
-		startIndex = internalLinkStartRegex.FindStringIndex(content)
+		startIndex = findImageStart(content, startIndex[0])
 	}
 
 	return content
 }
+
+// findImageStart returns the start and end index of the next image start (e.g. "[[File:") with a configured prefix at or
+// after the given index. Returns nil if there's none.
+func findImageStart(content string, index int) []int {
+	for index < len(content) {
+		match := internalLinkStartRegex.FindStringSubmatchIndex(content[index:])
+		if match == nil {
+			return nil
+		}
+
+		// The match might start with an unclosed link, so only the part behind the last opening brackets is relevant.
+		start, end := index+match[0], index+match[1]
+		start += strings.LastIndex(content[start:end], "[[")
+		prefix := strings.ToLower(strings.TrimSpace(content[start+2 : end-1]))
+		if util.Contains(config.Current.FilePrefixes, prefix) {
+			return []int{start, end}
+		}
+		index = end
+	}
+	return nil
+}
-- 
2.43.0


From c0e95927810c1a876c6b2449d5683ca6d94ed59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 42/92] fix: end the URL of external links at formatting and
 other elements

---
 src/parser/link.go    | 5 +++++
 src/parser/pattern.go | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/parser/link.go b/src/parser/link.go
index 4b364ff..82f29e6 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -127,6 +127,11 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 			// See https://www.mediawiki.org/wiki/API:Extlinks property "elprotocol" for all possible values that are
 			// supported by MediaWiki. However, these are the most likely ones:
 			if util.HasAnyPrefix(linkTarget, "http://", "https://") {
+				// Everything from the first character on that isn't allowed in a URL belongs to the text.
+				if endMatch := externalUrlEndRegex.FindStringIndex(linkTarget); endMatch != nil {
+					linkText = linkTarget[endMatch[0]:] + linkDelimiter + linkText
+					linkTarget = linkTarget[:endMatch[0]]
+				}
 				token = ExternalLinkToken{
 					URL:      linkTarget,
 					LinkText: t.tokenizeInlineContent(linkText),
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 492311a..9f640d5 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -40,6 +40,8 @@ var (
 // Links
 var (
 	internalLinkStartRegex = regexp.MustCompile(`(?s)\[\[([^]]+?):`)
+	// Tokens, markers and characters that are not part of a URL
+	externalUrlEndRegex = regexp.MustCompile(`\$\$(TOKEN|MARKER)_|["<>\[]`)
 )
 
 // Media files
-- 
2.43.0


From 382342d7bbf1a6001ef6be175fbbcfb367a3f868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 43/92] fix: don't use formatting within cell attributes as
 part of the text alignment

---
 src/parser/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 9f640d5..009aee3 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -58,7 +58,7 @@ var (
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
 	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align:\s*[^;"'\s]+;?`)
+	tableTextAlignRegex     = regexp.MustCompile(`text-align:\s*[^;"'$\s]+;?`)
 )
 
 // References
-- 
2.43.0


From bca123532d535cdaadb151dc6a4ee0269e66e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 44/92] fix: don't try all combinations of bold and italic when
 something is not closed

---
 src/parser/formatting.go | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/parser/formatting.go b/src/parser/formatting.go
index e235b68..41c30af 100644
--- a/src/parser/formatting.go
+++ b/src/parser/formatting.go
@@ -22,6 +22,14 @@ type BoldItalicStackItem struct {
 	length   int
 }
 
+// boldItalicState contains everything the outcome of the parsing at a certain index depends on.
+type boldItalicState struct {
+	index        int
+	lastItemType BoldItalicStackItemType
+	isBoldOpen   bool
+	isItalicOpen bool
+}
+
 func (t *Tokenizer) parseBoldAndItalic(content string) string {
 	var success bool
 	index := 0
@@ -42,13 +50,15 @@ func (t *Tokenizer) parseBoldAndItalic(content string) string {
 		}
 
 		var stack []BoldItalicStackItem
+		failedStates := map[boldItalicState]bool{}
 		// First try everything without repairing crossovers. Crossovers can happen even if a normal solution is possible.
-		success, stack = t.tokenizeBoldAndItalic(content, index, stack, false, false, false)
+		success, stack = t.tokenizeBoldAndItalic(content, index, stack, failedStates, false, false, false)
 		if !success {
 			sigolo.Warnf("Unable to parse bold and italic tags WITHOUT repairing crossovers in: %s. I'll try it again with repairing crossovers enabled.", util.TruncString(content))
 			stack = []BoldItalicStackItem{}
+			failedStates = map[boldItalicState]bool{}
 			// Okay, not try to repair crossovers.
-			success, stack = t.tokenizeBoldAndItalic(content, index, stack, true, false, false)
+			success, stack = t.tokenizeBoldAndItalic(content, index, stack, failedStates, true, false, false)
 
 			if !success {
 				sigolo.Warnf("Unable to parse bold and italic tags EVEN WITH repairing crossovers in: %s. I'll just use the raw content.", util.TruncString(content))
@@ -93,7 +103,26 @@ func (t *Tokenizer) parseBoldAndItalic(content string) string {
 
 // tokenizeBoldAndItalic takes the content, an index in that content, if this index is currently in a bold or italic
 // block and a stack to parse the content for bold and italic blocks. It returns a success-bool and the resulting stack.
-func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []BoldItalicStackItem, repairCrossovers, isBoldOpen, isItalicOpen bool) (bool, []BoldItalicStackItem) {
+// States that are known to fail are stored in the given map, because otherwise the number of recursive calls would grow
+// exponentially with the number of tokens when something is not closed.
+func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []BoldItalicStackItem, failedStates map[boldItalicState]bool, repairCrossovers, isBoldOpen, isItalicOpen bool) (bool, []BoldItalicStackItem) {
+	if len(stack) == 0 {
+		return t.tokenizeBoldAndItalicInternal(content, index, stack, failedStates, repairCrossovers, isBoldOpen, isItalicOpen)
+	}
+
+	state := boldItalicState{index: index, lastItemType: stack[len(stack)-1].itemType, isBoldOpen: isBoldOpen, isItalicOpen: isItalicOpen}
+	if failedStates[state] {
+		return false, stack
+	}
+
+	success, newStack := t.tokenizeBoldAndItalicInternal(content, index, stack, failedStates, repairCrossovers, isBoldOpen, isItalicOpen)
+	if !success {
+		failedStates[state] = true
+	}
+	return success, newStack
+}
+
+func (t *Tokenizer) tokenizeBoldAndItalicInternal(content string, index int, stack []BoldItalicStackItem, failedStates map[boldItalicState]bool, repairCrossovers, isBoldOpen, isItalicOpen bool) (bool, []BoldItalicStackItem) {
 	// The idea of this approach:
 	// Find the next possible match for a start/stop of an italic/bold block. Put that item on the stack (e.g.
 	// BOLD_START), increase the index and recursively move on to further parse the content. Whenever something's
@@ -136,7 +165,7 @@ func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []Bol
 			}
 
 			if continueParsingAsItalicToken {
-				success, newStack := t.tokenizeBoldAndItalic(content, index+2, newStack, repairCrossovers, isBoldOpen, !isItalicOpen)
+				success, newStack := t.tokenizeBoldAndItalic(content, index+2, newStack, failedStates, repairCrossovers, isBoldOpen, !isItalicOpen)
 
 				if success {
 					// path went well -> end recursion and return
@@ -171,7 +200,7 @@ func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []Bol
 				}
 			}
 
-			success, newStack := t.tokenizeBoldAndItalic(content, index+3, newStack, repairCrossovers, !isBoldOpen, isItalicOpen)
+			success, newStack := t.tokenizeBoldAndItalic(content, index+3, newStack, failedStates, repairCrossovers, !isBoldOpen, isItalicOpen)
 
 			if success {
 				// path went well -> end recursion and return
-- 
2.43.0


From d26713754f06e57949dd4fede1d79fa350495f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 45/92] fix: formatting that is not closed only affects its own
 line

---
 src/parser/formatting.go | 49 ++++++++++++++++++++++++++++++++++++++++
 src/parser/pattern.go    |  6 +++++
 2 files changed, 55 insertions(+)

diff --git a/src/parser/formatting.go b/src/parser/formatting.go
index 41c30af..ff564dc 100644
--- a/src/parser/formatting.go
+++ b/src/parser/formatting.go
@@ -30,7 +30,56 @@ type boldItalicState struct {
 	isItalicOpen bool
 }
 
+// parseBoldAndItalic replaces all bold and italic tokens by markers. Formatting never goes beyond the end of a line, so
+// that a missing closing token doesn't influence the rest of the content.
 func (t *Tokenizer) parseBoldAndItalic(content string) string {
+	if !strings.Contains(content, "''") {
+		return content
+	}
+
+	lines := splitIntoFormattingLines(content)
+	for i, line := range lines {
+		lines[i] = t.parseBoldAndItalicOfLine(line)
+	}
+	return strings.Join(lines, "\n")
+}
+
+// splitIntoFormattingLines splits the content at all line breaks that are not part of a link, image or reference.
+func splitIntoFormattingLines(content string) []string {
+	var lines []string
+	lineStart := 0
+	linkDepth := 0
+	refDepth := 0
+
+	for i := 0; i < len(content); i++ {
+		remainingContent := content[i:]
+		switch {
+		case strings.HasPrefix(remainingContent, "[["):
+			linkDepth++
+			i++
+		case strings.HasPrefix(remainingContent, "]]") && linkDepth > 0:
+			linkDepth--
+			i++
+		case content[i] == '<' && formattingRefStartRegex.MatchString(remainingContent):
+			if tagEnd := strings.Index(remainingContent, ">"); tagEnd > 0 && remainingContent[tagEnd-1] != '/' {
+				refDepth++
+			}
+		case content[i] == '<' && refDepth > 0 && formattingRefEndRegex.MatchString(remainingContent):
+			refDepth--
+		case content[i] == '\n' && linkDepth == 0 && refDepth == 0:
+			lines = append(lines, content[lineStart:i])
+			lineStart = i + 1
+		}
+	}
+
+	if linkDepth != 0 || refDepth != 0 {
+		// Something is not closed, so it doesn't hold the following lines together.
+		return append(lines, strings.Split(content[lineStart:], "\n")...)
+	}
+	return append(lines, content[lineStart:])
+}
+
+func (t *Tokenizer) parseBoldAndItalicOfLine(content string) string {
 	var success bool
 	index := 0
 
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 009aee3..575fc1d 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -54,6 +54,12 @@ var (
 	hasNonInlineParameterRegex = regexp.MustCompile(`(?i)\|\s*` + nonInlineParameterPattern + `(\||$)`)
 )
 
+// Formatting
+var (
+	formattingRefStartRegex = regexp.MustCompile(`^(?i)<ref[\s/>]`)
+	formattingRefEndRegex   = regexp.MustCompile(`^(?i)</ref`)
+)
+
 // Tables
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
-- 
2.43.0


From 86f27566d453920194251378aed3d710edfc3faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 46/92] fix: external links end at the end of their line

---
 src/parser/link.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/link.go b/src/parser/link.go
index 82f29e6..350d778 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -79,6 +79,12 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		}
 
 		possibleLinkWikitext := segments[0]
+		if linkType == LINK_TYPE_EXTERNAL && strings.Contains(possibleLinkWikitext, "\n") {
+			// External links can't have multiple lines, so the brackets do not belong together.
+			resultSegments = append(resultSegments, openingBrackets)
+			resultSegments = append(resultSegments, splitItem)
+			continue
+		}
 
 		wikitextElements := strings.Split(possibleLinkWikitext, linkDelimiter)
 		linkTarget := wikitextElements[0]
-- 
2.43.0


From f168735d94137eb19b92295d8f96901d54acb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 47/92] fix: don't use closing brackets within nowiki and math
 elements

---
 src/parser/util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/util.go b/src/parser/util.go
index c5b0a2e..54fd13c 100644
--- a/src/parser/util.go
+++ b/src/parser/util.go
@@ -28,6 +28,12 @@ func findCorrespondingCloseToken(content string, startIndex int, openingToken st
 	contentSize := len(content)
 
 	for i := startIndex; i < contentSize; i++ {
+		// The content of raw elements (e.g. nowiki) is no wikitext and therefore cannot open or close anything
+		if endIndex := endOfRawElement(content, i); endIndex > i && openingToken[0] != '<' {
+			i = endIndex - 1
+			continue
+		}
+
 		cursorOpeningToken := ""
 		cursorClosingToken := ""
 
-- 
2.43.0


From 42be89d26fda8b2b3b4e4e7e8030dc495733b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 48/92] fix: don't treat closing tags without opening tag as
 references

---
 src/parser/reference.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 63a674b..50f4908 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -95,6 +95,9 @@ func (t *Tokenizer) parseReferences(content string) string {
 			currentPlaceholderGroup = t.getGroupOrDefault(content[i:startEndIndex])
 			content = content[0:i] + content[startEndIndex+1:] // Remove tag from content
 			cursorWithinReferencePlaceholder = true
+		} else if util.EqualsIgnoreCase(cursor, refPlaceholderEnd) {
+			// Closing tag like "</ref>" without an opening tag -> broken wikitext
+			sigolo.Errorf("Found closing tag without opening tag. Text around this location: ...%s...", util.GetTextAround(content, i, 50))
 		} else {
 			// Tag like "<ref name=..." or "<ref>..." found
 			nameAttributeValue := t.getNameAttribute(content[i+refDefStartLen : startEndIndex])
-- 
2.43.0


From f3be8ee3277992f2f70f5c0b3bd59e92c15cf927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 49/92] fix: search for the end of raw elements efficiently

---
 src/parser/nowiki.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 835623e..9e29620 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -32,6 +32,11 @@ func endOfRawElement(content string, index int) int {
 
 		endTag := "</" + name + ">"
 		for i := index + startTagEnd; i <= len(content)-len(endTag); i++ {
+			nextTagIndex := strings.Index(content[i:], "</")
+			if nextTagIndex == -1 || i+nextTagIndex > len(content)-len(endTag) {
+				break
+			}
+			i += nextTagIndex
 			if util.EqualsIgnoreCase(content[i:i+len(endTag)], endTag) {
 				return i + len(endTag)
 			}
-- 
2.43.0


From 96fb7c99652bc1e7c52680b4b7e154e938fa8a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 50/92] fix: don't loop endlessly when a template changes the
 result of an inner template

---
 src/parser/template.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/template.go b/src/parser/template.go
index 4c19231..aca9e19 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -36,6 +36,7 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 	sigolo.Debugf("Replace %d template placeholder with evaluated content", len(placeholderToContent))
 	for strings.Contains(content, templatePlaceholderPrefix) {
 		sigolo.Tracef("Check content for template placeholders (%d remain)", len(placeholderToContent))
+		foundPlaceholder := false
 
 		for key, template := range placeholderToContent {
 			placeholder := fmt.Sprintf(templatePlaceholderTemplate, key)
@@ -43,10 +44,17 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 			sigolo.Tracef("Check template placeholder %s -> content contains placeholder? %v", key, containsPlaceholder)
 
 			if containsPlaceholder {
+				foundPlaceholder = true
 				content = strings.ReplaceAll(content, placeholder, template)
 				sigolo.Tracef("Replaced template placeholder %s in content", key)
 			}
 		}
+
+		if !foundPlaceholder {
+			// E.g. when a template shortened its parameter, which was a placeholder.
+			sigolo.Warnf("Content contains template placeholders without template, which cannot be replaced")
+			break
+		}
 	}
 	sigolo.Debug("Finished replacing template placeholders. Template handling done.")
 
-- 
2.43.0


From 62bf242ed53f8863005af37e3ec73f55b20bb38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 51/92] fix: formatting may continue in the next line of a
 paragraph

---
 src/parser/formatting.go | 48 +++++++++++++++++++++++++++++++++++-----
 src/parser/pattern.go    |  3 +++
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/parser/formatting.go b/src/parser/formatting.go
index ff564dc..f952a8d 100644
--- a/src/parser/formatting.go
+++ b/src/parser/formatting.go
@@ -38,10 +38,45 @@ func (t *Tokenizer) parseBoldAndItalic(content string) string {
 	}
 
 	lines := splitIntoFormattingLines(content)
-	for i, line := range lines {
-		lines[i] = t.parseBoldAndItalicOfLine(line)
+	var parsedLines []string
+	for i := 0; i < len(lines); i++ {
+		parsedLine, success := t.parseBoldAndItalicOfText(lines[i])
+		parsedLines = append(parsedLines, parsedLine)
+		if success {
+			continue
+		}
+
+		// Something is not closed in this line. Maybe it is closed in one of the next lines of this paragraph, in which
+		// something is not opened then.
+		lastLine := i
+		parsedFollowingLines := []string{}
+		for j := i + 1; j < len(lines) && isSameFormattingParagraph(lines[j-1], lines[j]); j++ {
+			parsedLine, success = t.parseBoldAndItalicOfText(lines[j])
+			parsedFollowingLines = append(parsedFollowingLines, parsedLine)
+			if !success {
+				lastLine = j
+			} else if strings.Contains(lines[j], "''") {
+				break
+			}
+		}
+		if lastLine == i {
+			continue
+		}
+
+		joinedLines, success := t.parseBoldAndItalicOfText(strings.Join(lines[i:lastLine+1], "\n"))
+		if success {
+			parsedLines[len(parsedLines)-1] = joinedLines
+		} else {
+			parsedLines = append(parsedLines, parsedFollowingLines[:lastLine-i]...)
+		}
+		i = lastLine
 	}
-	return strings.Join(lines, "\n")
+	return strings.Join(parsedLines, "\n")
+}
+
+// isSameFormattingParagraph returns true if the two consecutive lines are simple text of the same paragraph.
+func isSameFormattingParagraph(line string, nextLine string) bool {
+	return !formattingParagraphEndRegex.MatchString(line) && !formattingParagraphStartRegex.MatchString(nextLine)
 }
 
 // splitIntoFormattingLines splits the content at all line breaks that are not part of a link, image or reference.
@@ -79,7 +114,8 @@ func splitIntoFormattingLines(content string) []string {
 	return append(lines, content[lineStart:])
 }
 
-func (t *Tokenizer) parseBoldAndItalicOfLine(content string) string {
+// parseBoldAndItalicOfText returns the content with markers and whether all formatting of the content is closed.
+func (t *Tokenizer) parseBoldAndItalicOfText(content string) (string, bool) {
 	var success bool
 	index := 0
 
@@ -111,7 +147,7 @@ func (t *Tokenizer) parseBoldAndItalicOfLine(content string) string {
 
 			if !success {
 				sigolo.Warnf("Unable to parse bold and italic tags EVEN WITH repairing crossovers in: %s. I'll just use the raw content.", util.TruncString(content))
-				return content
+				return content, false
 			}
 		}
 
@@ -147,7 +183,7 @@ func (t *Tokenizer) parseBoldAndItalicOfLine(content string) string {
 		content = string(chars)
 	}
 
-	return content
+	return content, true
 }
 
 // tokenizeBoldAndItalic takes the content, an index in that content, if this index is currently in a bold or italic
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 575fc1d..3b31ff2 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -58,6 +58,9 @@ var (
 var (
 	formattingRefStartRegex = regexp.MustCompile(`^(?i)<ref[\s/>]`)
 	formattingRefEndRegex   = regexp.MustCompile(`^(?i)</ref`)
+
+	formattingParagraphStartRegex = regexp.MustCompile(`^\s*($|[*#:;=!]|\||\{\|)`)
+	formattingParagraphEndRegex   = regexp.MustCompile(`^\s*($|[*#:;=]|\|-|\{\|)`)
 )
 
 // Tables
-- 
2.43.0


From e1bc450a1f13cba44a13f41d0060c7e925893ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 52/92] fix: formatting never continues behind the end of a
 paragraph

---
 src/parser/pattern.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 3b31ff2..5867311 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -59,8 +59,9 @@ var (
 	formattingRefStartRegex = regexp.MustCompile(`^(?i)<ref[\s/>]`)
 	formattingRefEndRegex   = regexp.MustCompile(`^(?i)</ref`)
 
-	formattingParagraphStartRegex = regexp.MustCompile(`^\s*($|[*#:;=!]|\||\{\|)`)
-	formattingParagraphEndRegex   = regexp.MustCompile(`^\s*($|[*#:;=]|\|-|\{\|)`)
+	formattingBlockTokenPattern   = `\$\$(MARKER_PARAGRAPH|TOKEN_(HEADING|TABLE|[A-Z]+_LIST|IMAGE|REF_DEF))`
+	formattingParagraphStartRegex = regexp.MustCompile(`^\s*($|[*#:;=!]|\||\{\||` + formattingBlockTokenPattern + `)`)
+	formattingParagraphEndRegex   = regexp.MustCompile(`^\s*($|[*#:;=]|\|-|\{\||` + formattingBlockTokenPattern + `)`)
 )
 
 // Tables
-- 
2.43.0


From 8db4f0bfe9d7287901ce3378483a802581e2654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 53/92] fix: include articles that are listed multiple times in
 a project at each of their positions

---
 src/main.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/main.go b/src/main.go
index fb41139..d1b0280 100644
--- a/src/main.go
+++ b/src/main.go
@@ -345,7 +345,7 @@ func generateBookFromArticles(project *config.Project) {
 	numberOfArticles := len(articles)
 	articleOutputFiles := make([]string, numberOfArticles)
 
-	articleChan := make(chan string, config.Current.WorkerThreads)
+	articleChan := make(chan int, config.Current.WorkerThreads)
 	sigolo.Debugf("Use %d worker threads to process the articles", config.Current.WorkerThreads)
 
 	wikipediaService := wikipedia.NewWikipediaService(
@@ -367,16 +367,10 @@ func generateBookFromArticles(project *config.Project) {
 		sigolo.Debugf("Start worker thread %d", i)
 
 		go func(threadNumber int) {
-			for articleName := range articleChan {
+			for articleNumber := range articleChan {
+				articleName := articles[articleNumber]
 				sigolo.Debugf("Processing article %s on thread %d", articleName, threadNumber)
 
-				articleNumber := 0
-				for ; articleNumber < len(articles); articleNumber++ {
-					if articleName == articles[articleNumber] {
-						break
-					}
-				}
-
 				thisArticleOutputFile := processArticle(articleName, articleNumber+1, numberOfArticles, wikipediaService)
 				articleOutputFiles[articleNumber] = thisArticleOutputFile
 			}
@@ -387,9 +381,9 @@ func generateBookFromArticles(project *config.Project) {
 		}(i)
 	}
 
-	for _, articleName := range articles {
+	for articleNumber, articleName := range articles {
 		sigolo.Debugf("Pass article %s to worker threads", articleName)
-		articleChan <- articleName
+		articleChan <- articleNumber
 	}
 	close(articleChan)
 
-- 
2.43.0


From 04b7d188a2cb0bbaac7bb004d062a5ba0ba9e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 54/92] fix: use an existing HTML file of an article instead of
 no file

---
 src/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.go b/src/main.go
index d1b0280..42ea96b 100644
--- a/src/main.go
+++ b/src/main.go
@@ -426,6 +426,10 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 	articleOutputFile := ""
 	if !shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
 		sigolo.Debugf("Article '%s' (%d/%d): HTML for article does already exist. Skip parsing and HTML generation.", articleName, currentArticleNumber, totalNumberOfArticles)
+
+		var err error
+		articleOutputFile, err = util.ToAbsolutePath(htmlFilePath)
+		sigolo.FatalCheck(err)
 	} else {
 		sigolo.Debugf("Article '%s' (%d/%d): Download article", articleName, currentArticleNumber, totalNumberOfArticles)
 		wikiArticleDto, err := wikipediaService.DownloadArticle(wikipediaArticleHost, articleName)
-- 
2.43.0


From b3f89108422fe393c78f845823654f1ea89d02b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 55/92] fix: use the default output file when neither project
 nor CLI specify one

---
 src/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.go b/src/main.go
index 42ea96b..526b0d0 100644
--- a/src/main.go
+++ b/src/main.go
@@ -248,6 +248,10 @@ func generateProjectEbook(projectFile string, outputFile string) {
 		proj.OutputFile = outputFile
 	}
 
+	if proj.OutputFile == "" {
+		proj.OutputFile = defaultEpubOutputFile
+	}
+
 	sigolo.Debug("Turn output file path into absolute path")
 	proj.OutputFile, err = util.ToAbsolutePath(proj.OutputFile)
 	sigolo.FatalCheck(err)
-- 
2.43.0


From 71ba0a0f4b84369c291374ee8fe5f1c5b9c7397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 56/92] fix: support statistics as output of the standalone
 command

---
 src/main.go | 92 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 49 insertions(+), 43 deletions(-)

diff --git a/src/main.go b/src/main.go
index 526b0d0..3ae6f30 100644
--- a/src/main.go
+++ b/src/main.go
@@ -295,15 +295,9 @@ func generateStandaloneEbook(inputFile string, outputFile string) {
 	err = wikipediaService.DownloadImages(article.Images)
 	sigolo.FatalCheck(err)
 
-	// TODO Adjust this when additional non-epub output types are supported.
-	htmlFilePath := path.Join(cache.HtmlCacheDirName, article.Title+".html")
-	if shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
-		htmlGenerator := &generator.HtmlGenerator{
-			TokenMap:         article.TokenMap,
-			WikipediaService: wikipediaService,
-		}
-		htmlFilePath, err = htmlGenerator.Generate(article)
-		sigolo.FatalCheck(err)
+	articleOutputFile := path.Join(cache.HtmlCacheDirName, article.Title+".html")
+	if shouldRecreateHtml(articleOutputFile, config.Current.ForceRegenerateHtml) {
+		articleOutputFile = generateArticleOutput(article, wikipediaService)
 	}
 
 	sigolo.Infof("Start generating %s file", config.Current.OutputType)
@@ -311,8 +305,7 @@ func generateStandaloneEbook(inputFile string, outputFile string) {
 		Title: title,
 	}
 
-	err = generator.GenerateEpub([]string{htmlFilePath}, outputFile, metadata)
-	sigolo.FatalCheck(err)
+	generateOutputFile([]string{articleOutputFile}, outputFile, metadata)
 
 	err = os.RemoveAll(cache.GetTempPath())
 	if err != nil {
@@ -397,18 +390,7 @@ func generateBookFromArticles(project *config.Project) {
 	sigolo.Debugf("Worker threads are done processing articles")
 
 	sigolo.Infof("Start generating %s file", config.Current.OutputType)
-	switch config.Current.OutputType {
-	case config.OutputTypeEpub2:
-		fallthrough
-	case config.OutputTypeEpub3:
-		err := generator.GenerateEpub(articleOutputFiles, outputFile, metadata)
-		sigolo.FatalCheck(err)
-	case config.OutputTypeStatsJson:
-		fallthrough
-	case config.OutputTypeStatsTxt:
-		err := generator.GenerateCombinedStats(articleOutputFiles, outputFile)
-		sigolo.FatalCheck(err)
-	}
+	generateOutputFile(articleOutputFiles, outputFile, metadata)
 
 	err := os.RemoveAll(cache.GetTempPath())
 	if err != nil {
@@ -448,26 +430,8 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 		err = wikipediaService.DownloadImages(article.Images)
 		sigolo.FatalCheck(err)
 
-		switch config.Current.OutputType {
-		case config.OutputTypeEpub2:
-			fallthrough
-		case config.OutputTypeEpub3:
-			sigolo.Debugf("Article '%s' (%d/%d): Generate HTML", articleName, currentArticleNumber, totalNumberOfArticles)
-			htmlGenerator := &generator.HtmlGenerator{
-				TokenMap:         article.TokenMap,
-				WikipediaService: wikipediaService,
-			}
-			htmlFilePath, err = htmlGenerator.Generate(article)
-			articleOutputFile = htmlFilePath
-			sigolo.FatalCheck(err)
-		case config.OutputTypeStatsJson:
-			fallthrough
-		case config.OutputTypeStatsTxt:
-			sigolo.Debugf("Article '%s' (%d/%d): Generate stats", articleName, currentArticleNumber, totalNumberOfArticles)
-			statsGenerator := generator.NewStatsGenerator(article.TokenMap)
-			articleOutputFile, err = statsGenerator.Generate(article)
-			sigolo.FatalCheck(err)
-		}
+		sigolo.Debugf("Article '%s' (%d/%d): Generate output", articleName, currentArticleNumber, totalNumberOfArticles)
+		articleOutputFile = generateArticleOutput(article, wikipediaService)
 	}
 
 	sigolo.Debugf("Article '%s' (%d/%d): Finished processing", articleName, currentArticleNumber, totalNumberOfArticles)
@@ -475,6 +439,48 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 	return articleOutputFile
 }
 
+// generateArticleOutput creates the output of one article in the configured output format and returns the path to it.
+func generateArticleOutput(article *parser.Article, wikipediaService *wikipedia.DefaultWikipediaService) string {
+	var err error
+	articleOutputFile := ""
+
+	switch config.Current.OutputType {
+	case config.OutputTypeEpub2:
+		fallthrough
+	case config.OutputTypeEpub3:
+		htmlGenerator := &generator.HtmlGenerator{
+			TokenMap:         article.TokenMap,
+			WikipediaService: wikipediaService,
+		}
+		articleOutputFile, err = htmlGenerator.Generate(article)
+		sigolo.FatalCheck(err)
+	case config.OutputTypeStatsJson:
+		fallthrough
+	case config.OutputTypeStatsTxt:
+		statsGenerator := generator.NewStatsGenerator(article.TokenMap)
+		articleOutputFile, err = statsGenerator.Generate(article)
+		sigolo.FatalCheck(err)
+	}
+
+	return articleOutputFile
+}
+
+// generateOutputFile creates the final output file in the configured output format from the outputs of the articles.
+func generateOutputFile(articleOutputFiles []string, outputFile string, metadata config.Metadata) {
+	switch config.Current.OutputType {
+	case config.OutputTypeEpub2:
+		fallthrough
+	case config.OutputTypeEpub3:
+		err := generator.GenerateEpub(articleOutputFiles, outputFile, metadata)
+		sigolo.FatalCheck(err)
+	case config.OutputTypeStatsJson:
+		fallthrough
+	case config.OutputTypeStatsTxt:
+		err := generator.GenerateCombinedStats(articleOutputFiles, outputFile)
+		sigolo.FatalCheck(err)
+	}
+}
+
 func shouldRecreateHtml(htmlFilePath string, forceHtmlRecreate bool) bool {
 	if forceHtmlRecreate || config.Current.OutputType == config.OutputTypeStatsJson || config.Current.OutputType == config.OutputTypeStatsTxt {
 		return true
-- 
2.43.0


From 07a739e27d7c1ca45f4685e9e56bfdc7d9402974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 57/92] fix: keep dots in the title of standalone files

---
 src/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.go b/src/main.go
index 3ae6f30..418f1b5 100644
--- a/src/main.go
+++ b/src/main.go
@@ -272,7 +272,7 @@ func generateStandaloneEbook(inputFile string, outputFile string) {
 	sigolo.FatalCheck(err)
 
 	_, inputFileName := path.Split(inputFile)
-	title := strings.Split(inputFileName, ".")[0]
+	title := strings.TrimSuffix(inputFileName, filepath.Ext(inputFileName))
 
 	outputFile = ensurePathsAndClearTempDir(outputFile)
 
-- 
2.43.0


From 4fe705b656b0e83a54a7f3e28ab41bef088ad631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 58/92] fix: consider sub-lists in statistics

---
 src/generator/stats.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 4668261..8ec05ec 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -229,7 +229,20 @@ func (g *StatsGenerator) expandListItems(items []parser.ListItemToken) (string,
 }
 
 func (g *StatsGenerator) expandListItem(token parser.ListItemToken) (string, error) {
-	return expand(g, token.Content)
+	result, err := expand(g, token.Content)
+	if err != nil {
+		return "", err
+	}
+
+	for _, subList := range token.SubLists {
+		expandedSubList, err := expand(g, subList)
+		if err != nil {
+			return "", err
+		}
+		result += expandedSubList
+	}
+
+	return result, nil
 }
 
 func (g *StatsGenerator) expandRefDefinition(token parser.RefDefinitionToken) (string, error) {
-- 
2.43.0


From f89be7573c5fd70851869339a5257aee6f168e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 59/92] fix: make the order in statistics deterministic

---
 src/generator/stats.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 8ec05ec..85b0bb8 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -275,6 +275,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		Top10UncoveredInternalLinks: map[string]int{},
 	}
 	articles := map[string]*articleStats{}
+	var articleNames []string
 
 	for _, statFile := range statFiles {
 		var fileContent []byte
@@ -293,6 +294,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		}
 
 		articles[stats.ArticleName] = stats
+		articleNames = append(articleNames, stats.ArticleName)
 		combinedStats.NumberOfCharacters += stats.NumberOfCharacters
 		combinedStats.NumberOfWords += stats.NumberOfWords
 		combinedStats.NumberOfInternalLinks += stats.NumberOfInternalLinks
@@ -317,7 +319,10 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	}
 
 	slices.SortFunc(uncoveredArticles, func(a, b string) int {
-		return cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a])
+		return cmp.Or(
+			cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a]),
+			cmp.Compare(a, b),
+		)
 	})
 	for i, uncoveredArticle := range uncoveredArticles {
 		if i >= 10 {
@@ -333,7 +338,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	if config.Current.OutputType == config.OutputTypeStatsJson {
 		outputConent, err = generateJsonStatsContent(combinedStats)
 	} else if config.Current.OutputType == config.OutputTypeStatsTxt {
-		outputConent, err = generateTxtStatsContent(articles, combinedStats)
+		outputConent, err = generateTxtStatsContent(articleNames, combinedStats)
 	} else {
 		return errors.Errorf("Invalid output type '%s' for stats", config.Current.OutputType)
 	}
@@ -364,7 +369,7 @@ func generateJsonStatsContent(combinedStats *articleStats) ([]byte, error) {
 	return outputConent, nil
 }
 
-func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *articleStats) ([]byte, error) {
+func generateTxtStatsContent(articleNames []string, combinedStats *articleStats) ([]byte, error) {
 	result := "Statistics generated with wiki2book:\n\n"
 
 	result += "General:\n"
@@ -374,8 +379,8 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 
 	// Article names
 	result += "Article:\n"
-	for _, article := range articles {
-		result += "  " + article.ArticleName + "\n"
+	for _, articleName := range articleNames {
+		result += "  " + articleName + "\n"
 	}
 	result += "\n"
 
@@ -391,7 +396,10 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 		sortedUncoveredLinks = append(sortedUncoveredLinks, uncoveredLinkEntry{k, v})
 	}
 	sort.Slice(sortedUncoveredLinks, func(i, j int) bool {
-		return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		if sortedUncoveredLinks[i].occurrences != sortedUncoveredLinks[j].occurrences {
+			return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		}
+		return sortedUncoveredLinks[i].articleName < sortedUncoveredLinks[j].articleName
 	})
 
 	for i := 0; i < int(math.Min(float64(len(sortedUncoveredLinks)), 20)); i++ {
-- 
2.43.0


From 6146e819c44ce72f1dfe1236f6bada39ae870653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 60/92] fix: don't leave an empty output file when creating the
 book fails

---
 src/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.go b/src/main.go
index 418f1b5..a211b3f 100644
--- a/src/main.go
+++ b/src/main.go
@@ -523,11 +523,17 @@ func ensurePathsAndClearTempDir(outputFile string) string {
 
 		file, err = os.Create(outputFile)
 		sigolo.FatalCheck(err)
+
+		// The file has only been created to see whether that's possible. Without removing it, there would be an empty
+		// file in case of an error.
+		defer os.Remove(file.Name())
 	} else {
 		file, err = os.Open(outputFile)
 		sigolo.FatalCheck(err)
 	}
 
+	defer file.Close()
+
 	// Assign default output file name if given path is a directory
 	fileInfo, err := file.Stat()
 	sigolo.FatalCheck(err)
-- 
2.43.0


From 66b8a4a3d21cc2213aa2fd88b8404385a07209dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 61/92] fix: write statistics into the given output folder

---
 src/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.go b/src/main.go
index a211b3f..270605f 100644
--- a/src/main.go
+++ b/src/main.go
@@ -493,19 +493,24 @@ func shouldRecreateHtml(htmlFilePath string, forceHtmlRecreate bool) bool {
 	return !htmlFileExists
 }
 
+func isDirectory(path string) bool {
+	fileInfo, err := os.Stat(path)
+	return err == nil && fileInfo.IsDir()
+}
+
 // ensurePathsAndClearTempDir ensures that the output folder for the given outputFile exists and clears up any
 // temporary files in the temp files folder that might still exist from previous runs.
 func ensurePathsAndClearTempDir(outputFile string) string {
 	var err error
 
-	if config.Current.OutputType == config.OutputTypeStatsJson && !strings.HasSuffix(outputFile, "json") {
+	if config.Current.OutputType == config.OutputTypeStatsJson && !strings.HasSuffix(outputFile, "json") && !isDirectory(outputFile) {
 		// For stats, the output file is not an EPUB, therefore we change the default file in case it's the default EPUB one.
 		outputFile = defaultStatsJsonOutputFile
 		sigolo.Infof("Notice: Changing output file from default '%s' to '%s'", defaultEpubOutputFile, outputFile)
 		outputFile, err = util.ToAbsolutePath(outputFile)
 		sigolo.FatalCheck(err)
 	}
-	if config.Current.OutputType == config.OutputTypeStatsTxt && !strings.HasSuffix(outputFile, "txt") {
+	if config.Current.OutputType == config.OutputTypeStatsTxt && !strings.HasSuffix(outputFile, "txt") && !isDirectory(outputFile) {
 		// For stats, the output file is not an EPUB, therefore we change the default file in case it's the default EPUB one.
 		outputFile = defaultStatsTxtOutputFile
 		sigolo.Infof("Notice: Changing output file from default '%s' to '%s'", defaultEpubOutputFile, outputFile)
-- 
2.43.0


From 2a701e17c156680074ca0bd67be2c4f9e15d1a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 62/92] fix: cover image and style file are optional for the
 internal driver

---
 src/generator/epub.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 36fae3a..68001db 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -85,14 +85,16 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	epubObj.SetLang(metadata.Language)
 	epubObj.SetTitle(metadata.Title)
 
-	internalCoverImagePath, err := epubObj.AddImage(config.Current.CoverImage, "cover.png")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
-	}
+	if config.Current.CoverImage != "" {
+		internalCoverImagePath, err := epubObj.AddImage(config.Current.CoverImage, "cover.png")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
+		}
 
-	err = epubObj.SetCover(internalCoverImagePath, "")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+		err = epubObj.SetCover(internalCoverImagePath, "")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+		}
 	}
 
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
@@ -116,9 +118,11 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		epubObj.EmbedImages()
 	}
 
-	_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+	if config.Current.StyleFile != "" {
+		_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+		}
 	}
 
 	//for _, image := range images {
-- 
2.43.0


From 5cfb3e931442de03f3798c571485123c1d1173e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 63/92] fix: only use the title heading of an article as title
 with the internal driver

---
 src/generator/epub.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 68001db..3fd8871 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -2,6 +2,7 @@ package generator
 
 import (
 	"fmt"
+	"html"
 	"os"
 	"regexp"
 	"strconv"
@@ -97,7 +98,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 	}
 
-	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
+	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)
 	var fileBytes []byte
 	for _, sourceFile := range sourceFiles {
 		sigolo.Debugf("Add source file %s to EPUB object", sourceFile)
@@ -108,7 +109,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 
 		fileContent := string(fileBytes)
 
-		sectionTitle := headingTitleRegex.FindStringSubmatch(fileContent)[1]
+		sectionTitle := html.UnescapeString(headingTitleRegex.FindStringSubmatch(fileContent)[1])
 
 		// TODO Find a way to add subsections to TOC as well
 		_, err = epubObj.AddSection(fileContent, sectionTitle, "", "")
-- 
2.43.0


From 3c191f96466dcd972b5b1b0ff6ddb87ccc24a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 64/92] fix: embed images of the cache with the internal driver

---
 src/generator/epub.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 3fd8871..c009dbd 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -3,7 +3,9 @@ package generator
 import (
 	"fmt"
 	"html"
+	"net/url"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
 	"wiki2book/config"
@@ -75,6 +77,20 @@ func GenerateEpubWithPandoc(sourceFiles []string, outputFile string, metadata co
 	return nil
 }
 
+// makeImagePathsAbsolute turns the image paths, which are relative to the cache folder, into absolute paths.
+func makeImagePathsAbsolute(htmlContent string) string {
+	imagePathRegex := regexp.MustCompile(`(<img [^>]*?src=")(\./[^"]*)"`)
+	return imagePathRegex.ReplaceAllStringFunc(htmlContent, func(match string) string {
+		submatch := imagePathRegex.FindStringSubmatch(match)
+		imagePath, err := url.QueryUnescape(submatch[2])
+		if err != nil {
+			sigolo.Warnf("Unable to determine file of image '%s'", submatch[2])
+			return match
+		}
+		return submatch[1] + filepath.Join(config.Current.CacheDir, imagePath) + `"`
+	})
+}
+
 func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata config.Metadata) error {
 
 	epubObj, err := epub.NewEpub("My title")
@@ -111,13 +127,15 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 
 		sectionTitle := html.UnescapeString(headingTitleRegex.FindStringSubmatch(fileContent)[1])
 
+		fileContent = makeImagePathsAbsolute(fileContent)
+
 		// TODO Find a way to add subsections to TOC as well
 		_, err = epubObj.AddSection(fileContent, sectionTitle, "", "")
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file %s to add it to the EPUB object", sourceFile))
 		}
-		epubObj.EmbedImages()
 	}
+	epubObj.EmbedImages()
 
 	if config.Current.StyleFile != "" {
 		_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
@@ -139,7 +157,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
-		_, err = epubObj.AddFont(fontFile, fontFile)
+		_, err = epubObj.AddFont(fontFile, filepath.Base(fontFile))
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error adding font file %s to EPUB object", fontFile))
 		}
-- 
2.43.0


From 01deecc7c806d0598228fae99e151b5ba989ad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 65/92] fix: don't download and process the same image on
 multiple threads at the same time

---
 src/wikipedia/wikipedia.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 5737d70..292f185 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"sync"
 	"wiki2book/cache"
 	"wiki2book/config"
 	ownHttp "wiki2book/http"
@@ -60,6 +61,7 @@ type DefaultWikipediaService struct {
 	wikipediaMathRestApi       string
 	imageProcessingService     image.ImageProcessingService
 	httpService                ownHttp.HttpService
+	imageLocks                 sync.Map // Image name to mutex, because images can be part of multiple articles.
 }
 
 func NewWikipediaService(wikipediaInstance string, wikipediaHost string, wikipediaImageInstances []string, wikipediaImageHost string, wikipediaMathRestApi string, imageProcessingService image.ImageProcessingService, httpClient ownHttp.HttpService) *DefaultWikipediaService {
@@ -122,6 +124,10 @@ func (w *DefaultWikipediaService) DownloadImages(images []string) error {
 func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) error {
 	var downloadErr error
 
+	imageLock, _ := w.imageLocks.LoadOrStore(image, &sync.Mutex{})
+	imageLock.(*sync.Mutex).Lock()
+	defer imageLock.(*sync.Mutex).Unlock()
+
 	for i, articleHost := range w.wikipediaImageArticleHosts {
 		var outputFilepath string
 		var freshlyDownloaded bool
-- 
2.43.0


From 2ed61d425b376753c536673de07c4743bb7311a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 66/92] fix: download images again whose processing has been
 interrupted or failed

---
 src/wikipedia/wikipedia.go | 47 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 292f185..8ca2e7f 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
@@ -21,6 +22,9 @@ import (
 	"github.com/pkg/errors"
 )
 
+// incompleteImageSuffix is the suffix of files marking images which are not completely downloaded and processed.
+const incompleteImageSuffix = ".part"
+
 type WikiArticleDto struct {
 	Parse WikiParseArticleDto `json:"parse"`
 }
@@ -128,6 +132,11 @@ func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) err
 	imageLock.(*sync.Mutex).Lock()
 	defer imageLock.(*sync.Mutex).Unlock()
 
+	finishImage, err := beginImage(image)
+	if err != nil {
+		return err
+	}
+
 	for i, articleHost := range w.wikipediaImageArticleHosts {
 		var outputFilepath string
 		var freshlyDownloaded bool
@@ -153,9 +162,47 @@ func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) err
 		break
 	}
 
+	finishImage()
 	return downloadErr
 }
 
+// beginImage remembers within the cache that the given image is about to be downloaded and processed. The returned
+// function must be called as soon as this is done. An image without this call (because wiki2book has been interrupted
+// or the processing failed) might be unprocessed or damaged and is therefore removed from the cache the next time.
+func beginImage(imageNameWithPrefix string) (func(), error) {
+	imageName := strings.ReplaceAll(strings.Split(imageNameWithPrefix, ":")[1], " ", "_")
+	imageFilepath := cache.GetFilePathInCache(cache.ImageCacheDirName, imageName)
+	markerFilepath := cache.GetFilePathInCache(cache.ImageCacheDirName, imageName+incompleteImageSuffix)
+
+	if _, err := util.CurrentFilesystem.Stat(markerFilepath); err == nil {
+		sigolo.Debugf("Image '%s' has not been processed completely, so it will be downloaded again", imageName)
+		for _, file := range []string{imageFilepath, util.GetPngPathForFile(imageFilepath)} {
+			err = util.CurrentFilesystem.Remove(file)
+			if err != nil && !os.IsNotExist(err) {
+				return nil, errors.Wrapf(err, "Unable to remove incompletely processed image '%s'", file)
+			}
+		}
+	}
+
+	err := util.CurrentFilesystem.MkdirAll(cache.GetDirPathInCache(cache.ImageCacheDirName))
+	if err != nil && !os.IsExist(err) {
+		return nil, errors.Wrapf(err, "Unable to create folder for image '%s'", imageName)
+	}
+
+	markerFile, err := util.CurrentFilesystem.Create(markerFilepath)
+	if err != nil {
+		return nil, errors.Wrapf(err, "Unable to create file '%s'", markerFilepath)
+	}
+	_ = markerFile.Close()
+
+	return func() {
+		err := util.CurrentFilesystem.Remove(markerFilepath)
+		if err != nil && !os.IsNotExist(err) {
+			sigolo.Warnf("Unable to remove file '%s': %s. The image will be downloaded again next time.", markerFilepath, err.Error())
+		}
+	}, nil
+}
+
 func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshlyDownloaded bool) error {
 	outputFileExt := filepath.Ext(strings.ToLower(outputFilepath))
 
-- 
2.43.0


From 57c3adeaeaf59b2af4aaec019ba5e12eb698e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 67/92] fix: convert images again which have been downloaded
 again

---
 src/wikipedia/wikipedia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 8ca2e7f..eb482e8 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -218,7 +218,7 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if commandTemplate != "" {
 		outputPngFilepath := util.GetPngPathForFile(outputFilepath)
 		pngAlreadyExists := util.PathExists(outputPngFilepath)
-		if !pngAlreadyExists {
+		if !pngAlreadyExists || freshlyDownloaded {
 			err := w.imageProcessingService.ConvertToPng(outputFilepath, outputPngFilepath, commandTemplate)
 			if err != nil {
 				return err
-- 
2.43.0


From 8e13ead511e94bbf1c6384213f917cd999a6719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 68/92] fix: consider images with different prefixes as the
 same image

---
 src/wikipedia/wikipedia.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index eb482e8..49bbfd6 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -128,11 +128,13 @@ func (w *DefaultWikipediaService) DownloadImages(images []string) error {
 func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) error {
 	var downloadErr error
 
-	imageLock, _ := w.imageLocks.LoadOrStore(image, &sync.Mutex{})
+	// The same image can be used with different prefixes (e.g. "File" and "Image").
+	imageName := strings.ReplaceAll(strings.Split(image, ":")[1], " ", "_")
+	imageLock, _ := w.imageLocks.LoadOrStore(imageName, &sync.Mutex{})
 	imageLock.(*sync.Mutex).Lock()
 	defer imageLock.(*sync.Mutex).Unlock()
 
-	finishImage, err := beginImage(image)
+	finishImage, err := beginImage(imageName)
 	if err != nil {
 		return err
 	}
@@ -169,8 +171,7 @@ func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) err
 // beginImage remembers within the cache that the given image is about to be downloaded and processed. The returned
 // function must be called as soon as this is done. An image without this call (because wiki2book has been interrupted
 // or the processing failed) might be unprocessed or damaged and is therefore removed from the cache the next time.
-func beginImage(imageNameWithPrefix string) (func(), error) {
-	imageName := strings.ReplaceAll(strings.Split(imageNameWithPrefix, ":")[1], " ", "_")
+func beginImage(imageName string) (func(), error) {
 	imageFilepath := cache.GetFilePathInCache(cache.ImageCacheDirName, imageName)
 	markerFilepath := cache.GetFilePathInCache(cache.ImageCacheDirName, imageName+incompleteImageSuffix)
 
-- 
2.43.0


From e4e0c799e1f83c9d5e7214253d100f2f57e4eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 69/92] fix: don't list links to sections of the same article
 as missing article in statistics

---
 src/generator/stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 85b0bb8..5fb1b34 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -156,7 +156,10 @@ func (g *StatsGenerator) expandImage(token parser.ImageToken) (string, error) {
 
 func (g *StatsGenerator) expandInternalLink(token parser.InternalLinkToken) (string, error) {
 	g.stats.NumberOfInternalLinks++
-	g.stats.InternalLinks[token.ArticleName]++
+	if token.ArticleName != "" {
+		// Links like "[[#section]]" lead to the same article and therefore don't contain an article name.
+		g.stats.InternalLinks[token.ArticleName]++
+	}
 	return expand(g, token.LinkText)
 }
 
-- 
2.43.0


From 1eec171d50d2f595914d9be15a563b76b2f7793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 70/92] fix: allow special characters in the path of the
 statistics output file

---
 src/util/files.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/util/files.go b/src/util/files.go
index 44ea1a4..9317fc3 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -293,8 +293,7 @@ func (o *OsFilesystem) Remove(path string) error {
 }
 
 func (o *OsFilesystem) Create(path string) (FileLike, error) {
-	RequireFilePathIsSanitized(path)
-
+	// No check for a sanitized path here: The path of an output file is chosen by the user and may contain any character.
 	return os.Create(path)
 }
 
-- 
2.43.0


From c9ecaf83d1c77146375363fb6f17b8192a8c9ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 71/92] fix: don't evaluate a template within nowiki or math
 when the same template is used behind it

---
 src/parser/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/template.go b/src/parser/template.go
index aca9e19..1517e20 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -105,7 +105,7 @@ func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToC
 			// evaluated form because nested templates might lead to too long URLs.
 			placeholderToContent[key] = evaluatedTemplate
 			placeholder := fmt.Sprintf(templatePlaceholderTemplate, key)
-			content = strings.Replace(content, originalTemplateText, placeholder, 1)
+			content = content[:i] + placeholder + content[endIndex+templateEndTokenLen:]
 		}
 	}
 	sigolo.Tracef("Finished replacing templates in: %s", util.TruncString(content))
-- 
2.43.0


From 54db02c6842f611754520328de20b4bdaec2c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 72/92] fix: only change the sizes of the root element of SVG
 files, missing ones included

---
 src/image/svg.go | 98 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 71 insertions(+), 27 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 0f8413e..542b6e0 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -4,9 +4,11 @@ import (
 	"bytes"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"regexp"
 	"strings"
+	"unicode"
 	"wiki2book/util"
 
 	"github.com/hauke96/sigolo/v2"
@@ -22,6 +24,7 @@ type SimpleSvgAttributes struct {
 
 var (
 	xmlNamespaceValueRegex = regexp.MustCompile(`&ns.*?;`) // Attributes like  xmlns="&ns_svg;"  cause error during Unmarshalling.
+	xmlAttributeRegex      = regexp.MustCompile(`([^\s=<>"']+)\s*=\s*("[^"]*"|'[^']*')`)
 )
 
 func ReadSimpleAvgAttributes(filename string) (*SimpleSvgAttributes, error) {
@@ -56,15 +59,15 @@ func MakeSvgSizeAbsolute(filename string) error {
 	}
 	sigolo.Tracef("Found SVG attributes: %#v", attributes)
 
-	if !strings.HasSuffix(attributes.Width, "%") && !strings.HasSuffix(attributes.Height, "%") {
+	if isAbsoluteSize(attributes.Width) && isAbsoluteSize(attributes.Height) {
 		// Width and height are already absolute values, nothing to do here.
-		sigolo.Debugf("SVG file '%s' does not relative width and height attributes. Found width=%s and height=%s. File stays unchanged.", filename, attributes.Width, attributes.Height)
+		sigolo.Debugf("SVG file '%s' does not have relative width and height attributes. Found width=%s and height=%s. File stays unchanged.", filename, attributes.Width, attributes.Height)
 		return nil
 	}
 
 	updatedSvgContent := replaceRelativeSizeByViewboxSize(string(fileBytes), filename, attributes)
-	if err != nil {
-		return err
+	if updatedSvgContent == string(fileBytes) {
+		return nil
 	}
 
 	err = os.WriteFile(filename, []byte(updatedSvgContent), 0644)
@@ -75,35 +78,38 @@ func MakeSvgSizeAbsolute(filename string) error {
 	return nil
 }
 
+// isAbsoluteSize returns false for percentages and also for missing sizes, which mean "100%".
+func isAbsoluteSize(size string) bool {
+	return size != "" && !strings.HasSuffix(size, "%")
+}
+
+// replaceRelativeSizeByViewboxSize sets the width and height of the root element, no other element is changed.
 func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAttributes *SimpleSvgAttributes) string {
-	// Find index of "viewbox" attribute
-	viewboxIndex := strings.Index(fileString, "viewBox=\"")
-	if viewboxIndex == -1 {
-		// No "viewbox" attribute specified, so we can't change the width/height.
-		sigolo.Debugf("SVG file '%s' does not contain a 'viewBox' attribute. File stays unchanged.", filename)
+	tagStart, tagEnd, err := findRootElementTag(fileString)
+	if err != nil {
+		sigolo.Debugf("Unable to find root element in SVG file '%s': %s. File stays unchanged.", filename, err.Error())
 		return fileString
 	}
+	tag := fileString[tagStart:tagEnd]
 
-	viewboxAttributeContentSlice := strings.SplitN(fileString[viewboxIndex:], "\"", 3)
-	if len(viewboxAttributeContentSlice) == 1 {
-		// SVG file probably broken, at least we're not able to find a correct value for the viewbox attribute.
-		sigolo.Debugf("Unable to find 'viewBox' attribute values in file '%s'. File stays unchanged.", filename)
-		return fileString
+	attributeValues := map[string]string{}
+	attributeMatches := xmlAttributeRegex.FindAllStringSubmatchIndex(tag, -1)
+	for _, match := range attributeMatches {
+		attributeValues[tag[match[2]:match[3]]] = tag[match[4]+1 : match[5]-1]
 	}
 
-	var viewboxAttributeValues []string
-	viewboxAttributeString := viewboxAttributeContentSlice[1]
-	sigolo.Tracef("Found viewBox=%s", viewboxAttributeString)
-	if strings.Contains(viewboxAttributeString, ",") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, ",")
-	} else if strings.Contains(viewboxAttributeString, " ") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, " ")
-	} else {
-		// No supported separator found
-		sigolo.Debugf("Unsupported separator for 'viewBox' attribute values in file '%s', file stays unchanged. Expected comma or space in attribute 'viewbox=\"%s\"'", filename, viewboxAttributeString)
+	viewboxAttributeString, hasViewbox := attributeValues["viewBox"]
+	if !hasViewbox {
+		// No "viewbox" attribute specified, so we can't change the width/height.
+		sigolo.Debugf("SVG file '%s' does not contain a 'viewBox' attribute. File stays unchanged.", filename)
 		return fileString
 	}
 
+	// The values might be separated by spaces, commas or both
+	sigolo.Tracef("Found viewBox=%s", viewboxAttributeString)
+	viewboxAttributeValues := strings.FieldsFunc(viewboxAttributeString, func(r rune) bool {
+		return r == ',' || unicode.IsSpace(r)
+	})
 	if len(viewboxAttributeValues) != 4 {
 		// Wrong number of elements in viewbox
 		sigolo.Debugf("Wrong number of 'viewBox' attribute values in file '%s': Expected 4 but got %d. File stays unchanged.", filename, len(viewboxAttributeValues))
@@ -111,9 +117,47 @@ func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAtt
 	}
 
 	sigolo.Tracef("Replace width=%s -> width=%s and height=%s -> height=%s", oldAttributes.Width, viewboxAttributeValues[2], oldAttributes.Height, viewboxAttributeValues[3])
-	fileString = strings.Replace(fileString, "width=\""+oldAttributes.Width+"\"", "width=\""+viewboxAttributeValues[2]+"pt\"", 1)
-	fileString = strings.Replace(fileString, "height=\""+oldAttributes.Height+"\"", "height=\""+viewboxAttributeValues[3]+"pt\"", 1)
-	return fileString
+	newSizes := map[string]string{
+		"width":  `"` + viewboxAttributeValues[2] + `pt"`,
+		"height": `"` + viewboxAttributeValues[3] + `pt"`,
+	}
+
+	// Missing sizes are added in front of the first attribute, existing ones are replaced at their location
+	lastIndex := attributeMatches[0][0]
+	newTag := tag[:lastIndex]
+	for _, name := range []string{"width", "height"} {
+		if _, hasSize := attributeValues[name]; !hasSize {
+			newTag += name + "=" + newSizes[name] + " "
+		}
+	}
+	for _, match := range attributeMatches {
+		if newSize, isSize := newSizes[tag[match[2]:match[3]]]; isSize {
+			newTag += tag[lastIndex:match[4]] + newSize
+			lastIndex = match[5]
+		}
+	}
+	newTag += tag[lastIndex:]
+
+	return fileString[:tagStart] + newTag + fileString[tagEnd:]
+}
+
+// findRootElementTag returns the start and end index of the opening tag of the root element.
+func findRootElementTag(fileString string) (int, int, error) {
+	decoder := xml.NewDecoder(strings.NewReader(fileString))
+	decoder.Strict = false
+	// No conversion of the encoding, because the indices have to match the original content
+	decoder.CharsetReader = func(_ string, input io.Reader) (io.Reader, error) { return input, nil }
+
+	for {
+		startIndex := decoder.InputOffset()
+		token, err := decoder.RawToken()
+		if err != nil {
+			return 0, 0, err
+		}
+		if _, isStartElement := token.(xml.StartElement); isStartElement {
+			return int(startIndex), int(decoder.InputOffset()), nil
+		}
+	}
 }
 
 func parseSimpleSvgAttributes(fileContent []byte, filename string) (*SimpleSvgAttributes, error) {
-- 
2.43.0


From 64200c2bb0a919e8ea4720911053d8fb3600ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 73/92] fix: make the sizes of SVG files with upper case file
 extension absolute

---
 src/wikipedia/wikipedia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 49bbfd6..e882f84 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -289,7 +289,7 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 		return "", freshlyDownloaded, err
 	}
 
-	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(cachedFilePath) == util.FileEndingSvg {
+	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(strings.ToLower(cachedFilePath)) == util.FileEndingSvg {
 		err = image.MakeSvgSizeAbsolute(cachedFilePath)
 		if err != nil {
 			sigolo.Errorf("Unable to make size of SVG '%s' absolute. This error will be ignored, since false errors exist for the XML parsing of SVGs. Error: %+v", cachedFilePath, err)
-- 
2.43.0


From 39cd873ea75c299ffb5957b518a2925e7af073ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 74/92] fix: keep lines, cells and list entries that consist of
 equal signs only and headings whose text starts and ends with one

---
 src/parser/cleaner.go   |  5 +++++
 src/parser/heading.go   |  4 +++-
 src/parser/tokenizer.go | 11 +++++++----
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index e3a00bd..20719da 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -349,5 +349,10 @@ func (t *Tokenizer) headingDepth(line string) int {
 		headingDepthCounter++
 	}
 
+	if headingDepthCounter == lineLength {
+		// Line of "=" characters only, there has to be some text between the markers of a heading.
+		return (lineLength - 1) / 2
+	}
+
 	return headingDepthCounter
 }
diff --git a/src/parser/heading.go b/src/parser/heading.go
index d848d12..92aa616 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -20,7 +20,9 @@ func (t *Tokenizer) parseHeadings(content string) string {
 		for i := 0; i < len(lines); i++ {
 			line := strings.TrimSpace(lines[i])
 
-			if strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
+			// There has to be some text between the markers, so e.g. a single "=" is no heading.
+			hasText := len(line) > 2*depth
+			if hasText && strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
 				headingText := strings.TrimSuffix(strings.TrimPrefix(line, headingMediawikiMarker), headingMediawikiMarker)
 				headingText = strings.TrimSpace(headingText)
 
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 2c2ece9..bc9294a 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -135,15 +135,18 @@ func (t *Tokenizer) setRawToken(key string, tokenContent interface{}) {
 }
 
 // tokenizeInlineContent tokenizes text that is part of a line, e.g. the text of a link. In contrast to whole lines, such
-// text can't be a list, so it's no problem when it starts with e.g. a "#".
+// text can't be a list or heading, so it's no problem when it starts with e.g. a "#".
 func (t *Tokenizer) tokenizeInlineContent(content string) string {
 	trimmedContent := strings.TrimSpace(content)
-	if trimmedContent == "" || !isListStartingCharacter(trimmedContent[0]) || strings.Contains(trimmedContent, "\n") {
+	if trimmedContent == "" || strings.Contains(trimmedContent, "\n") {
+		return t.tokenizeContent(t, content)
+	}
+	if !isListStartingCharacter(trimmedContent[0]) && trimmedContent[0] != '=' {
 		return t.tokenizeContent(t, content)
 	}
 
-	// Tokenize everything without the characters that would start a list.
-	text := strings.TrimLeft(trimmedContent, "*#:; \t")
+	// Tokenize everything without the characters that would start a list or heading.
+	text := strings.TrimLeft(trimmedContent, "*#:;= \t")
 	prefix := content[:strings.Index(content, trimmedContent)] + strings.TrimSuffix(trimmedContent, text)
 	return prefix + t.tokenizeContent(t, text)
 }
-- 
2.43.0


From 0ddbce6740de95cf448a2045d807ba66b686fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 75/92] fix: keep the exclamation mark at the beginning of a
 table cell

---
 src/parser/table.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 2837aee..5312944 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -179,8 +179,11 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 		}
 
 		isHeading := strings.HasPrefix(line, "!")
-		line = strings.TrimPrefix(line, "|")
-		line = strings.TrimPrefix(line, "!")
+		if isHeading {
+			line = strings.TrimPrefix(line, "!")
+		} else {
+			line = strings.TrimPrefix(line, "|")
+		}
 		line = strings.TrimSpace(line)
 
 		// Collect all normal text rows until the next row or column starts.
-- 
2.43.0


From 5cfbad22026c914827628c2f7f260e2ffd561be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 76/92] fix: keep the indentation of tables within tables and
 recognize deeper indented ones

---
 src/parser/table.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 5312944..eec4d19 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -35,10 +35,7 @@ func (t *Tokenizer) parseTables(content string) string {
 
 	for i := 0; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
-		submatch := tableStartRegex.FindStringSubmatch(line)
-		if submatch != nil {
-			listPrefix := submatch[1]
-
+		if tableStartRegex.MatchString(line) {
 			// table starts in this line.
 			token, newIndex := t.tokenizeTables(lines, i)
 
@@ -46,10 +43,6 @@ func (t *Tokenizer) parseTables(content string) string {
 
 			var newLines []string
 			newLines = append(newLines, lines[:i]...)
-			if listPrefix != "" {
-				// Indented table: The list with this table has to be self-contained, just as the table itself
-				_, token, _ = t.tokenizeList([]string{listPrefix + token}, 0, ":")
-			}
 			newLines = append(newLines, token)
 			if i+length+1 < len(lines) {
 				newLines = append(newLines, lines[i+length+1:]...)
@@ -67,13 +60,17 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	var tableLines []string
 	var tableToken string
 	tableLines = append(tableLines, lines[i])
+	listPrefix := ""
+	if submatch := tableStartRegex.FindStringSubmatch(strings.TrimSpace(lines[i])); submatch != nil {
+		listPrefix = submatch[1]
+	}
 	i++
 
 	// collect all lines from this table
 	for ; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
 
-		if strings.HasPrefix(line, "{|") || strings.HasPrefix(line, ":{|") {
+		if tableStartRegex.MatchString(line) {
 			// another table starts
 			tableToken, i = t.tokenizeTables(lines, i)
 			tableLines = append(tableLines, tableToken)
@@ -92,6 +89,11 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	tokenKey := t.getToken(TOKEN_TABLE)
 	t.setRawToken(tokenKey, token)
 
+	if listPrefix != "" {
+		// Indented table: The list with this table has to be self-contained, just as the table itself
+		_, tokenKey, _ = t.tokenizeList([]string{listPrefix + tokenKey}, 0, ":")
+	}
+
 	return tokenKey, i
 }
 
-- 
2.43.0


From bb345942fb876e166f0510a6c43a83d983a6c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 77/92] fix: resolve relative paths of the pandoc executable
 like all other paths

---
 src/config/config.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/config/config.go b/src/config/config.go
index c98e055..b7646d5 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -668,6 +668,17 @@ func (c *Configuration) makePathsAbsolute(file string) {
 		sigolo.FatalCheck(err)
 		c.FontFiles[i] = absoluteFile
 	}
+
+	if c.isPandocExecutablePath() {
+		c.PandocExecutable, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
+}
+
+// isPandocExecutablePath returns true if the executable is an actual path and not just the name of the executable, e.g.
+// just "pandoc", which has to stay as it is.
+func (c *Configuration) isPandocExecutablePath() bool {
+	return strings.Contains(c.PandocExecutable, "/")
 }
 
 func (c *Configuration) MakePathsAbsoluteToWorkingDir() {
@@ -690,6 +701,11 @@ func (c *Configuration) MakePathsAbsoluteToWorkingDir() {
 		sigolo.FatalCheck(err)
 		c.FontFiles[i] = absoluteFile
 	}
+
+	if c.isPandocExecutablePath() {
+		c.PandocExecutable, err = util.ToAbsolutePath(c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
 }
 
 func (c *Configuration) AssertFilesAndPathsExists() {
-- 
2.43.0


From e6764cee01d579e72ad6304feece146ef1888fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 78/92] fix: collapse blanks and underscores in file names like
 MediaWiki does

---
 src/parser/image.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 7ec9dea..face841 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -53,6 +53,11 @@ func (t *Tokenizer) escapeImages(content string) string {
 		filename = strings.TrimSpace(fileSegments[1])
 	}
 
+	// MediaWiki treats spaces and underscores alike, ignores surrounding ones and treats multiple ones as one. The file
+	// itself has underscores in its name.
+	filename = strings.ReplaceAll(filename, "%20", "_")
+	filename = strings.Join(strings.FieldsFunc(filename, func(r rune) bool { return r == ' ' || r == '_' }), "_")
+
 	if filename == "" {
 		sigolo.Warnf("Found image without file name: %s", util.TruncString(content))
 		return ""
@@ -72,10 +77,6 @@ func (t *Tokenizer) escapeImages(content string) string {
 
 	sigolo.Tracef("Found image: %s", filename)
 
-	// Replace spaces with underscore because wikimedia doesn't know spaces in file names:
-	filename = strings.ReplaceAll(filename, " ", "_")
-	filename = strings.ReplaceAll(filename, "%20", "_")
-
 	// Make first letter upper case as wikimedia wants it this way:
 	filenameRunes := []rune(filename)
 	filename = strings.ToUpper(string(filenameRunes[0])) + string(filenameRunes[1:])
-- 
2.43.0


From 0189b2f91e5afdbba32326728527c6dfd225ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 79/92] fix: shorten names of cached files that are too long
 for file systems

---
 src/util/files.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/util/files.go b/src/util/files.go
index 9317fc3..1f64f0e 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -19,6 +19,10 @@ const (
 	FileEndingWebp = ".webp"
 )
 
+// maxFilenameLength is the maximum number of bytes of sanitized filenames. Usual file systems allow 255 bytes, the rest is
+// needed for additional extensions and the random part in the names of temporary files.
+const maxFilenameLength = 240
+
 func ToRelativePaths(paths ...string) ([]string, error) {
 	var result = make([]string, len(paths))
 
@@ -166,9 +170,30 @@ func SanitizeFilename(filename string) string {
 	filename = strings.ReplaceAll(filename, "?", "%3F")
 	filename = strings.ReplaceAll(filename, "*", "%2A")
 
+	if len(filename) > maxFilenameLength {
+		filename = shortenFilename(filename)
+	}
+
 	return filename
 }
 
+// shortenFilename cuts the given filename but keeps its extension. The result contains a hash of the whole filename, so
+// that different filenames stay different.
+func shortenFilename(filename string) string {
+	extension := filepath.Ext(filename)
+	if len(extension) > 10 {
+		extension = ""
+	}
+
+	suffix := "-" + Hash(filename) + extension
+	prefix := strings.ToValidUTF8(filename[:maxFilenameLength-len(suffix)], "")
+	if index := strings.LastIndex(prefix, "%"); index != -1 && index > len(prefix)-3 {
+		// Do not leave parts of an escape sequence.
+		prefix = prefix[:index]
+	}
+	return prefix + suffix
+}
+
 // IsSanitized verifies that each segment in the given path is sanitized. For Windows systems: A leading volume, such
 // as "C:\" is ignored to prevent false-positive results, since ":" is invalid in Windows paths and filenames.
 func IsSanitized(path string) bool {
-- 
2.43.0


From 87ac0568a4858c2a5d50473076228acfd2c148d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 80/92] fix: allow any character in the path of the cache
 directory

---
 src/util/files.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/util/files.go b/src/util/files.go
index 1f64f0e..45230fa 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -250,8 +250,10 @@ func IsSanitized(path string) bool {
 	return true
 }
 
+// RequireFilePathIsSanitized requires that the name of the file at the given path is sanitized. The directories of the
+// path might have been chosen by the user and may contain any character.
 func RequireFilePathIsSanitized(path string) {
-	Requiref(IsSanitized(path), "File path or name '%s' mus be sanitized.", path)
+	Requiref(IsSanitized(filepath.Base(path)), "File path or name '%s' mus be sanitized.", path)
 }
 
 type FileLike interface {
@@ -299,13 +301,10 @@ func (o *OsFilesystem) Rename(oldPath string, newPath string) error {
 }
 
 func (o *OsFilesystem) MkdirAll(path string) error {
-	RequireFilePathIsSanitized(path)
-
 	return os.MkdirAll(path, os.ModePerm)
 }
 
 func (o *OsFilesystem) CreateTemp(dir, filenamePattern string) (FileLike, error) {
-	RequireFilePathIsSanitized(dir)
 	RequireFilePathIsSanitized(filenamePattern)
 
 	return os.CreateTemp(dir, filenamePattern)
@@ -323,8 +322,6 @@ func (o *OsFilesystem) Create(path string) (FileLike, error) {
 }
 
 func (o *OsFilesystem) DirSizeInBytes(path string) (error, int64) {
-	RequireFilePathIsSanitized(path)
-
 	var dirSizeBytes int64 = 0
 
 	readSize := func(path string, file os.FileInfo, err error) error {
@@ -350,7 +347,6 @@ func (o *OsFilesystem) DirSizeInBytes(path string) (error, int64) {
 }
 
 func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, int64, string) {
-	RequireFilePathIsSanitized(path)
 	RequireFilePathIsSanitized(exceptDir)
 
 	var currentLargestFile os.FileInfo
@@ -391,7 +387,6 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 }
 
 func (o *OsFilesystem) FindLruFile(path string, exceptDir string) (error, int64, string) {
-	RequireFilePathIsSanitized(path)
 	RequireFilePathIsSanitized(exceptDir)
 
 	var currentLruFilePath string
-- 
2.43.0


From ec0bb42af2cc36f8d56a302111472f1b15a31b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 81/92] fix: respect dates in the Retry-After header

---
 src/http/http.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/http/http.go b/src/http/http.go
index 635cec9..0ee1a8f 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -3,6 +3,7 @@ package http
 import (
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"strconv"
 	"strings"
@@ -130,6 +131,20 @@ func (d *DefaultHttpService) PostFormEncoded(url, requestData string) (resp *htt
 	return response, nil
 }
 
+// parseRetryAfter returns the number of seconds to wait according to the given value of the Retry-After header, which is
+// either a number of seconds or a date.
+func parseRetryAfter(value string) (int, error) {
+	date, err := http.ParseTime(value)
+	if err == nil {
+		secondsUntilDate := int(math.Ceil(time.Until(date).Seconds()))
+		if secondsUntilDate < 0 {
+			return 0, errors.Errorf("Date '%s' is in the past", value)
+		}
+		return secondsUntilDate, nil
+	}
+	return strconv.Atoi(value)
+}
+
 func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http.Response, error) {
 	var response *http.Response
 	var err error
@@ -145,7 +160,7 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 		if response.StatusCode == http.StatusTooManyRequests {
 			// 429 (too many requests): wait a bit and retry
 			var waitTime int
-			waitTime, err = strconv.Atoi(response.Header.Get(HeaderRetryAfter))
+			waitTime, err = parseRetryAfter(response.Header.Get(HeaderRetryAfter))
 			if err != nil {
 				waitTime = 2
 				sigolo.Warnf("Unable to parse '%s' header value after receiving HTTP status code %d. Instead I'll wait %d seconds, but this might lead to recurring HTTP errors.", HeaderRetryAfter, http.StatusTooManyRequests, waitTime)
-- 
2.43.0


From c940853b442bbbbae9e998d156490bb6f2212083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 82/92] fix: recognise attributes of references in all
 notations

---
 src/parser/pattern.go   |  1 +
 src/parser/reference.go | 29 ++++++++---------------------
 2 files changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 5867311..8a7ca56 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -73,6 +73,7 @@ var (
 
 // References
 var (
+	referenceAttributeRegex        = regexp.MustCompile(`\s([^\s"'/<=>]+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*))`)
 	referencePlaceholderShortRegex = regexp.MustCompile(`(?i)<references.*?/\s*>`) // <references />
 	referencePlaceholderStartRegex = regexp.MustCompile(`(?i)<references.*?\s*>`)  // <references group="foo" >
 	referencePlaceholderEndRegex   = regexp.MustCompile(`(?i)</references\s*>`)    // </references>
diff --git a/src/parser/reference.go b/src/parser/reference.go
index 50f4908..3a4c1c1 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -250,30 +250,17 @@ func (t *Tokenizer) getGroupOrDefault(content string) string {
 
 // getAttribute determines the values after "{attributeName}=" (so e.g. "name=") and supports quoted and unquoted
 // attributes. When unquoted attributes are used (e.g. as in name=foobar), the value is only interpreted until a space
-// of slash. For quoted attributes (e.g. as in name="foo bar") everything until the next quote is interpreted as name value.
+// or the slash at the end of the tag. For quoted attributes (e.g. as in name="foo bar") everything until the next quote
+// is interpreted as name value.
 func (t *Tokenizer) getAttribute(content string, attributeName string) string {
-	if strings.Contains(content, " "+attributeName+"=\"") {
-		// Attribute with quotation
-		parts := strings.Split(content, "\"")
-		for i, part := range parts {
-			if strings.HasSuffix(part, " "+attributeName+"=") {
-				// Found attribute key, next item is the value which can be returned
-				return parts[i+1]
+	for _, match := range referenceAttributeRegex.FindAllStringSubmatch(content, -1) {
+		if util.EqualsIgnoreCase(match[1], attributeName) {
+			unquotedValue := match[4]
+			if strings.HasSuffix(content, unquotedValue) {
+				unquotedValue = strings.TrimSuffix(unquotedValue, "/") // End of <ref.../>
 			}
+			return strings.TrimSpace(match[2] + match[3] + unquotedValue)
 		}
-	} else if strings.Contains(content, " "+attributeName+"=") {
-		// Attribute without quotation like "name=foo"
-		// The value ends with a space (separator for additional attributes) or slash (and of <ref.../>-token).
-		parts := strings.SplitN(content, " "+attributeName+"=", 2)
-		var letter rune
-		var attributeValue string
-		for _, letter = range parts[1] {
-			if letter == '/' || letter == ' ' || letter == '>' {
-				break
-			}
-			attributeValue += string(letter)
-		}
-		return attributeValue
 	}
 
 	// Attribut not found
-- 
2.43.0


From bc1aae1f6335cd755bb8fc98bbd272c81a346120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 83/92] fix: treat named references without content as usages

---
 src/parser/reference.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 3a4c1c1..67be44e 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -216,7 +216,11 @@ func (t *Tokenizer) parseReferenceDefinition(content string, i int, startEndInde
 		}
 	}
 
-	refNumberToContent[refNumber] = t.tokenizeContent(t, content[startEndIndex+1:refEndIndex])
+	refContent := content[startEndIndex+1 : refEndIndex]
+	if nameAttributeValue == "" || strings.TrimSpace(refContent) != "" {
+		// A named reference without content is just another usage like "<ref name=foo />".
+		refNumberToContent[refNumber] = t.tokenizeContent(t, refContent)
+	}
 
 	if !cursorWithinReferencePlaceholder {
 		tokenKey := t.getToken(TOKEN_REF_USAGE)
-- 
2.43.0


From 8c087b46f8c2f809c5c5ff5cad0f1ef234339322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 84/92] fix: keep text behind the end of tables

---
 src/parser/table.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index eec4d19..a234f7f 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -55,10 +55,11 @@ func (t *Tokenizer) parseTables(content string) string {
 	return content
 }
 
-// tokenizeTable returns the token of the table and the index of the row where this table ended.
+// tokenizeTable returns the token of the table, followed by possible text behind its end, and the index of the row where this table ended.
 func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	var tableLines []string
 	var tableToken string
+	textAfterTable := ""
 	tableLines = append(tableLines, lines[i])
 	listPrefix := ""
 	if submatch := tableStartRegex.FindStringSubmatch(strings.TrimSpace(lines[i])); submatch != nil {
@@ -76,7 +77,8 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 			tableLines = append(tableLines, tableToken)
 		} else if strings.HasPrefix(line, "|}") {
 			// the table ends with this line
-			tableLines = append(tableLines, lines[i])
+			tableLines = append(tableLines, "|}")
+			textAfterTable = strings.TrimSpace(strings.TrimPrefix(line, "|}"))
 			break
 		} else {
 			tableLines = append(tableLines, lines[i])
@@ -94,6 +96,10 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 		_, tokenKey, _ = t.tokenizeList([]string{listPrefix + tokenKey}, 0, ":")
 	}
 
+	if textAfterTable != "" {
+		tokenKey += "\n" + textAfterTable
+	}
+
 	return tokenKey, i
 }
 
-- 
2.43.0


From cf133ec6bd0989b6cd2be9c25d4db263d2f2a47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 85/92] fix: recognise attributes of table cells in all
 notations

---
 src/parser/pattern.go | 4 ++--
 src/parser/table.go   | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 8a7ca56..cf0c1c1 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -67,8 +67,8 @@ var (
 // Tables
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
-	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align:\s*[^;"'$\s]+;?`)
+	tableRowAndColspanRegex = regexp.MustCompile(`(?i)(colspan|rowspan)\s*=\s*["']?\s*(\d+)\s*["']?`)
+	tableTextAlignRegex     = regexp.MustCompile(`(?i)text-align\s*:\s*[^;"'$\s]+;?`)
 )
 
 // References
diff --git a/src/parser/table.go b/src/parser/table.go
index a234f7f..1084522 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -288,7 +288,9 @@ func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttribut
 	rowAndColspanMatch := tableRowAndColspanRegex.FindAllStringSubmatch(attributeString, -1)
 	if len(rowAndColspanMatch) > 0 {
 		for _, match := range rowAndColspanMatch {
-			relevantTags = append(relevantTags, match[0])
+			// Use a normalized notation, e.g. for "ColSpan = '2'"
+			attribute := strings.ReplaceAll(strings.ToLower(match[0]), "'", `"`)
+			relevantTags = append(relevantTags, strings.Join(strings.Fields(attribute), ""))
 		}
 	}
 
-- 
2.43.0


From c8fb9f5ff72402423c3d23825d2d48a6223a95c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 86/92] fix: remove whole lines with nothing but comments and
 blanks

---
 src/parser/cleaner.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 20719da..eb718bf 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -53,12 +53,13 @@ func (t *Tokenizer) removeComments(content string) string {
 			nonCommentSegment := segments[0]
 
 			// Remove potentially trailing newline:
-			if len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' && startsWithLineEnd(splitContent[i+1:]) {
+			segmentWithoutBlanks := strings.TrimRight(nonCommentSegment, " \t")
+			if strings.HasSuffix(segmentWithoutBlanks, "\n") && startsWithLineEnd(splitContent[i+1:]) {
 				// If this segments ends with a newline, the comment following it started with a newline. We remove the
 				// newline, because otherwise, there will be additional blank lines between former comments. Example:
 				// "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
 				// When there's text behind the comment, the newline has to stay to not join this text with the line before.
-				nonCommentSegment = nonCommentSegment[:len(nonCommentSegment)-1]
+				nonCommentSegment = strings.TrimSuffix(segmentWithoutBlanks, "\n")
 			}
 
 			resultSegments = append(resultSegments, nonCommentSegment)
@@ -72,10 +73,10 @@ func (t *Tokenizer) removeComments(content string) string {
 // "-->" of comments, only consists of further comments until the end of the line.
 func startsWithLineEnd(segments []string) bool {
 	for _, segment := range segments {
+		segment = strings.TrimLeft(segment, " \t")
 		if strings.HasPrefix(segment, "<!--") {
 			continue
 		}
-		segment = strings.TrimLeft(segment, " \t")
 		return segment == "" || segment[0] == '\n'
 	}
 	return false
-- 
2.43.0


From 84891733eeee4c32e95c9cd5299699f49d8060a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 87/92] fix: keep the text directly behind URLs with other
 protocols

---
 src/parser/link.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index 350d778..13f9cc4 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -132,12 +132,15 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		} else if linkType == LINK_TYPE_EXTERNAL {
 			// See https://www.mediawiki.org/wiki/API:Extlinks property "elprotocol" for all possible values that are
 			// supported by MediaWiki. However, these are the most likely ones:
-			if util.HasAnyPrefix(linkTarget, "http://", "https://") {
+			isHttpUrl := util.HasAnyPrefix(linkTarget, "http://", "https://")
+			if isHttpUrl || strings.Contains(linkTarget, "://") {
 				// Everything from the first character on that isn't allowed in a URL belongs to the text.
 				if endMatch := externalUrlEndRegex.FindStringIndex(linkTarget); endMatch != nil {
 					linkText = linkTarget[endMatch[0]:] + linkDelimiter + linkText
 					linkTarget = linkTarget[:endMatch[0]]
 				}
+			}
+			if isHttpUrl {
 				token = ExternalLinkToken{
 					URL:      linkTarget,
 					LinkText: t.tokenizeInlineContent(linkText),
-- 
2.43.0


From 10ba8599ee151057de9740dfe13d4d364e7a2f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 88/92] fix: keep lines of formatted elements together when
 something else is not closed

---
 src/parser/formatting.go | 41 +++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/parser/formatting.go b/src/parser/formatting.go
index f952a8d..897d58e 100644
--- a/src/parser/formatting.go
+++ b/src/parser/formatting.go
@@ -79,37 +79,44 @@ func isSameFormattingParagraph(line string, nextLine string) bool {
 	return !formattingParagraphEndRegex.MatchString(line) && !formattingParagraphStartRegex.MatchString(nextLine)
 }
 
-// splitIntoFormattingLines splits the content at all line breaks that are not part of a link, image or reference.
+// splitIntoFormattingLines splits the content at all line breaks that are not part of a link, image or reference. Links
+// and references that are not closed don't hold any lines together.
 func splitIntoFormattingLines(content string) []string {
-	var lines []string
-	lineStart := 0
-	linkDepth := 0
-	refDepth := 0
+	var openLinks []int
+	var openRefs []int
+	depthChanges := map[int]int{}
 
 	for i := 0; i < len(content); i++ {
 		remainingContent := content[i:]
 		switch {
 		case strings.HasPrefix(remainingContent, "[["):
-			linkDepth++
+			openLinks = append(openLinks, i)
 			i++
-		case strings.HasPrefix(remainingContent, "]]") && linkDepth > 0:
-			linkDepth--
+		case strings.HasPrefix(remainingContent, "]]") && len(openLinks) > 0:
+			depthChanges[openLinks[len(openLinks)-1]]++
+			depthChanges[i]--
+			openLinks = openLinks[:len(openLinks)-1]
 			i++
 		case content[i] == '<' && formattingRefStartRegex.MatchString(remainingContent):
 			if tagEnd := strings.Index(remainingContent, ">"); tagEnd > 0 && remainingContent[tagEnd-1] != '/' {
-				refDepth++
+				openRefs = append(openRefs, i)
 			}
-		case content[i] == '<' && refDepth > 0 && formattingRefEndRegex.MatchString(remainingContent):
-			refDepth--
-		case content[i] == '\n' && linkDepth == 0 && refDepth == 0:
-			lines = append(lines, content[lineStart:i])
-			lineStart = i + 1
+		case content[i] == '<' && len(openRefs) > 0 && formattingRefEndRegex.MatchString(remainingContent):
+			depthChanges[openRefs[len(openRefs)-1]]++
+			depthChanges[i]--
+			openRefs = openRefs[:len(openRefs)-1]
 		}
 	}
 
-	if linkDepth != 0 || refDepth != 0 {
-		// Something is not closed, so it doesn't hold the following lines together.
-		return append(lines, strings.Split(content[lineStart:], "\n")...)
+	var lines []string
+	lineStart := 0
+	depth := 0
+	for i := 0; i < len(content); i++ {
+		depth += depthChanges[i]
+		if content[i] == '\n' && depth == 0 {
+			lines = append(lines, content[lineStart:i])
+			lineStart = i + 1
+		}
 	}
 	return append(lines, content[lineStart:])
 }
-- 
2.43.0


From ea4a679ac1e0c5ba18a4366dbd4dab480aaf846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:50 +0000
Subject: [PATCH 89/92] fix: report answers which do not contain the requested
 article or template and do not keep them in the cache

---
 src/generator/html.go      |  2 ++
 src/wikipedia/wikipedia.go | 30 +++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index d4eac0e..caca281 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -380,6 +380,8 @@ func (g *HtmlGenerator) expandMath(token parser.MathToken) (string, error) {
 
 	svg, err := image.ReadSimpleAvgAttributes(svgAbsolutePath)
 	if err != nil {
+		// Without removal, the unusable file would also be used next time.
+		_ = util.CurrentFilesystem.Remove(svgAbsolutePath)
 		return "", err
 	}
 
diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index e882f84..73cc693 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -98,7 +98,11 @@ func (w *DefaultWikipediaService) DownloadArticle(host string, title string) (*W
 
 	wikiArticleDto := &WikiArticleDto{}
 	err = json.Unmarshal(cachedResponseBytes, wikiArticleDto)
+	if err == nil && wikiArticleDto.Parse.Title == "" {
+		err = errors.New("Response does not contain an article")
+	}
 	if err != nil {
+		removeUnusableFile(cachedFilePath)
 		return nil, errors.Wrap(err, fmt.Sprintf("Error parsing JSON from article %s.%s/%s", w.wikipediaInstance, w.wikipediaHost, title))
 	}
 
@@ -109,6 +113,15 @@ func (w *DefaultWikipediaService) DownloadArticle(host string, title string) (*W
 	return wikiArticleDto, nil
 }
 
+// removeUnusableFile removes the given file from the cache, because it doesn't contain what has been requested. It will
+// therefore be downloaded again next time.
+func removeUnusableFile(cachedFilePath string) {
+	err := util.CurrentFilesystem.Remove(cachedFilePath)
+	if err != nil && !os.IsNotExist(err) {
+		sigolo.Warnf("Unable to remove unusable file '%s': %s", cachedFilePath, err.Error())
+	}
+}
+
 // DownloadImages tries to download the given images from a couple of sources (wikipedia/wikimedia instances). The
 // downloaded images will be in the output folder. Some images might be redirects, so the redirect will be resolved,
 // that's why the article cache folder is needed as well.
@@ -264,6 +277,9 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	originalImageName = strings.ReplaceAll(originalImageName, " ", "_")
 
 	actualImageNameWithPrefix := imageArticle.Parse.Title
+	if !strings.Contains(actualImageNameWithPrefix, ":") {
+		return "", true, errors.Errorf("Page '%s' of image '%s' is not the page of a file", actualImageNameWithPrefix, imageNameWithPrefix)
+	}
 	actualImageName := strings.Split(actualImageNameWithPrefix, ":")[1]
 	actualImageName = strings.ReplaceAll(actualImageName, " ", "_")
 
@@ -313,13 +329,21 @@ func (w *DefaultWikipediaService) EvaluateTemplate(template string, cacheFile st
 		return "", errors.Wrapf(err, "Reading cached template file '%s' failed", cacheFilePath)
 	}
 
-	evaluatedTemplate := &WikiExpandedTemplateDto{}
-	err = json.Unmarshal(evaluatedTemplateString, evaluatedTemplate)
+	evaluatedTemplate := struct {
+		ExpandTemplate struct {
+			Content *string `json:"wikitext"` // A pointer, because an empty result is valid but a missing one isn't.
+		} `json:"expandtemplates"`
+	}{}
+	err = json.Unmarshal(evaluatedTemplateString, &evaluatedTemplate)
+	if err == nil && evaluatedTemplate.ExpandTemplate.Content == nil {
+		err = errors.New("Response does not contain an evaluated template")
+	}
 	if err != nil {
+		removeUnusableFile(cacheFilePath)
 		return "", errors.Wrapf(err, "Unable to unmarshal template string:\n%s", evaluatedTemplateString)
 	}
 
-	return evaluatedTemplate.ExpandTemplate.Content, nil
+	return *evaluatedTemplate.ExpandTemplate.Content, nil
 }
 
 func (w *DefaultWikipediaService) RenderMath(mathString string) (string, string, error) {
-- 
2.43.0


From 8f0cca51141f8a01d28c3645f7e42112989757cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:58 +0000
Subject: [PATCH 90/92] fix: keep the existing output file if the creation of
 the new one fails

---
 src/main.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/main.go b/src/main.go
index 270605f..cad0420 100644
--- a/src/main.go
+++ b/src/main.go
@@ -467,18 +467,37 @@ func generateArticleOutput(article *parser.Article, wikipediaService *wikipedia.
 
 // generateOutputFile creates the final output file in the configured output format from the outputs of the articles.
 func generateOutputFile(articleOutputFiles []string, outputFile string, metadata config.Metadata) {
+	// In case of an error, there must be no incomplete output file and an existing one has to stay as it is. Therefore,
+	// the output is written to a different file first.
+	actualOutputFile, err := filepath.EvalSymlinks(outputFile)
+	if err != nil {
+		actualOutputFile = outputFile
+	}
+	incompleteOutputFile := filepath.Join(filepath.Dir(actualOutputFile), fmt.Sprintf(".wiki2book-%d.part", os.Getpid()))
+	if info, statErr := os.Stat(actualOutputFile); statErr == nil && !info.Mode().IsRegular() {
+		// A device or pipe can only be written directly.
+		incompleteOutputFile = actualOutputFile
+	}
+
 	switch config.Current.OutputType {
 	case config.OutputTypeEpub2:
 		fallthrough
 	case config.OutputTypeEpub3:
-		err := generator.GenerateEpub(articleOutputFiles, outputFile, metadata)
-		sigolo.FatalCheck(err)
+		err = generator.GenerateEpub(articleOutputFiles, incompleteOutputFile, metadata)
 	case config.OutputTypeStatsJson:
 		fallthrough
 	case config.OutputTypeStatsTxt:
-		err := generator.GenerateCombinedStats(articleOutputFiles, outputFile)
-		sigolo.FatalCheck(err)
+		err = generator.GenerateCombinedStats(articleOutputFiles, incompleteOutputFile)
+	}
+	if incompleteOutputFile != actualOutputFile {
+		if err == nil {
+			err = os.Rename(incompleteOutputFile, actualOutputFile)
+		}
+		if err != nil {
+			_ = os.Remove(incompleteOutputFile)
+		}
 	}
+	sigolo.FatalCheck(errors.Wrapf(err, "Error creating output file %s", outputFile))
 }
 
 func shouldRecreateHtml(htmlFilePath string, forceHtmlRecreate bool) bool {
-- 
2.43.0


From acd348971f8a94413e522e066df608a2fe027966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:36 +0000
Subject: [PATCH 91/92] fix: download articles and templates again if the
 cached file is unusable

---
 src/wikipedia/wikipedia.go | 98 ++++++++++++++++++++++++--------------
 1 file changed, 61 insertions(+), 37 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 73cc693..0ea4d15 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -65,6 +65,7 @@ type DefaultWikipediaService struct {
 	wikipediaMathRestApi       string
 	imageProcessingService     image.ImageProcessingService
 	httpService                ownHttp.HttpService
+	fileLocks                  sync.Map // Locks by path of the cached file
 	imageLocks                 sync.Map // Image name to mutex, because images can be part of multiple articles.
 }
 
@@ -86,24 +87,17 @@ func (w *DefaultWikipediaService) DownloadArticle(host string, title string) (*W
 	urlString := fmt.Sprintf("https://%s/w/api.php?action=parse&prop=wikitext&redirects=true&format=json&page=%s", host, escapedTitle)
 
 	cachedFile := titleWithoutWhitespaces + ".json"
-	cachedFilePath, _, err := w.httpService.DownloadAndCache(urlString, cache.ArticleCacheDirName, cachedFile)
-	if err != nil {
-		return nil, errors.Wrapf(err, "Unable to download article %s", title)
-	}
-
-	cachedResponseBytes, err := util.CurrentFilesystem.ReadFile(cachedFilePath)
-	if err != nil {
-		return nil, errors.Wrap(err, "Unable to read body bytes")
-	}
-
 	wikiArticleDto := &WikiArticleDto{}
-	err = json.Unmarshal(cachedResponseBytes, wikiArticleDto)
-	if err == nil && wikiArticleDto.Parse.Title == "" {
-		err = errors.New("Response does not contain an article")
-	}
+	err := w.downloadAndParse(urlString, cache.ArticleCacheDirName, cachedFile, func(content []byte) error {
+		*wikiArticleDto = WikiArticleDto{}
+		err := json.Unmarshal(content, wikiArticleDto)
+		if err == nil && wikiArticleDto.Parse.Title == "" {
+			err = errors.New("Response does not contain an article")
+		}
+		return errors.Wrapf(err, "Error parsing JSON from article %s.%s/%s", w.wikipediaInstance, w.wikipediaHost, title)
+	})
 	if err != nil {
-		removeUnusableFile(cachedFilePath)
-		return nil, errors.Wrap(err, fmt.Sprintf("Error parsing JSON from article %s.%s/%s", w.wikipediaInstance, w.wikipediaHost, title))
+		return nil, errors.Wrapf(err, "Unable to download article %s", title)
 	}
 
 	// Use the given title. When the article is behind a redirect, the actual title is used which might be unexpected
@@ -113,6 +107,39 @@ func (w *DefaultWikipediaService) DownloadArticle(host string, title string) (*W
 	return wikiArticleDto, nil
 }
 
+// downloadAndParse passes the content of the given URL, which is cached in the given file, to the parse function. When
+// this function returns an error, the content is unusable and not kept in the cache. If an unusable file has already been
+// in the cache (e.g. because a former run was aborted), then it's downloaded again.
+func (w *DefaultWikipediaService) downloadAndParse(urlString string, cacheFolderName string, cacheFile string, parse func(content []byte) error) error {
+	fileLock, _ := w.fileLocks.LoadOrStore(cacheFolderName+"/"+cacheFile, &sync.Mutex{})
+	fileLock.(*sync.Mutex).Lock()
+	defer fileLock.(*sync.Mutex).Unlock()
+
+	var parseErr error
+	for attempt := 0; attempt < 2; attempt++ {
+		cachedFilePath, freshlyDownloaded, err := w.httpService.DownloadAndCache(urlString, cacheFolderName, cacheFile)
+		if err != nil {
+			return err
+		}
+
+		content, err := util.CurrentFilesystem.ReadFile(cachedFilePath)
+		if err != nil {
+			return errors.Wrapf(err, "Reading cached file '%s' failed", cachedFilePath)
+		}
+
+		parseErr = parse(content)
+		if parseErr == nil {
+			return nil
+		}
+
+		removeUnusableFile(cachedFilePath)
+		if freshlyDownloaded {
+			break
+		}
+	}
+	return parseErr
+}
+
 // removeUnusableFile removes the given file from the cache, because it doesn't contain what has been requested. It will
 // therefore be downloaded again next time.
 func removeUnusableFile(cachedFilePath string) {
@@ -319,31 +346,28 @@ func (w *DefaultWikipediaService) EvaluateTemplate(template string, cacheFile st
 	sigolo.Debugf("Evaluate template %s (hash/filename: %s)", util.TruncString(template), cacheFile)
 
 	urlString := fmt.Sprintf("https://%s.%s/w/api.php?action=expandtemplates&format=json&prop=wikitext&text=%s", w.wikipediaInstance, w.wikipediaHost, url.QueryEscape(template))
-	cacheFilePath, _, err := w.httpService.DownloadAndCache(urlString, cache.TemplateCacheDirName, cacheFile)
+	evaluatedTemplate := ""
+	err := w.downloadAndParse(urlString, cache.TemplateCacheDirName, cacheFile, func(content []byte) error {
+		response := struct {
+			ExpandTemplate struct {
+				Content *string `json:"wikitext"` // A pointer, because an empty result is valid but a missing one isn't.
+			} `json:"expandtemplates"`
+		}{}
+		err := json.Unmarshal(content, &response)
+		if err == nil && response.ExpandTemplate.Content == nil {
+			err = errors.New("Response does not contain an evaluated template")
+		}
+		if err != nil {
+			return errors.Wrapf(err, "Unable to unmarshal template string:\n%s", content)
+		}
+		evaluatedTemplate = *response.ExpandTemplate.Content
+		return nil
+	})
 	if err != nil {
 		return "", errors.Wrapf(err, "Error calling evaluation API and caching result for template:\n%s", template)
 	}
 
-	evaluatedTemplateString, err := util.CurrentFilesystem.ReadFile(cacheFilePath)
-	if err != nil {
-		return "", errors.Wrapf(err, "Reading cached template file '%s' failed", cacheFilePath)
-	}
-
-	evaluatedTemplate := struct {
-		ExpandTemplate struct {
-			Content *string `json:"wikitext"` // A pointer, because an empty result is valid but a missing one isn't.
-		} `json:"expandtemplates"`
-	}{}
-	err = json.Unmarshal(evaluatedTemplateString, &evaluatedTemplate)
-	if err == nil && evaluatedTemplate.ExpandTemplate.Content == nil {
-		err = errors.New("Response does not contain an evaluated template")
-	}
-	if err != nil {
-		removeUnusableFile(cacheFilePath)
-		return "", errors.Wrapf(err, "Unable to unmarshal template string:\n%s", evaluatedTemplateString)
-	}
-
-	return *evaluatedTemplate.ExpandTemplate.Content, nil
+	return evaluatedTemplate, nil
 }
 
 func (w *DefaultWikipediaService) RenderMath(mathString string) (string, string, error) {
-- 
2.43.0


From d91c0d611395de39417d519e9777f3298126c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:53 +0000
Subject: [PATCH 92/92] fix: download the SVG file of a formula again if the
 cached file is unusable

---
 src/image/svg.go           | 19 ++++++++++++++++---
 src/wikipedia/wikipedia.go |  7 +++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 542b6e0..fba2e3f 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -17,9 +17,10 @@ import (
 )
 
 type SimpleSvgAttributes struct {
-	Width  string `xml:"width,attr"`
-	Height string `xml:"height,attr"`
-	Style  string `xml:"style,attr"`
+	XMLName xml.Name
+	Width   string `xml:"width,attr"`
+	Height  string `xml:"height,attr"`
+	Style   string `xml:"style,attr"`
 }
 
 var (
@@ -42,6 +43,18 @@ func ReadSimpleAvgAttributes(filename string) (*SimpleSvgAttributes, error) {
 	return attributes, nil
 }
 
+// ValidateSvg returns an error if the given content isn't the one of an SVG file or if it can't be parsed.
+func ValidateSvg(content []byte, filename string) error {
+	attributes, err := parseSimpleSvgAttributes(content, filename)
+	if err != nil {
+		return err
+	}
+	if attributes.XMLName.Local != "svg" {
+		return errors.Errorf("Root element of SVG document '%s' is '%s'", filename, attributes.XMLName.Local)
+	}
+	return nil
+}
+
 // MakeSvgSizeAbsolute turns relative width and height attributes of the given SVG file into absolute values based on
 // the "viewBox" attribute. Only if both attributes (width and height) are already absolute values, nothing will be
 // changed.
diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 0ea4d15..d21b395 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -382,9 +382,12 @@ func (w *DefaultWikipediaService) RenderMath(mathString string) (string, string,
 	}
 
 	imageSvgUrl := mathApiUrl + "/render/svg/" + mathSvgFilename
-	cachedSvgFile, _, err := w.httpService.DownloadAndCache(imageSvgUrl, cache.ImageCacheDirName, mathSvgFilename+util.FileEndingSvg)
+	cachedSvgFile := cache.GetFilePathInCache(cache.ImageCacheDirName, mathSvgFilename+util.FileEndingSvg)
+	err = w.downloadAndParse(imageSvgUrl, cache.ImageCacheDirName, mathSvgFilename+util.FileEndingSvg, func(content []byte) error {
+		return image.ValidateSvg(content, cachedSvgFile)
+	})
 	if err != nil {
-		return "", "", err
+		return "", "", errors.Wrapf(err, "Unable to download SVG file '%s'", cachedSvgFile)
 	}
 
 	if config.Current.MathConverter == config.MathConverterNone {
-- 
2.43.0

