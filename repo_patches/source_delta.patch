From 832fa0b0ff098ec3bc8de3a65f63a480dc270d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:21 +0000
Subject: [PATCH 01/40] fix: compare directories by path segment instead of by
 string prefix

A command given directory a/foo also formatted, compiled, linted, generated
and listed the files of sibling directories such as a/foobar.
---
 internal/create/handler.go           | 10 ++++------
 internal/exec/runner.go              |  8 ++++----
 internal/file/proto_set_provider.go  |  3 +--
 internal/lint/lint.go                |  2 +-
 internal/protoc/compiler.go          | 10 ++++------
 internal/settings/config_provider.go |  2 +-
 internal/settings/settings.go        | 12 ++++++++++++
 7 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 6d6115b..02e8cfd 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -254,9 +254,8 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 	// note that createDirPath will always be absolute per the spec in
 	// the settings package
 	for createDirPath, basePkg := range config.Create.DirPathToBasePackage {
-		// TODO: cannot do rel right away because it will do ../.. if necessary
-		// strings.HasPrefix is not OS independent however
-		if !strings.HasPrefix(absDirPath, createDirPath) {
+		// cannot do rel right away because it will do ../.. if necessary
+		if !settings.IsWithinDir(createDirPath, absDirPath) {
 			continue
 		}
 		if len(createDirPath) > len(longestCreateDirPath) {
@@ -274,9 +273,8 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 
 	// no package mapping found, do default logic
 
-	// TODO: cannot do rel right away because it will do ../.. if necessary
-	// strings.HasPrefix is not OS independent however
-	if !strings.HasPrefix(absDirPath, config.DirPath) {
+	// cannot do rel right away because it will do ../.. if necessary
+	if !settings.IsWithinDir(config.DirPath, absDirPath) {
 		return defaultPackage, nil
 	}
 	rel, err := filepath.Rel(config.DirPath, absDirPath)
diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 9124bfd..3eb3c4d 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -226,7 +226,7 @@ func (r *runner) Files(args []string) error {
 	var allFiles []string
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !settings.IsWithinDir(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
 		for _, file := range files {
@@ -491,7 +491,7 @@ func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader
 	success := true
 	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !settings.IsWithinDir(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
 		for _, protoFile := range protoFiles {
@@ -797,7 +797,7 @@ func (r *runner) BreakCheck(args []string, gitBranch string, descriptorSetPath s
 		if err != nil {
 			return err
 		}
-		if !strings.HasPrefix(absDirPath, absWorkDirPath) {
+		if !settings.IsWithinDir(absWorkDirPath, absDirPath) {
 			return fmt.Errorf("input directory must be within working directory: %s", relDirPath)
 		}
 
@@ -1199,7 +1199,7 @@ func (r *runner) printLinters(config settings.LintConfig, linters []lint.Linter)
 func (r *runner) printAffectedFiles(meta *meta) {
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !settings.IsWithinDir(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
 		for _, file := range files {
diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index bd33599..3f16cf3 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -25,7 +25,6 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
-	"strings"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -321,7 +320,7 @@ func validateIsRel(base string, dir string) error {
 	if rel == "" {
 		return fmt.Errorf("could not make %s relative to %s, this is a system error", base, dir)
 	}
-	if strings.HasPrefix(rel, "..") {
+	if !settings.IsWithinDir(base, dir) {
 		return fmt.Errorf("could not make %s within %s, got %s, this is a system error", base, dir, rel)
 	}
 	return nil
diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 7d9634b..af37e96 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -429,7 +429,7 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 	dirPathToDescriptors := make(map[string][]*FileDescriptor, len(protoSet.DirPathToFiles))
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !settings.IsWithinDir(protoSet.DirPath, dirPath) {
 			continue
 		}
 		descriptors := make([]*FileDescriptor, len(protoFiles))
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 9a379bf..645dda1 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -215,7 +215,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 		} else {
 			for dirPath := range protoSet.DirPathToFiles {
 				// skip those files not under the directory
-				if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+				if !settings.IsWithinDir(protoSet.DirPath, dirPath) {
 					continue
 				}
 				relOutputFilePath, err := getRelOutputFilePath(protoSet, dirPath, genPlugin.FileSuffix)
@@ -315,7 +315,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	}
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !settings.IsWithinDir(protoSet.DirPath, dirPath) {
 			continue
 		}
 		// you want your proto files to be in at least one of the -I directories
@@ -588,8 +588,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 	includedConfigDirPath := false
 	for _, includePath := range config.Compile.IncludePaths {
 		includes = append(includes, includePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, includePath) {
+		if settings.IsWithinDir(includePath, dirPath) {
 			fileInIncludePath = true
 		}
 		if includePath == configDirPath {
@@ -602,8 +601,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 			return nil, err
 		}
 		includes = append(includes, wellKnownTypesIncludePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, wellKnownTypesIncludePath) {
+		if settings.IsWithinDir(wellKnownTypesIncludePath, dirPath) {
 			fileInIncludePath = true
 		}
 	}
diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 616e7a8..905edc1 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -416,7 +416,7 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 		if excludePrefix == dirPath {
 			return nil, fmt.Errorf("cannot exclude directory of config file: %s", dirPath)
 		}
-		if !strings.HasPrefix(excludePrefix, dirPath) {
+		if !IsWithinDir(dirPath, excludePrefix) {
 			return nil, fmt.Errorf("cannot exclude directory outside of config file directory %s: %s", dirPath, excludePrefix)
 		}
 		excludePrefixes = append(excludePrefixes, excludePrefix)
diff --git a/internal/settings/settings.go b/internal/settings/settings.go
index 42b3b26..9e4c645 100644
--- a/internal/settings/settings.go
+++ b/internal/settings/settings.go
@@ -22,6 +22,7 @@ package settings
 
 import (
 	"fmt"
+	"os"
 	"strconv"
 	"strings"
 
@@ -415,3 +416,14 @@ func ConfigProviderWithDevelMode() ConfigProviderOption {
 func NewConfigProvider(options ...ConfigProviderOption) ConfigProvider {
 	return newConfigProvider(options...)
 }
+
+// IsWithinDir returns true if the path is equal to the dirPath, or is nested
+// within the dirPath.
+//
+// Both paths must be absolute and cleaned. As opposed to strings.HasPrefix,
+// this does not return true for siblings that start with the same characters,
+// that is "/a/foobar" is not within "/a/foo".
+func IsWithinDir(dirPath string, path string) bool {
+	separator := string(os.PathSeparator)
+	return path == dirPath || strings.HasPrefix(path, strings.TrimSuffix(dirPath, separator)+separator)
+}
-- 
2.43.0


From 0c3bf0e5fc404f42be1915cbca58c5a192d569eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 02/40] fix: resolve the file name of a protoc message by whole
 path components

The display path was only found if the name that protoc printed was a suffix of
it, so 'prototool compile f.proto' in a subdirectory of the configuration file
failed without printing anything, and a message about a.proto could be
attributed to, or be ambiguous with, another_a.proto.
---
 internal/protoc/compiler.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 645dda1..c3415e5 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -859,9 +859,11 @@ func bestFilePath(cmdMeta *cmdMeta, match string) string {
 func getDisplayFilePath(cmdMeta *cmdMeta, match string) (string, error) {
 	matchingFile := ""
 	for _, protoFile := range cmdMeta.protoFiles {
-		// if the suffix is the file name, this is a better display name
-		// we don't handle the reverse case, ie display path is a suffix of match
-		if strings.HasSuffix(protoFile.DisplayPath, match) {
+		// if the path ends with the match, this is a better display name
+		// we compare the absolute path as the display path can be a suffix of
+		// the match, and whole path components as the match can be a suffix
+		// of the name of another file
+		if protoFile.Path == match || strings.HasSuffix(protoFile.Path, string(os.PathSeparator)+match) {
 			// if there is more than one match, we don't know what to do
 			if matchingFile != "" {
 				return "", fmt.Errorf("duplicate matching file: %s", matchingFile)
-- 
2.43.0


From bc423b4c6d2e4023530d78d1cd45751dceb1937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 03/40] fix: keep file, line and column of protoc messages that
 contain colons

A message such as 'a.proto:5:32: Error while parsing option value for "x": ...'
or 'a.proto: Suggested field numbers for p.M: 2' lost its position and file,
and was not printed at all if a single file was given.
---
 internal/protoc/compiler.go | 54 +++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index c3415e5..c758cbe 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -74,7 +74,11 @@ var (
 	explicitDefaultValuesProto3Regexp = regexp.MustCompile("^(.*): Explicit default values are not allowed in proto3.$")
 	optionValueRegexp                 = regexp.MustCompile("^(.*): Error while parsing option value for (.*)$")
 	programNotFoundRegexp             = regexp.MustCompile("protoc-gen-(.*): program not found or is not executable$")
-	firstEnumValueZeroRegexp          = regexp.MustCompile("^(.*): The first enum value must be zero in proto3.$")
+	// any other message with or without line and column information, these are
+	// for messages that contain colons and are used last
+	positionedRegexp         = regexp.MustCompile(`^(.*?\.proto):(\d+):(\d+): (.*)$`)
+	fileMessageRegexp        = regexp.MustCompile(`^(.*?\.proto): (.*)$`)
+	firstEnumValueZeroRegexp = regexp.MustCompile("^(.*): The first enum value must be zero in proto3.$")
 )
 
 type compiler struct {
@@ -662,11 +666,11 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 			}
 			line, err := strconv.Atoi(matches[2])
 			if err != nil {
-				return c.handleUninterpretedProtocLine(protocLine)
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 			}
 			column, err := strconv.Atoi(matches[3])
 			if err != nil {
-				return c.handleUninterpretedProtocLine(protocLine)
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 			}
 			return &text.Failure{
 				Filename: bestFilePath(cmdMeta, matches[1]),
@@ -682,11 +686,11 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 			}
 			line, err := strconv.Atoi(matches[2])
 			if err != nil {
-				return c.handleUninterpretedProtocLine(protocLine)
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 			}
 			column, err := strconv.Atoi(matches[3])
 			if err != nil {
-				return c.handleUninterpretedProtocLine(protocLine)
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 			}
 			return &text.Failure{
 				Filename: bestFilePath(cmdMeta, matches[1]),
@@ -707,11 +711,11 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 		if matches := recursiveImport380Regexp.FindStringSubmatch(protocLine); len(matches) > 4 {
 			line, err := strconv.Atoi(matches[2])
 			if err != nil {
-				return c.handleUninterpretedProtocLine(protocLine)
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 			}
 			column, err := strconv.Atoi(matches[3])
 			if err != nil {
-				return c.handleUninterpretedProtocLine(protocLine)
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 			}
 			return &text.Failure{
 				Filename: bestFilePath(cmdMeta, matches[1]),
@@ -752,11 +756,27 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 		if matches := jsonCamelCase380Regexp.FindStringSubmatch(protocLine); len(matches) > 4 {
 			line, err := strconv.Atoi(matches[2])
 			if err != nil {
-				return c.handleUninterpretedProtocLine(protocLine)
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 			}
 			column, err := strconv.Atoi(matches[3])
 			if err != nil {
-				return c.handleUninterpretedProtocLine(protocLine)
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
+			}
+			return &text.Failure{
+				Filename: bestFilePath(cmdMeta, matches[1]),
+				Line:     line,
+				Column:   column,
+				Message:  matches[4],
+			}
+		}
+		if matches := positionedRegexp.FindStringSubmatch(protocLine); len(matches) > 4 {
+			line, err := strconv.Atoi(matches[2])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
+			}
+			column, err := strconv.Atoi(matches[3])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 			}
 			return &text.Failure{
 				Filename: bestFilePath(cmdMeta, matches[1]),
@@ -806,19 +826,19 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 		// but if this becomes problematic with some plugin in the future, we should
 		// return nil, nil here
 
-		return c.handleUninterpretedProtocLine(protocLine)
+		return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 	}
 	line, err := strconv.Atoi(split[1])
 	if err != nil {
-		return c.handleUninterpretedProtocLine(protocLine)
+		return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 	}
 	column, err := strconv.Atoi(split[2])
 	if err != nil {
-		return c.handleUninterpretedProtocLine(protocLine)
+		return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 	}
 	message := strings.TrimSpace(split[3])
 	if message == "" {
-		return c.handleUninterpretedProtocLine(protocLine)
+		return c.handleUninterpretedProtocLine(cmdMeta, protocLine)
 	}
 	return &text.Failure{
 		Filename: bestFilePath(cmdMeta, split[0]),
@@ -828,7 +848,13 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 	}
 }
 
-func (c *compiler) handleUninterpretedProtocLine(protocLine string) *text.Failure {
+func (c *compiler) handleUninterpretedProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Failure {
+	if matches := fileMessageRegexp.FindStringSubmatch(protocLine); len(matches) > 2 {
+		return &text.Failure{
+			Filename: bestFilePath(cmdMeta, matches[1]),
+			Message:  matches[2],
+		}
+	}
 	c.logger.Warn("protoc returned a line we do not understand, please file this as an issue "+
 		"at https://github.com/uber/prototool/issues/new", zap.String("protocLine", protocLine))
 	return &text.Failure{
-- 
2.43.0


From c41e0d01958f59258ab14df4f73499f32a20d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 04/40] fix: do not delete custom caches with cache delete

PROTOTOOL_CACHE_PATH=dir prototool cache delete removed dir and everything in
it, although the help says that custom caches are not deleted.
---
 internal/protoc/downloader.go | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index a2546c9..b60809b 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -142,7 +142,9 @@ func (d *downloader) WellKnownTypesIncludePath() (string, error) {
 }
 
 func (d *downloader) Delete() error {
-	basePath, err := d.getBasePathNoVersionOSARCH()
+	// custom cache paths are managed by the user, only the default
+	// cache is ever deleted
+	basePath, err := getDefaultBasePathNoOSARCH()
 	if err != nil {
 		return err
 	}
@@ -333,26 +335,6 @@ func (d *downloader) getBasePath() (string, error) {
 	return filepath.Join(basePathNoVersion, d.getBasePathVersionPart()), nil
 }
 
-func (d *downloader) getBasePathNoVersionOSARCH() (string, error) {
-	basePath := d.cachePath
-	var err error
-	if basePath == "" {
-		basePath, err = getDefaultBasePathNoOSARCH()
-		if err != nil {
-			return "", err
-		}
-	} else {
-		basePath, err = file.AbsClean(basePath)
-		if err != nil {
-			return "", err
-		}
-	}
-	if err := file.CheckAbs(basePath); err != nil {
-		return "", err
-	}
-	return basePath, nil
-}
-
 func (d *downloader) getBasePathNoVersion() (string, error) {
 	basePath := d.cachePath
 	var err error
-- 
2.43.0


From d0247f81a5b3cca7c4345f0d31b43aacd606aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:22 +0000
Subject: [PATCH 05/40] fix: do not panic if the well-known types path is not a
 directory

---
 internal/protoc/downloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index b60809b..25dc632 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -97,7 +97,7 @@ func newDownloader(config settings.Config, options ...DownloaderOption) (*downlo
 		}
 		protobufPath := filepath.Join(cleanWKTPath, "google", "protobuf")
 		info, err := os.Stat(protobufPath)
-		if os.IsNotExist(err) {
+		if err != nil {
 			return nil, err
 		}
 		if !info.IsDir() {
-- 
2.43.0


From 2ce8ddc4b9ad1bf926519dc59865ecd4d114ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:47 +0000
Subject: [PATCH 06/40] fix: install a downloaded protoc atomically

An unzip that was interrupted after bin/protoc was written left a cache that
was considered complete from then on, although the well-known types were
missing or truncated.
---
 internal/protoc/downloader.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 25dc632..43dd633 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -220,6 +220,27 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 	if err != nil {
 		return err
 	}
+	// unzip to a temporary directory and only move the result to the base path
+	// once it is complete, so that an interrupted download is never mistaken
+	// for a complete one
+	// this is only called while holding the file lock for the base path
+	tempPath := basePath + ".tmp"
+	if err := os.RemoveAll(tempPath); err != nil {
+		return err
+	}
+	defer func() {
+		retErr = multierr.Append(retErr, os.RemoveAll(tempPath))
+	}()
+	if err := d.unzip(data, tempPath); err != nil {
+		return err
+	}
+	if err := os.RemoveAll(basePath); err != nil {
+		return err
+	}
+	return os.Rename(tempPath, basePath)
+}
+
+func (d *downloader) unzip(data []byte, dirPath string) (retErr error) {
 	// this is a working but hacky unzip
 	// there must be a library for this
 	// we don't properly copy directories, modification times, etc
@@ -245,7 +266,7 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 		if err != nil {
 			return err
 		}
-		writeFilePath := filepath.Join(basePath, file.Name)
+		writeFilePath := filepath.Join(dirPath, file.Name)
 		if err := os.MkdirAll(filepath.Dir(writeFilePath), 0755); err != nil {
 			return err
 		}
-- 
2.43.0


From 01b76aad7a5583af14fa627c7ec1dfd2b3178ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 07/40] fix: refuse zip entries that are outside of the cache
 directory

---
 internal/protoc/downloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 43dd633..7b25fd0 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -267,6 +267,9 @@ func (d *downloader) unzip(data []byte, dirPath string) (retErr error) {
 			return err
 		}
 		writeFilePath := filepath.Join(dirPath, file.Name)
+		if !settings.IsWithinDir(dirPath, writeFilePath) {
+			return fmt.Errorf("invalid file name in zip file: %q", file.Name)
+		}
 		if err := os.MkdirAll(filepath.Dir(writeFilePath), 0755); err != nil {
 			return err
 		}
-- 
2.43.0


From ff3f083764bb393ee5c8864f1a22c08bd09e0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 08/40] fix: remove the temporary directory if git clone fails

---
 internal/git/git.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/git/git.go b/internal/git/git.go
index fbf3fbd..1ada68b 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -62,6 +62,7 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
 	output, err := exec.Command("git", args...).CombinedOutput()
 	if err != nil {
+		_ = os.RemoveAll(cloneDirPath)
 		return "", fmt.Errorf("git %s had error: %s", strings.Join(args, " "), string(output))
 	}
 	return cloneDirPath, nil
-- 
2.43.0


From a4c1c7bf2deff7183aa8358fbc0d505f399f6c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 09/40] fix: fail if protoc is terminated by SIGINT or SIGTERM

An interrupted compile was considered to be successful, so that for example an
interrupted 'prototool all' went on to format files. If the signal arrived
before the process was started, there was a nil pointer dereference.
---
 internal/protoc/compiler.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index c758cbe..0509c53 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -257,9 +257,14 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 	sig := make(chan os.Signal, 1)
 	done := make(chan error, 1)
 	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
+	defer signal.Stop(sig)
 
+	// Start before waiting for signals so that there is a process to kill.
+	if err := cmdMeta.execCmd.Start(); err != nil {
+		return nil, err
+	}
 	go func() {
-		done <- cmdMeta.execCmd.Run()
+		done <- cmdMeta.execCmd.Wait()
 	}()
 
 	var runErr error
@@ -271,7 +276,10 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 			zap.String("command", cmdMeta.String()),
 			zap.String("signal", s.String()),
 		)
-		return nil, cmdMeta.execCmd.Process.Kill()
+		// The kill fails if the process exited in the meantime, but in any case
+		// we do not know the result, so this must not be seen as a success.
+		_ = cmdMeta.execCmd.Process.Kill()
+		return nil, fmt.Errorf("protoc was terminated by signal: %s", s.String())
 	case runErr = <-done:
 		// Exit errors are ok, we can probably parse them into text.Failures
 		// if not an exec.ExitError, short circuit.
-- 
2.43.0


From f9bf74cbdcca1be5a4980316bf6ee92814338592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 10/40] fix: print commands, formatted files and errors in a
 deterministic order

The output of format and of the --dry-run flag for more than one directory
depended on the iteration order of maps, and so did the order of the modifiers
passed to Go plugins.
---
 internal/exec/runner.go     | 10 ++++++++--
 internal/protoc/compiler.go | 33 +++++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 3eb3c4d..eb9f86f 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -489,12 +489,18 @@ func (r *runner) Format(args []string, overwrite, diffMode, lintMode, fixFlag bo
 
 func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader string, javaPackagePrefix string, meta *meta) error {
 	success := true
-	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
+	// sort so that the output is always in the same order
+	dirPaths := make([]string, 0, len(meta.ProtoSet.DirPathToFiles))
+	for dirPath := range meta.ProtoSet.DirPathToFiles {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	sort.Strings(dirPaths)
+	for _, dirPath := range dirPaths {
 		// skip those files not under the directory
 		if !settings.IsWithinDir(meta.ProtoSet.DirPath, dirPath) {
 			continue
 		}
-		for _, protoFile := range protoFiles {
+		for _, protoFile := range meta.ProtoSet.DirPathToFiles[dirPath] {
 			fileSuccess, err := r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, protoFile)
 			if err != nil {
 				return err
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 0509c53..ddbfb20 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -31,6 +31,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -161,6 +162,8 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 				errStrings = append(errStrings, errString)
 			}
 		}
+		// the order of errs depends on which command completes first
+		sort.Strings(errStrings)
 		return nil, errors.New(strings.Join(errStrings, "\n"))
 	}
 	// if we have failures, it does not matter if we have file descriptor sets
@@ -325,7 +328,14 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	if _, err := downloader.Download(); err != nil {
 		return cmdMetas, err
 	}
-	for dirPath, protoFiles := range protoSet.DirPathToFiles {
+	// sort so that the commands are always in the same order
+	dirPaths := make([]string, 0, len(protoSet.DirPathToFiles))
+	for dirPath := range protoSet.DirPathToFiles {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	sort.Strings(dirPaths)
+	for _, dirPath := range dirPaths {
+		protoFiles := protoSet.DirPathToFiles[dirPath]
 		// skip those files not under the directory
 		if !settings.IsWithinDir(protoSet.DirPath, dirPath) {
 			continue
@@ -573,9 +583,7 @@ func getPluginFlagSetProtoFlags(protoSet *file.ProtoSet, dirPath string, genPlug
 			}
 		}
 	}
-	for key, value := range modifiers {
-		goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
-	}
+	goFlags = append(goFlags, getSortedModifierFlags(modifiers)...)
 	if protoSet.Config.Compile.IncludeWellKnownTypes {
 		var wktModifiers map[string]string
 		// one of these two must be true, we validate this above
@@ -584,16 +592,21 @@ func getPluginFlagSetProtoFlags(protoSet *file.ProtoSet, dirPath string, genPlug
 		} else if genPlugin.Type.IsGogo() {
 			wktModifiers = wkt.FilenameToGogoModifierMap
 		}
-		for key, value := range wktModifiers {
-			goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
-		}
-	}
-	for key, value := range genGoPluginOptions.ExtraModifiers {
-		goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
+		goFlags = append(goFlags, getSortedModifierFlags(wktModifiers)...)
 	}
+	goFlags = append(goFlags, getSortedModifierFlags(genGoPluginOptions.ExtraModifiers)...)
 	return strings.Join(goFlags, ","), nil
 }
 
+func getSortedModifierFlags(modifiers map[string]string) []string {
+	flags := make([]string, 0, len(modifiers))
+	for key, value := range modifiers {
+		flags = append(flags, fmt.Sprintf("M%s=%s", key, value))
+	}
+	sort.Strings(flags)
+	return flags
+}
+
 func getIncludes(downloader Downloader, config settings.Config, dirPath string, configDirPath string) ([]string, error) {
 	var includes []string
 	fileInIncludePath := false
-- 
2.43.0


From e1f053b473df1de48747fa133054feffc0deb706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 11/40] fix: detect deleted and renamed enum aliases in break
 check

---
 internal/breaking/helpers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/breaking/helpers.go b/internal/breaking/helpers.go
index 8bdd6c8..7807f51 100644
--- a/internal/breaking/helpers.go
+++ b/internal/breaking/helpers.go
@@ -215,10 +215,14 @@ func forEachEnumValuePair(
 		from,
 		to,
 		func(addFailure func(*text.Failure), fromEnum *extract.Enum, toEnum *extract.Enum) error {
-			fromValueNumberToValue := fromEnum.ValueNumberToValue()
 			toValueNumberToValue := toEnum.ValueNumberToValue()
-			for fromValueNumber, fromValue := range fromValueNumberToValue {
+			// with allow_alias, many values can have the same number, so go over the names
+			for fromValueName, fromValue := range fromEnum.ValueNameToValue() {
+				fromValueNumber := fromValue.ProtoMessage().Number
 				if toValue, ok := toValueNumberToValue[fromValueNumber]; ok {
+					if sameNameValue, ok := toEnum.ValueNameToValue()[fromValueName]; ok && sameNameValue.ProtoMessage().Number == fromValueNumber {
+						toValue = sameNameValue
+					}
 					if err := f(addFailure, fromValue, toValue); err != nil {
 						return err
 					}
-- 
2.43.0


From 7f56943b8bcf5c7941663efedba9137732f0dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 12/40] fix: do not attribute protoc messages about an imported
 file to a file with the same name

---
 internal/protoc/compiler.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index ddbfb20..50f7129 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -404,6 +404,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 				execCmd:    exec.Command(protocPath, iArgs...),
 				protoSet:   protoSet,
 				dirPath:    dirPath,
+				includes:   includes,
 				protoFiles: protoFiles,
 				// used for cleaning up the cmdMeta after everything is done
 				descriptorSetTempFilePath: descriptorSetTempFilePath,
@@ -422,6 +423,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 				execCmd:    exec.Command(protocPath, iArgs...),
 				protoSet:   protoSet,
 				dirPath:    dirPath,
+				includes:   includes,
 				protoFiles: protoFiles,
 			})
 		}
@@ -906,11 +908,11 @@ func bestFilePath(cmdMeta *cmdMeta, match string) string {
 func getDisplayFilePath(cmdMeta *cmdMeta, match string) (string, error) {
 	matchingFile := ""
 	for _, protoFile := range cmdMeta.protoFiles {
-		// if the path ends with the match, this is a better display name
-		// we compare the absolute path as the display path can be a suffix of
-		// the match, and whole path components as the match can be a suffix
-		// of the name of another file
-		if protoFile.Path == match || strings.HasSuffix(protoFile.Path, string(os.PathSeparator)+match) {
+		// if the path is the match relative to an include path, this is a better
+		// display name
+		// it is not enough that the path ends with the match, as the match can be
+		// a file that is imported from another directory
+		if protoFile.Path == match || isIncluded(cmdMeta.includes, match, protoFile.Path) {
 			// if there is more than one match, we don't know what to do
 			if matchingFile != "" {
 				return "", fmt.Errorf("duplicate matching file: %s", matchingFile)
@@ -924,6 +926,16 @@ func getDisplayFilePath(cmdMeta *cmdMeta, match string) (string, error) {
 	return matchingFile, nil
 }
 
+// returns true if the match is the path relative to one of the includes
+func isIncluded(includes []string, match string, path string) bool {
+	for _, include := range includes {
+		if filepath.Join(include, match) == path {
+			return true
+		}
+	}
+	return false
+}
+
 func getFileDescriptorSet(cmdMeta *cmdMeta) (*FileDescriptorSet, error) {
 	if cmdMeta.descriptorSetTempFilePath == "" {
 		return nil, nil
@@ -973,6 +985,7 @@ type cmdMeta struct {
 	execCmd                   *exec.Cmd
 	protoSet                  *file.ProtoSet
 	dirPath                   string
+	includes                  []string
 	protoFiles                []*file.ProtoFile
 	descriptorSetTempFilePath string
 }
-- 
2.43.0


From ece9a704e14a4c1c307f72fcf984019056d86e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 13/40] fix: format keeps options set to an empty message

An option set to {} was removed by the formatter, and an empty message in a
list was removed from the list, the bracket being left on a line of its own.
---
 internal/format/base_visitor.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index b5780fe..618423a 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -128,6 +128,9 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 			// if empty, we do not want to print the key or empty value
 			if source := o.Constant.SourceRepresentation(); source != "" {
 				v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, source, suffix)
+			} else if isEmptyAggregate(o.Constant) {
+				// an empty message is a value, unlike no value
+				v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = {}`, suffix)
 			}
 		} else if len(o.Constant.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 			v.Failures = append(
@@ -157,6 +160,9 @@ func (v *baseVisitor) pInnerLiteral(name string, literal proto.Literal, suffix s
 		// if empty, we do not want to print the key or empty value
 		if source := literal.SourceRepresentation(); source != "" {
 			v.P(prefix, source, suffix)
+		} else if name == "" && isEmptyAggregate(literal) {
+			// there is no key, so this is an element of a list
+			v.P(`{}`, suffix)
 		}
 	} else if len(literal.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 		v.P(prefix, `[`)
@@ -190,6 +196,13 @@ func isSingleValueLiteral(literal proto.Literal) bool {
 	return len(literal.Array) == 0 && len(literal.OrderedMap) == 0
 }
 
+// isEmptyAggregate returns true if the literal is the empty message {}.
+//
+// Literals for empty arrays have a non-nil Array.
+func isEmptyAggregate(literal proto.Literal) bool {
+	return isSingleValueLiteral(literal) && literal.SourceRepresentation() == "" && literal.Array == nil
+}
+
 func (v *baseVisitor) PEnumField(element *proto.EnumField) {
 	var options []*proto.Option
 	for _, e := range element.Elements {
-- 
2.43.0


From e249583aeb27bd01a095087b51cd3cddb636acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 14/40] fix: format keeps the order of options with the same
 name

The values of a repeated option can be given by several options with the same
name, in order. The options were sorted by name with an unstable sort.
---
 internal/format/base_visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 618423a..8669fa5 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -108,7 +108,8 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 	if len(options) == 0 {
 		return
 	}
-	sort.Slice(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
+	// options with the same name set a repeated option, their order is significant
+	sort.SliceStable(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
 	prefix := "option "
 	if isFieldOption {
 		prefix = ""
-- 
2.43.0


From 17f153ff70689bdc5ab9ddf42b90d1207b32eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 15/40] fix: format keeps the optional label of proto3 fields

---
 internal/format/main_visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index dfdec19..ea0c718 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -140,6 +140,9 @@ func (v *mainVisitor) VisitNormalField(element *proto.NormalField) {
 		} else {
 			prefix = "optional "
 		}
+	} else if element.Optional {
+		// explicit presence in proto3
+		prefix = "optional "
 	}
 	if element.Repeated {
 		prefix = "repeated "
-- 
2.43.0


From 83cd4119b8f007949e1cf146fd4dec8b6b944e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 16/40] fix: format keeps the labels and options of groups

The repeated and required labels of a group were removed, and a file with an
option in a group was refused with an internal error.
---
 internal/format/main_visitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index ea0c718..e8c5a35 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -115,6 +115,8 @@ func (v *mainVisitor) VisitOption(element *proto.Option) {
 		v.POptions(element)
 	case (*proto.Message):
 		v.POptions(element)
+	case (*proto.Group):
+		v.POptions(element)
 	case (*proto.Oneof):
 		v.POptions(element)
 	case (*proto.Service):
@@ -265,9 +267,12 @@ func (v *mainVisitor) VisitGroup(element *proto.Group) {
 	v.haveHitNonComment = true
 	v.PComment(element.Comment)
 	prefix := ""
-	// TODO: required and repeated not handled yet, add when handled
 	if element.Optional {
 		prefix = "optional "
+	} else if element.Repeated {
+		prefix = "repeated "
+	} else if element.Required {
+		prefix = "required "
 	}
 	if len(element.Elements) == 0 {
 		v.P(prefix, "group ", element.Name, " = ", element.Sequence, " {}")
-- 
2.43.0


From 7c44bd995b8764d337140387a48f059d8dbbc7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 17/40] fix: format keeps the comments of a single field option

---
 internal/format/base_visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 8669fa5..2e8bb50 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -90,7 +90,8 @@ func (v *baseVisitor) pMessageOrEnumField(prefix string, fieldName string, field
 	}
 	if len(options) == 1 {
 		o := options[0]
-		if isSingleValueLiteral(o.Constant) {
+		// comments on the option need the option to be on its own line
+		if isSingleValueLiteral(o.Constant) && o.Comment == nil && o.InlineComment == nil {
 			if source := o.Constant.SourceRepresentation(); source != "" {
 				v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, " [", o.Name, ` = `, source, "];")
 				return
-- 
2.43.0


From f2fac7da01281eb68b6f55fd15664b7be8b3bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:45 +0000
Subject: [PATCH 18/40] fix: format is stable for options set to a message of
 empty values

The braces were printed on two lines, and joined by formatting again.
---
 internal/format/base_visitor.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 2e8bb50..cc5e773 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -125,14 +125,14 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 			}
 		}
 		v.PComment(o.Comment)
-		if isSingleValueLiteral(o.Constant) {
+		if isEmptyAggregate(o.Constant) {
+			// an empty message is a value, unlike no value
+			v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = {}`, suffix)
+		} else if isSingleValueLiteral(o.Constant) {
 			// SourceRepresentation() returns an empty string if the literal is empty
 			// if empty, we do not want to print the key or empty value
 			if source := o.Constant.SourceRepresentation(); source != "" {
 				v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, source, suffix)
-			} else if isEmptyAggregate(o.Constant) {
-				// an empty message is a value, unlike no value
-				v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = {}`, suffix)
 			}
 		} else if len(o.Constant.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 			v.Failures = append(
@@ -157,14 +157,14 @@ func (v *baseVisitor) pInnerLiteral(name string, literal proto.Literal, suffix s
 	if name != "" {
 		prefix = name + ": "
 	}
-	if isSingleValueLiteral(literal) {
+	if name == "" && isEmptyAggregate(literal) {
+		// there is no key, so this is an element of a list
+		v.P(`{}`, suffix)
+	} else if isSingleValueLiteral(literal) {
 		// SourceRepresentation() returns an empty string if the literal is empty
 		// if empty, we do not want to print the key or empty value
 		if source := literal.SourceRepresentation(); source != "" {
 			v.P(prefix, source, suffix)
-		} else if name == "" && isEmptyAggregate(literal) {
-			// there is no key, so this is an element of a list
-			v.P(`{}`, suffix)
 		}
 	} else if len(literal.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 		v.P(prefix, `[`)
@@ -198,11 +198,17 @@ func isSingleValueLiteral(literal proto.Literal) bool {
 	return len(literal.Array) == 0 && len(literal.OrderedMap) == 0
 }
 
-// isEmptyAggregate returns true if the literal is the empty message {}.
+// isEmptyAggregate returns true if the literal is printed as the empty message {}.
 //
+// This is the case if there are no keys, or if no key is printed as the values are empty.
 // Literals for empty arrays have a non-nil Array.
 func isEmptyAggregate(literal proto.Literal) bool {
-	return isSingleValueLiteral(literal) && literal.SourceRepresentation() == "" && literal.Array == nil
+	for _, namedLiteral := range literal.OrderedMap {
+		if !isSingleValueLiteral(*namedLiteral.Literal) || namedLiteral.Literal.SourceRepresentation() != "" {
+			return false
+		}
+	}
+	return literal.Array == nil && literal.SourceRepresentation() == ""
 }
 
 func (v *baseVisitor) PEnumField(element *proto.EnumField) {
-- 
2.43.0


From 3a87eb623bb22b1c5e868d783ae7f917e81618af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:49 +0000
Subject: [PATCH 19/40] fix: format --fix replaces a header that is directly
 above syntax

The comment was kept below the configured header, and only removed by running
format --fix again.
---
 internal/format/first_pass_visitor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 773687c..0ce2d0c 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -63,8 +63,9 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 		v.P()
 	}
 	if v.Syntax != nil {
-		v.PComment(v.Syntax.Comment)
-		if v.Syntax.Comment != nil {
+		// the file header replaces everything before syntax
+		if v.Syntax.Comment != nil && (v.fix == FixNone || v.fileHeader == "") {
+			v.PComment(v.Syntax.Comment)
 			// special case, we add a newline in between the first comment and syntax
 			// to separate licenses, file descriptions, etc.
 			v.P()
-- 
2.43.0


From 284d315e325c8300b659482224ba8f936fdc06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 20/40] fix: format --fix keeps file options it does not set

The options csharp_namespace, objc_class_prefix and php_namespace were removed
unless the lint group is uber2, and all file options that format --fix can set
were removed from files without a package.
---
 internal/format/first_pass_visitor.go | 45 ++++++++++-----------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 0ce2d0c..6473161 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -81,25 +81,32 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 	if v.fix != FixNone && v.Package != nil {
 		if v.goPackageOption == nil {
 			v.goPackageOption = &proto.Option{Name: "go_package"}
+			v.Options = append(v.Options, v.goPackageOption)
 		}
 		if v.javaMultipleFilesOption == nil {
 			v.javaMultipleFilesOption = &proto.Option{Name: "java_multiple_files"}
+			v.Options = append(v.Options, v.javaMultipleFilesOption)
 		}
 		if v.javaOuterClassnameOption == nil {
 			v.javaOuterClassnameOption = &proto.Option{Name: "java_outer_classname"}
+			v.Options = append(v.Options, v.javaOuterClassnameOption)
 		}
 		if v.javaPackageOption == nil {
 			v.javaPackageOption = &proto.Option{Name: "java_package"}
+			v.Options = append(v.Options, v.javaPackageOption)
 		}
 		if v.fix == FixV2 {
 			if v.csharpNamespaceOption == nil {
 				v.csharpNamespaceOption = &proto.Option{Name: "csharp_namespace"}
+				v.Options = append(v.Options, v.csharpNamespaceOption)
 			}
 			if v.objcClassPrefixOption == nil {
 				v.objcClassPrefixOption = &proto.Option{Name: "objc_class_prefix"}
+				v.Options = append(v.Options, v.objcClassPrefixOption)
 			}
 			if v.phpNamespaceOption == nil {
 				v.phpNamespaceOption = &proto.Option{Name: "php_namespace"}
+				v.Options = append(v.Options, v.phpNamespaceOption)
 			}
 		}
 		if v.fix == FixV2 {
@@ -145,21 +152,6 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 				QuoteRune: '"',
 			}
 		}
-		v.Options = append(
-			v.Options,
-			v.goPackageOption,
-			v.javaMultipleFilesOption,
-			v.javaOuterClassnameOption,
-			v.javaPackageOption,
-		)
-		if v.fix == FixV2 {
-			v.Options = append(
-				v.Options,
-				v.csharpNamespaceOption,
-				v.objcClassPrefixOption,
-				v.phpNamespaceOption,
-			)
-		}
 	}
 	if len(v.Options) > 0 {
 		v.POptions(v.Options...)
@@ -204,27 +196,24 @@ func (v *firstPassVisitor) VisitOption(element *proto.Option) {
 	v.haveHitNonComment = true
 	if v.fix != FixNone {
 		switch element.Name {
-		case "csharp_namespace":
-			v.csharpNamespaceOption = element
-			return
 		case "go_package":
 			v.goPackageOption = element
-			return
 		case "java_multiple_files":
 			v.javaMultipleFilesOption = element
-			return
 		case "java_outer_classname":
 			v.javaOuterClassnameOption = element
-			return
 		case "java_package":
 			v.javaPackageOption = element
-			return
-		case "objc_class_prefix":
-			v.objcClassPrefixOption = element
-			return
-		case "php_namespace":
-			v.phpNamespaceOption = element
-			return
+		}
+		if v.fix == FixV2 {
+			switch element.Name {
+			case "csharp_namespace":
+				v.csharpNamespaceOption = element
+			case "objc_class_prefix":
+				v.objcClassPrefixOption = element
+			case "php_namespace":
+				v.phpNamespaceOption = element
+			}
 		}
 	}
 	v.Options = append(v.Options, element)
-- 
2.43.0


From 6e0755e5b8b546aafb616fe76afd7d6775a3008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:53 +0000
Subject: [PATCH 21/40] fix: do not take extends for messages in the lint rules
 on requests, responses and message comments

---
 ...ck_messages_have_comments_except_request_response_types.go | 4 ++++
 ...es_have_sentence_comments_except_request_response_types.go | 4 ++++
 .../check_messages_not_empty_except_request_response_types.go | 4 ++++
 internal/lint/check_request_response_types_after_service.go   | 4 ++++
 internal/lint/check_request_response_types_in_same_file.go    | 4 ++++
 internal/lint/check_request_response_types_only_in_file.go    | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/internal/lint/check_messages_have_comments_except_request_response_types.go b/internal/lint/check_messages_have_comments_except_request_response_types.go
index bb9d01a..1a816a2 100644
--- a/internal/lint/check_messages_have_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_comments_except_request_response_types.go
@@ -58,6 +58,10 @@ func (v *messagesHaveCommentsExceptRequestResponseTypesVisitor) VisitMessage(mes
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// an extend must not hide the message of the same name
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
index 41e6a46..c482f19 100644
--- a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
@@ -58,6 +58,10 @@ func (v *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) VisitMes
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// an extend must not hide the message of the same name
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_messages_not_empty_except_request_response_types.go b/internal/lint/check_messages_not_empty_except_request_response_types.go
index 7804315..e3718bc 100644
--- a/internal/lint/check_messages_not_empty_except_request_response_types.go
+++ b/internal/lint/check_messages_not_empty_except_request_response_types.go
@@ -67,6 +67,10 @@ func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitMessage(message
 	v.curFieldCount = oldFieldCount
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// an extend must not hide the message of the same name
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToWrapper == nil {
 		v.messageNameToWrapper = make(map[string]*messagesNotEmptyExceptRequestResponseTypesWrapper)
 	}
diff --git a/internal/lint/check_request_response_types_after_service.go b/internal/lint/check_request_response_types_after_service.go
index 63d1401..5715cd2 100644
--- a/internal/lint/check_request_response_types_after_service.go
+++ b/internal/lint/check_request_response_types_after_service.go
@@ -50,6 +50,10 @@ func (v *requestResponseTypesAfterServiceVisitor) OnStart(*FileDescriptor) error
 }
 
 func (v *requestResponseTypesAfterServiceVisitor) VisitMessage(message *proto.Message) {
+	// an extend does not define a message
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_request_response_types_in_same_file.go b/internal/lint/check_request_response_types_in_same_file.go
index f872894..f8c2a81 100644
--- a/internal/lint/check_request_response_types_in_same_file.go
+++ b/internal/lint/check_request_response_types_in_same_file.go
@@ -59,6 +59,10 @@ func (v *requestResponseTypesInSameFileVisitor) VisitMessage(message *proto.Mess
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// an extend does not define the message it extends
+	if message.IsExtend {
+		return
+	}
 	if v.messageTypes == nil {
 		v.messageTypes = make(map[string]struct{})
 	}
diff --git a/internal/lint/check_request_response_types_only_in_file.go b/internal/lint/check_request_response_types_only_in_file.go
index 7c2433f..18f511e 100644
--- a/internal/lint/check_request_response_types_only_in_file.go
+++ b/internal/lint/check_request_response_types_only_in_file.go
@@ -59,6 +59,10 @@ func (v *requestResponseTypesOnlyInFileVisitor) VisitEnum(enum *proto.Enum) {
 }
 
 func (v *requestResponseTypesOnlyInFileVisitor) VisitMessage(message *proto.Message) {
+	// an extend does not define a message
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
-- 
2.43.0


From 80f4244c48a4b6c8f97b8585a851131da9cdffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 22/40] fix: lint recognizes durations and timestamps with a
 leading dot

---
 internal/lint/check_message_fields_duration.go | 2 +-
 internal/lint/check_message_fields_time.go     | 2 +-
 internal/lint/check_wkt_duration_suffix.go     | 2 +-
 internal/lint/check_wkt_timestamp_suffix.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/lint/check_message_fields_duration.go b/internal/lint/check_message_fields_duration.go
index 81785cd..28fa63c 100644
--- a/internal/lint/check_message_fields_duration.go
+++ b/internal/lint/check_message_fields_duration.go
@@ -64,7 +64,7 @@ func (v messageFieldsDurationVisitor) VisitOneofField(field *proto.OneOfField) {
 // no map fields on purpose
 
 func (v messageFieldsDurationVisitor) visitField(field *proto.Field) {
-	if strings.Contains(field.Name, "duration") && field.Type != "google.protobuf.Duration" {
+	if strings.Contains(field.Name, "duration") && strings.TrimPrefix(field.Type, ".") != "google.protobuf.Duration" {
 		v.AddFailuref(field.Position, `Field %q must be a google.protobuf.Duration.`, field.Name)
 	}
 }
diff --git a/internal/lint/check_message_fields_time.go b/internal/lint/check_message_fields_time.go
index 9fa2879..6da8b78 100644
--- a/internal/lint/check_message_fields_time.go
+++ b/internal/lint/check_message_fields_time.go
@@ -64,7 +64,7 @@ func (v messageFieldsTimeVisitor) VisitOneofField(field *proto.OneOfField) {
 // no map fields on purpose
 
 func (v messageFieldsTimeVisitor) visitField(field *proto.Field) {
-	if strings.Contains(field.Name, "time") && field.Type != "google.protobuf.Timestamp" {
+	if strings.Contains(field.Name, "time") && strings.TrimPrefix(field.Type, ".") != "google.protobuf.Timestamp" {
 		v.AddFailuref(field.Position, `Field %q must be a google.protobuf.Timestamp.`, field.Name)
 	}
 }
diff --git a/internal/lint/check_wkt_duration_suffix.go b/internal/lint/check_wkt_duration_suffix.go
index be350fd..c93300a 100644
--- a/internal/lint/check_wkt_duration_suffix.go
+++ b/internal/lint/check_wkt_duration_suffix.go
@@ -62,7 +62,7 @@ func (v wktDurationSuffixVisitor) VisitOneofField(field *proto.OneOfField) {
 }
 
 func (v wktDurationSuffixVisitor) visitField(field *proto.Field) {
-	if field.Type == "google.protobuf.Duration" && !(field.Name == "duration" || strings.HasSuffix(field.Name, "_duration")) {
+	if strings.TrimPrefix(field.Type, ".") == "google.protobuf.Duration" && !(field.Name == "duration" || strings.HasSuffix(field.Name, "_duration")) {
 		v.AddFailuref(field.Position, `Field %q of type "google.protobuf.Duration" must be "duration" or end in "_duration".`, field.Name)
 	}
 }
diff --git a/internal/lint/check_wkt_timestamp_suffix.go b/internal/lint/check_wkt_timestamp_suffix.go
index 4fbfb29..3bfb77d 100644
--- a/internal/lint/check_wkt_timestamp_suffix.go
+++ b/internal/lint/check_wkt_timestamp_suffix.go
@@ -62,7 +62,7 @@ func (v wktTimestampSuffixVisitor) VisitOneofField(field *proto.OneOfField) {
 }
 
 func (v wktTimestampSuffixVisitor) visitField(field *proto.Field) {
-	if field.Type == "google.protobuf.Timestamp" && !(field.Name == "time" || strings.HasSuffix(field.Name, "_time")) {
+	if strings.TrimPrefix(field.Type, ".") == "google.protobuf.Timestamp" && !(field.Name == "time" || strings.HasSuffix(field.Name, "_time")) {
 		v.AddFailuref(field.Position, `Field %q of type "google.protobuf.Timestamp" must be "time" or end in "_time".`, field.Name)
 	}
 }
-- 
2.43.0


From 51260f7215b5065912c19604aad35c5be9111073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 23/40] fix: GOGO_NOT_IMPORTED and WKT_DIRECTLY_IMPORTED
 compare whole path components

---
 internal/lint/check_gogo_not_imported.go     | 4 ++--
 internal/lint/check_wkt_directly_imported.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/lint/check_gogo_not_imported.go b/internal/lint/check_gogo_not_imported.go
index 5945149..6e36e74 100644
--- a/internal/lint/check_gogo_not_imported.go
+++ b/internal/lint/check_gogo_not_imported.go
@@ -21,7 +21,7 @@
 package lint
 
 import (
-	"strings"
+	"path"
 
 	"github.com/emicklei/proto"
 	"github.com/uber/prototool/internal/text"
@@ -44,7 +44,7 @@ type gogoNotImportedVisitor struct {
 }
 
 func (v gogoNotImportedVisitor) VisitImport(element *proto.Import) {
-	if strings.HasSuffix(element.Filename, "gogo.proto") {
+	if path.Base(element.Filename) == "gogo.proto" {
 		v.AddFailuref(element.Position, `Importing "gogo.proto" is not allowed.`)
 	}
 }
diff --git a/internal/lint/check_wkt_directly_imported.go b/internal/lint/check_wkt_directly_imported.go
index 7cc33c0..60cf1bc 100644
--- a/internal/lint/check_wkt_directly_imported.go
+++ b/internal/lint/check_wkt_directly_imported.go
@@ -49,7 +49,7 @@ type wktDirectlyImportedVisitor struct {
 
 func (v wktDirectlyImportedVisitor) VisitImport(element *proto.Import) {
 	for wktFilename := range wkt.Filenames {
-		if strings.HasSuffix(element.Filename, wktFilename) && element.Filename != wktFilename {
+		if strings.HasSuffix(element.Filename, "/"+wktFilename) {
 			v.AddFailuref(element.Position, "Import %q is a Well-Known Type import but should be imported using google/protobuf as the base.", element.Filename)
 		}
 	}
-- 
2.43.0


From 70d9d1425c5c0c5723d923bb8a601f32d5750eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:39 +0000
Subject: [PATCH 24/40] fix: sentence comments may start with any uppercase
 letter, not only ASCII

---
 internal/lint/lint.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index af37e96..2333b4b 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -27,6 +27,7 @@ import (
 	"path/filepath"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/emicklei/proto"
 	"github.com/uber/prototool/internal/file"
@@ -547,7 +548,8 @@ func commentStartsWithUppercaseLetter(comment *proto.Comment) bool {
 	if firstLine == "" {
 		return false
 	}
-	return unicode.IsUpper(rune(firstLine[0])) || unicode.IsDigit(rune(firstLine[0]))
+	first, _ := utf8.DecodeRuneInString(firstLine)
+	return unicode.IsUpper(first) || unicode.IsDigit(first)
 }
 
 func commentContainsPeriod(comment *proto.Comment) bool {
-- 
2.43.0


From c2ee8d6a912d62559613fed40e2f8c48f3a5b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:16 +0000
Subject: [PATCH 25/40] fix: lint.ignores applies to the directory of the
 configuration file

---
 internal/lint/lint.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 2333b4b..1e4605c 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -522,7 +522,15 @@ func shouldIgnore(linter Linter, descriptor *FileDescriptor, ignoreIDToFilePaths
 	if !ok {
 		return false, nil
 	}
-	return file.IsExcluded(filePath, descriptor.ProtoSet.Config.DirPath, ignoreFilePaths...), nil
+	dirPath := descriptor.ProtoSet.Config.DirPath
+	for _, ignoreFilePath := range ignoreFilePaths {
+		// IsExcluded stops before the directory of the configuration file, which
+		// cannot be excluded but can be ignored
+		if ignoreFilePath == dirPath {
+			return true, nil
+		}
+	}
+	return file.IsExcluded(filePath, dirPath, ignoreFilePaths...), nil
 }
 
 func checkLintID(lintID string) error {
-- 
2.43.0


From 38d0d9707e4e6ac9ae735efd84c73901b2f0fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:26 +0000
Subject: [PATCH 26/40] fix: create --config-data acts as a configuration file
 in the current directory

---
 internal/create/handler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 02e8cfd..a4edb9a 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -289,11 +289,16 @@ func (h *handler) getConfig(filePath string) (settings.Config, error) {
 	if err != nil {
 		return settings.Config{}, err
 	}
-	absDirPath := filepath.Dir(absFilePath)
 	if h.configData != "" {
-		return h.configProvider.GetForData(absDirPath, h.configData)
+		// the data acts as a configuration file in the current directory,
+		// not in the directory of the file
+		absWorkDirPath, err := filepath.Abs(".")
+		if err != nil {
+			return settings.Config{}, err
+		}
+		return h.configProvider.GetForData(absWorkDirPath, h.configData)
 	}
-	return h.configProvider.GetForDir(absDirPath)
+	return h.configProvider.GetForDir(filepath.Dir(absFilePath))
 }
 
 func getPkgFromRel(rel string, basePkg string, defaultPackage string) string {
-- 
2.43.0


From f1813bdd0270d1a98c88a4e8558f0defb7215d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:27 +0000
Subject: [PATCH 27/40] fix: data after the JSON value of a configuration is
 refused

---
 internal/settings/config_provider.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 905edc1..1f1af28 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -23,7 +23,9 @@ package settings
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -430,7 +432,14 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 func jsonUnmarshalStrict(data []byte, v interface{}) error {
 	decoder := json.NewDecoder(bytes.NewReader(data))
 	decoder.DisallowUnknownFields()
-	return decoder.Decode(v)
+	if err := decoder.Decode(v); err != nil {
+		return err
+	}
+	// Decode stops after the first value
+	if _, err := decoder.Token(); err != io.EOF {
+		return errors.New("unexpected data after the JSON value")
+	}
+	return nil
 }
 
 func getFileHeaderLines(content string) []string {
-- 
2.43.0


From 954dbf25045ab6305114afbc808d3d9e1a470a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:23 +0000
Subject: [PATCH 28/40] fix: an unexpected status for --protoc-url is an error
 that names it

---
 internal/protoc/downloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 7b25fd0..c82d46e 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -311,6 +311,9 @@ func (d *downloader) getDownloadData(goos string, goarch string) (_ []byte, retE
 			if d.protocURL == "" {
 				return nil, fmt.Errorf("error downloading %s: %v\nMake sure GitHub Releases has a proper protoc zip file of the form protoc-VERSION-OS-ARCH.zip at https://github.com/protocolbuffers/protobuf/releases/v%s\nNote that many micro versions do not have this, and no version before 3.0.0-beta-2 has this", url, err, d.config.Compile.ProtobufVersion)
 			}
+			if err == nil {
+				err = fmt.Errorf("error downloading %s: unexpected status %s", url, response.Status)
+			}
 			return nil, err
 		}
 		defer func() {
-- 
2.43.0


From 3c546ccf4d223638ca41616a7651910fb08a8d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:21 +0000
Subject: [PATCH 29/40] fix: format names the file that it cannot parse

---
 internal/format/transformer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/format/transformer.go b/internal/format/transformer.go
index 33c3b94..1a4cfe6 100644
--- a/internal/format/transformer.go
+++ b/internal/format/transformer.go
@@ -52,7 +52,9 @@ func (t *transformer) Transform(filename string, data []byte) ([]byte, []*text.F
 	if err := checkFix(t.fix); err != nil {
 		return nil, nil, err
 	}
-	descriptor, err := proto.NewParser(bytes.NewReader(data)).Parse()
+	parser := proto.NewParser(bytes.NewReader(data))
+	parser.Filename(filename)
+	descriptor, err := parser.Parse()
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From c4ab747b19617db8b91f3609709ee49791562ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:41 +0000
Subject: [PATCH 30/40] fix: report the first unknown lint id of lint.ignores
 in a fixed order

---
 internal/lint/lint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 1e4605c..7cfaa0e 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -25,6 +25,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -388,7 +389,12 @@ func GetLinters(config settings.LintConfig) ([]Linter, error) {
 			return nil, err
 		}
 	}
+	ignoreIDs := make([]string, 0, len(config.IgnoreIDToFilePaths))
 	for ignoreID := range config.IgnoreIDToFilePaths {
+		ignoreIDs = append(ignoreIDs, ignoreID)
+	}
+	sort.Strings(ignoreIDs)
+	for _, ignoreID := range ignoreIDs {
 		if err := checkLintID(ignoreID); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 43f23933391cb2aabadcd2d43d8edecb15f7bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 31/40] fix: format -w and all replace a file in one step, so
 that it is not lost

---
 internal/exec/runner.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index eb9f86f..fc39b6e 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -542,7 +542,7 @@ func (r *runner) formatFile(overwrite bool, diffMode bool, lintMode bool, fix in
 	if !bytes.Equal(input, data) {
 		if overwrite {
 			// 0 exit code in overwrite case
-			return true, ioutil.WriteFile(protoFile.Path, data, os.ModePerm)
+			return true, overwriteFile(protoFile.Path, data)
 		}
 		if lintMode {
 			return false, r.printFailures("", meta, text.NewFailuref(scanner.Position{
@@ -575,6 +575,42 @@ func (r *runner) formatFile(overwrite bool, diffMode bool, lintMode bool, fix in
 	return true, nil
 }
 
+// overwriteFile replaces the content of an existing file in one step, so that the
+// content is not lost if we are interrupted or the data cannot be written.
+func overwriteFile(filePath string, data []byte) (retErr error) {
+	// the file that a symlink leads to is replaced, not the symlink
+	filePath, err := filepath.EvalSymlinks(filePath)
+	if err != nil {
+		return err
+	}
+	// fail as a write would if the file is not writable
+	file, err := os.OpenFile(filePath, os.O_WRONLY, 0)
+	if err != nil {
+		return err
+	}
+	fileInfo, err := file.Stat()
+	if err := multierr.Append(err, file.Close()); err != nil {
+		return err
+	}
+	tempFile, err := ioutil.TempFile(filepath.Dir(filePath), ".prototool-")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if retErr != nil {
+			_ = os.Remove(tempFile.Name())
+		}
+	}()
+	_, err = tempFile.Write(data)
+	if err == nil {
+		err = tempFile.Chmod(fileInfo.Mode())
+	}
+	if err := multierr.Append(err, tempFile.Close()); err != nil {
+		return err
+	}
+	return os.Rename(tempFile.Name(), filePath)
+}
+
 func (r *runner) All(args []string, disableFormat, disableLint, fixFlag bool) error {
 	meta, err := r.getMeta(args)
 	if err != nil {
-- 
2.43.0


From e44b461b0868b00d0fa0268981083a73e69476db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:08 +0000
Subject: [PATCH 32/40] fix: a walk that ends at its timeout returns its files
 instead of an internal error, and the flag is not shared without
 synchronization

---
 internal/file/proto_set_provider.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index 3f16cf3..d2d0c61 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -25,6 +25,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"sync/atomic"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -212,7 +213,7 @@ func (c *protoSetProvider) getConfig(absDirPath string) (settings.Config, error)
 func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDirPath string) ([]*ProtoFile, error) {
 	var protoFiles []*ProtoFile
 	var numWalkedFiles int
-	var timedOut bool
+	var timedOut int32
 	var excludes []string
 	var err error
 	// if we have a configData, we compute the exclude prefixes once
@@ -235,7 +236,7 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 					return err
 				}
 				numWalkedFiles++
-				if timedOut {
+				if atomic.LoadInt32(&timedOut) != 0 {
 					return fmt.Errorf("walking the directory structure looking for proto files "+
 						"timed out after %v and having seen %d files, are you sure you are operating "+
 						"in the right context?", c.walkTimeout, numWalkedFiles)
@@ -290,11 +291,12 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 		}
 		return protoFiles, nil
 	case <-time.After(c.walkTimeout):
-		timedOut = true
+		atomic.StoreInt32(&timedOut, 1)
 		if walkErr := <-walkErrC; walkErr != nil {
 			return nil, walkErr
 		}
-		return nil, fmt.Errorf("internal prototool error")
+		// the walk saw everything before it could notice the timeout
+		return protoFiles, nil
 	}
 }
 
-- 
2.43.0


From d9175627480d4ff75d0260d67797e5932876b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:08 +0000
Subject: [PATCH 33/40] fix: a failed look at the configuration file is an
 error, not a missing configuration

---
 internal/settings/config_provider.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 1f1af28..9680508 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -144,6 +144,8 @@ func getSingleFilePathForDir(dirPath string) (string, error) {
 		filePath := filepath.Join(dirPath, configFilename)
 		if _, err := os.Stat(filePath); err == nil {
 			filePaths = append(filePaths, filePath)
+		} else if !os.IsNotExist(err) {
+			return "", err
 		}
 	}
 	switch len(filePaths) {
-- 
2.43.0


From 7a59e0f4a991ad0d4fb425c79674da6ea7753c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:25 +0000
Subject: [PATCH 34/40] fix: create and config init do not overwrite a file
 that they could not look up

---
 internal/create/handler.go | 2 ++
 internal/exec/runner.go    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index a4edb9a..5580255 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -132,6 +132,8 @@ func (h *handler) checkFilePath(filePath string) error {
 		if len(data) > 0 {
 			return fmt.Errorf("%q already exists", filePath)
 		}
+	} else if !os.IsNotExist(err) {
+		return err
 	}
 	return nil
 }
diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index fc39b6e..e083ab1 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -180,6 +180,8 @@ func (r *runner) Init(args []string, uncomment bool, document bool) error {
 	filePath := filepath.Join(dirPath, settings.DefaultConfigFilename)
 	if _, err := os.Stat(filePath); err == nil {
 		return fmt.Errorf("%s already exists", filePath)
+	} else if !os.IsNotExist(err) {
+		return err
 	}
 	data, err := cfginit.Generate(vars.DefaultProtocVersion, uncomment, document)
 	if err != nil {
-- 
2.43.0


From 943247886779f1209ac8128885c4615c7667d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:25 +0000
Subject: [PATCH 35/40] fix: every grpc header is sent as it is given, also
 repeated and with commas

---
 internal/cmd/flags.go   |  2 +-
 internal/exec/runner.go | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/cmd/flags.go b/internal/cmd/flags.go
index 594f21e..a35bb22 100644
--- a/internal/cmd/flags.go
+++ b/internal/cmd/flags.go
@@ -147,7 +147,7 @@ func (f *flags) bindGitBranch(flagSet *pflag.FlagSet) {
 }
 
 func (f *flags) bindHeaders(flagSet *pflag.FlagSet) {
-	flagSet.StringSliceVarP(&f.headers, "header", "H", []string{}, "Additional request headers in 'name:value' format.")
+	flagSet.StringArrayVarP(&f.headers, "header", "H", []string{}, "Additional request headers in 'name:value' format.")
 }
 
 func (f *flags) bindIncludeImports(flagSet *pflag.FlagSet) {
diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index e083ab1..513eb38 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -660,13 +660,13 @@ func (r *runner) GRPC(args, headers []string, address, method, data, callTimeout
 	}
 	reader := r.getInputReader(data, stdin)
 
-	parsedHeaders := make(map[string]string)
+	var parsedHeaders []headerKeyValue
 	for _, header := range headers {
 		split := strings.SplitN(header, ":", 2)
 		if len(split) != 2 {
 			return fmt.Errorf("headers must be key:value but got %s", header)
 		}
-		parsedHeaders[split[0]] = split[1]
+		parsedHeaders = append(parsedHeaders, headerKeyValue{key: split[0], value: split[1]})
 	}
 	var parsedCallTimeout time.Duration
 	var parsedConnectTimeout time.Duration
@@ -1091,7 +1091,7 @@ func (r *runner) newCreateHandler(pkg string) create.Handler {
 }
 
 func (r *runner) newGRPCHandler(
-	headers map[string]string,
+	headers []headerKeyValue,
 	callTimeout time.Duration,
 	connectTimeout time.Duration,
 	keepaliveTime time.Duration,
@@ -1106,8 +1106,8 @@ func (r *runner) newGRPCHandler(
 	handlerOptions := []grpc.HandlerOption{
 		grpc.HandlerWithLogger(r.logger),
 	}
-	for key, value := range headers {
-		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(key, value))
+	for _, header := range headers {
+		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(header.key, header.value))
 	}
 	if callTimeout != 0 {
 		handlerOptions = append(handlerOptions, grpc.HandlerWithCallTimeout(callTimeout))
@@ -1127,6 +1127,11 @@ func (r *runner) newGRPCHandler(
 	return grpc.NewHandler(handlerOptions...)
 }
 
+type headerKeyValue struct {
+	key   string
+	value string
+}
+
 type meta struct {
 	ProtoSet *file.ProtoSet
 	// this will be empty if not in dir mode
-- 
2.43.0


From 60a1eef97840f07e1a2a1c4b62f0f76a44ecd64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:25 +0000
Subject: [PATCH 36/40] fix: grpc fails if something that it received could not
 be output

---
 internal/grpc/invocation_event_handler.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/grpc/invocation_event_handler.go b/internal/grpc/invocation_event_handler.go
index 74622f4..069b5b0 100644
--- a/internal/grpc/invocation_event_handler.go
+++ b/internal/grpc/invocation_event_handler.go
@@ -96,7 +96,7 @@ func (i *invocationEventHandler) printProtoMessage(input proto.Message, detailsK
 	}
 	s, err := i.jsonpbMarshaler.MarshalToString(input)
 	if err != nil {
-		i.logger.Error("marshal error", zap.Error(err))
+		i.addErr("marshal error", err)
 		return
 	}
 	i.println(i.marshalSanitize(s, detailsKey))
@@ -108,7 +108,7 @@ func (i *invocationEventHandler) printMetadata(input metadata.MD, detailsKey str
 	}
 	data, err := json.Marshal(input)
 	if err != nil {
-		i.logger.Error("marshal error", zap.Error(err))
+		i.addErr("marshal error", err)
 		return
 	}
 	i.println(i.marshalSanitize(string(data), detailsKey))
@@ -129,6 +129,14 @@ func (i *invocationEventHandler) println(s string) {
 		return
 	}
 	if _, err := i.output.Write([]byte(s + "\n")); err != nil {
-		i.logger.Error("write error", zap.Error(err))
+		i.addErr("write error", err)
+	}
+}
+
+// addErr records that something that was received could not be output.
+func (i *invocationEventHandler) addErr(message string, err error) {
+	i.logger.Error(message, zap.Error(err))
+	if i.err == nil {
+		i.err = err
 	}
 }
-- 
2.43.0


From 85eb3d23ede0cd7fecd37b76782a41b26e6cdacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:25 +0000
Subject: [PATCH 37/40] fix: grpc resolves messages in Any fields of requests

---
 internal/grpc/handler.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/grpc/handler.go b/internal/grpc/handler.go
index 3302c30..2dbca43 100644
--- a/internal/grpc/handler.go
+++ b/internal/grpc/handler.go
@@ -97,7 +97,7 @@ func (h *handler) Invoke(fileDescriptorSets []*descriptor.FileDescriptorSet, add
 		method,
 		h.headers,
 		invocationEventHandler,
-		decodeFunc(inputReader),
+		decodeFunc(anyResolver, inputReader),
 	); err != nil {
 		return err
 	}
@@ -208,14 +208,15 @@ func getServiceForMethod(method string) (string, error) {
 	return split[0], nil
 }
 
-func decodeFunc(reader io.Reader) func(proto.Message) error {
+func decodeFunc(anyResolver jsonpb.AnyResolver, reader io.Reader) func(proto.Message) error {
 	decoder := json.NewDecoder(reader)
+	unmarshaler := &jsonpb.Unmarshaler{AnyResolver: anyResolver}
 	return func(message proto.Message) error {
 		var rawMessage json.RawMessage
 		if err := decoder.Decode(&rawMessage); err != nil {
 			return err
 		}
-		return jsonpb.Unmarshal(bytes.NewReader(rawMessage), message)
+		return unmarshaler.Unmarshal(bytes.NewReader(rawMessage), message)
 	}
 }
 
-- 
2.43.0


From e849d74c8afc05b7a59875ec4264b331cd187d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:25 +0000
Subject: [PATCH 38/40] fix: grpc works with files that have no package

---
 internal/grpc/handler.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/grpc/handler.go b/internal/grpc/handler.go
index 2dbca43..8ba2410 100644
--- a/internal/grpc/handler.go
+++ b/internal/grpc/handler.go
@@ -269,15 +269,16 @@ func getServiceInfo(fileDescriptorSets []*descriptor.FileDescriptorSet, path str
 }
 
 func findServiceDescriptorProto(path string, fileDescriptorProto *descriptor.FileDescriptorProto) (*descriptor.ServiceDescriptorProto, error) {
-	if fileDescriptorProto.GetPackage() == "" {
-		return nil, fmt.Errorf("no package on FileDescriptorProto")
+	prefix := fileDescriptorProto.GetPackage()
+	if prefix != "" {
+		prefix = prefix + "."
 	}
-	if !strings.HasPrefix(path, fileDescriptorProto.GetPackage()) {
+	if !strings.HasPrefix(path, prefix) {
 		return nil, nil
 	}
 	var foundServiceDescriptorProto *descriptor.ServiceDescriptorProto
 	for _, serviceDescriptorProto := range fileDescriptorProto.GetService() {
-		if fileDescriptorProto.GetPackage()+"."+serviceDescriptorProto.GetName() == path {
+		if prefix+serviceDescriptorProto.GetName() == path {
 			if foundServiceDescriptorProto != nil {
 				return nil, fmt.Errorf("duplicate services for path %s", path)
 			}
-- 
2.43.0


From e6230b70c59b59b750fb6241781eea8f85265186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:13 +0000
Subject: [PATCH 39/40] fix: symlinks on the way to the given directory are
 followed

---
 internal/file/proto_set_provider.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index d2d0c61..857af6a 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -104,7 +104,7 @@ func (c *protoSetProvider) getMultipleForDir(workDirPath string, dirPath string)
 			configDirPath = filepath.Dir(configFilePath)
 		}
 	}
-	protoFiles, err := c.walkAndGetAllProtoFiles(workDirPath, configDirPath)
+	protoFiles, err := c.walkAndGetAllProtoFiles(workDirPath, configDirPath, absDirPath)
 	if err != nil {
 		return nil, err
 	}
@@ -210,7 +210,9 @@ func (c *protoSetProvider) getConfig(absDirPath string) (settings.Config, error)
 // found, whereas absWorkDirPath represents absolute path at which prototool was invoked.
 // absWorkDirPath is only used to determine the ProtoFile.DisplayPath, also known as
 // the relative path from where prototool was invoked.
-func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDirPath string) ([]*ProtoFile, error) {
+// absTargetDirPath represents the absolute path of the directory that was given,
+// symlinks on the way to it are followed.
+func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDirPath string, absTargetDirPath string) ([]*ProtoFile, error) {
 	var protoFiles []*ProtoFile
 	var numWalkedFiles int
 	var timedOut int32
@@ -229,8 +231,9 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 
 	walkErrC := make(chan error)
 	go func() {
-		walkErrC <- filepath.Walk(
+		walkErrC <- walk(
 			absDirPath,
+			absTargetDirPath,
 			func(filePath string, fileInfo os.FileInfo, err error) error {
 				if err != nil {
 					return err
@@ -300,6 +303,18 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 	}
 }
 
+// walk is filepath.Walk, but follows the symlinks on the way from dirPath to
+// targetDirPath, including dirPath and targetDirPath themselves.
+func walk(dirPath string, targetDirPath string, walkFunc filepath.WalkFunc) error {
+	return filepath.Walk(dirPath, func(filePath string, fileInfo os.FileInfo, err error) error {
+		if err == nil && fileInfo.Mode()&os.ModeSymlink != 0 && settings.IsWithinDir(filePath, targetDirPath) {
+			// the trailing separator makes this the directory the symlink refers to
+			return walk(filePath+string(os.PathSeparator), targetDirPath, walkFunc)
+		}
+		return walkFunc(filepath.Clean(filePath), fileInfo, err)
+	})
+}
+
 func validateProtoSet(protoSet *ProtoSet) error {
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		for _, protoFile := range protoFiles {
-- 
2.43.0


From 80bf21b08dda611a42d246bae885aed2f6721aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:22 +0000
Subject: [PATCH 40/40] fix: the error about a file outside of its directory is
 always about the same file

---
 internal/file/proto_set_provider.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index 857af6a..728f1be 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -316,8 +316,14 @@ func walk(dirPath string, targetDirPath string, walkFunc filepath.WalkFunc) erro
 }
 
 func validateProtoSet(protoSet *ProtoSet) error {
-	for dirPath, protoFiles := range protoSet.DirPathToFiles {
-		for _, protoFile := range protoFiles {
+	// sort so that the error is always about the same file
+	dirPaths := make([]string, 0, len(protoSet.DirPathToFiles))
+	for dirPath := range protoSet.DirPathToFiles {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	sort.Strings(dirPaths)
+	for _, dirPath := range dirPaths {
+		for _, protoFile := range protoSet.DirPathToFiles[dirPath] {
 			if filepath.Dir(protoFile.Path) != dirPath {
 				return fmt.Errorf("%s does not reside within %s, this is a system error", protoFile.Path, dirPath)
 			}
-- 
2.43.0

