From 1a2ede607270bd9155b4f01bd9fd57a77c54d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 01/23] fix: compare enum values by name when a number has
 aliases

With allow_alias several names share a number, but only the last one was
compared: adding an alias was reported as a rename, and removing or renaming
another alias was not reported.
---
 internal/breaking/helpers.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/breaking/helpers.go b/internal/breaking/helpers.go
index 8bdd6c8..470bceb 100644
--- a/internal/breaking/helpers.go
+++ b/internal/breaking/helpers.go
@@ -215,10 +215,18 @@ func forEachEnumValuePair(
 		from,
 		to,
 		func(addFailure func(*text.Failure), fromEnum *extract.Enum, toEnum *extract.Enum) error {
-			fromValueNumberToValue := fromEnum.ValueNumberToValue()
+			// with allow_alias, a number can have several names, so each
+			// value is paired with the value of the same name if it still
+			// has the same number
+			toValueNameToValue := toEnum.ValueNameToValue()
 			toValueNumberToValue := toEnum.ValueNumberToValue()
-			for fromValueNumber, fromValue := range fromValueNumberToValue {
-				if toValue, ok := toValueNumberToValue[fromValueNumber]; ok {
+			for fromValueName, fromValue := range fromEnum.ValueNameToValue() {
+				fromValueNumber := fromValue.ProtoMessage().Number
+				toValue, ok := toValueNameToValue[fromValueName]
+				if !ok || toValue.ProtoMessage().Number != fromValueNumber {
+					toValue, ok = toValueNumberToValue[fromValueNumber]
+				}
+				if ok {
 					if err := f(addFailure, fromValue, toValue); err != nil {
 						return err
 					}
-- 
2.43.0


From d0d3987b75adee15e5a02b2b7a33a5df7e6b22b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 02/23] fix: keep beta version numbers above 2^63 in namespaces

---
 internal/protostrs/protostrs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protostrs/protostrs.go b/internal/protostrs/protostrs.go
index de49b2c..d34e09b 100644
--- a/internal/protostrs/protostrs.go
+++ b/internal/protostrs/protostrs.go
@@ -47,7 +47,7 @@ func CSharpNamespace(packageName string) string {
 		return strings.Title(packageName)
 	}
 	split := strings.Split(packageName, ".")
-	return strings.Title(strings.Join(split[:len(split)-1], ".")) + ".V" + strconv.Itoa(int(majorVersion)) + "Beta" + strconv.Itoa(int(betaVersion))
+	return strings.Title(strings.Join(split[:len(split)-1], ".")) + ".V" + strconv.FormatUint(majorVersion, 10) + "Beta" + strconv.FormatUint(betaVersion, 10)
 }
 
 // PHPNamespace returns the value for the file option "php_namespace"
-- 
2.43.0


From 4cfa7533c5dc3d7e680f5506bb1b6b98e1c49dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:10 +0000
Subject: [PATCH 03/23] fix: reject excludes in a sibling whose name starts
 like the config directory

---
 internal/settings/config_provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 616e7a8..9a1a5bb 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -416,7 +416,11 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 		if excludePrefix == dirPath {
 			return nil, fmt.Errorf("cannot exclude directory of config file: %s", dirPath)
 		}
-		if !strings.HasPrefix(excludePrefix, dirPath) {
+		rel, err := filepath.Rel(dirPath, excludePrefix)
+		if err != nil {
+			return nil, err
+		}
+		if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			return nil, fmt.Errorf("cannot exclude directory outside of config file directory %s: %s", dirPath, excludePrefix)
 		}
 		excludePrefixes = append(excludePrefixes, excludePrefix)
-- 
2.43.0


From 719693769aab32d77cfcae2390508d1494efe819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 04/23] fix: accept proto files in directories whose name
 starts with two dots

---
 internal/file/proto_set_provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index bd33599..d71d6b8 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -321,7 +321,7 @@ func validateIsRel(base string, dir string) error {
 	if rel == "" {
 		return fmt.Errorf("could not make %s relative to %s, this is a system error", base, dir)
 	}
-	if strings.HasPrefix(rel, "..") {
+	if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 		return fmt.Errorf("could not make %s within %s, got %s, this is a system error", base, dir, rel)
 	}
 	return nil
-- 
2.43.0


From fe1f4a7de09eac0523ce3feb31fc7489d514dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 05/23] fix: do not take a directory for a parent of siblings
 whose name starts alike

Files of /a/foobar were compiled, linted, formatted and generated when
/a/foo was given, and the directory of the configuration was not added to
the include paths when another include path was a prefix of its name.
---
 internal/exec/runner.go     |  8 ++++----
 internal/file/file.go       |  9 +++++++++
 internal/lint/lint.go       |  2 +-
 internal/protoc/compiler.go | 10 ++++------
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 9124bfd..1f53a6d 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -226,7 +226,7 @@ func (r *runner) Files(args []string) error {
 	var allFiles []string
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, file := range files {
@@ -491,7 +491,7 @@ func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader
 	success := true
 	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, protoFile := range protoFiles {
@@ -797,7 +797,7 @@ func (r *runner) BreakCheck(args []string, gitBranch string, descriptorSetPath s
 		if err != nil {
 			return err
 		}
-		if !strings.HasPrefix(absDirPath, absWorkDirPath) {
+		if !file.IsWithin(absDirPath, absWorkDirPath) {
 			return fmt.Errorf("input directory must be within working directory: %s", relDirPath)
 		}
 
@@ -1199,7 +1199,7 @@ func (r *runner) printLinters(config settings.LintConfig, linters []lint.Linter)
 func (r *runner) printAffectedFiles(meta *meta) {
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, file := range files {
diff --git a/internal/file/file.go b/internal/file/file.go
index 5ba949d..d5f15ec 100644
--- a/internal/file/file.go
+++ b/internal/file/file.go
@@ -23,6 +23,7 @@ package file
 import (
 	"fmt"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -150,6 +151,14 @@ func CheckAbs(path string) error {
 	return nil
 }
 
+// IsWithin returns true if the given path is the given directory or is below it.
+//
+// Both paths must be absolute and clean.
+func IsWithin(absPath string, absDirPath string) bool {
+	separator := string(filepath.Separator)
+	return absPath == absDirPath || strings.HasPrefix(absPath, strings.TrimSuffix(absDirPath, separator)+separator)
+}
+
 // IsExcluded determines whether the given filePath should be excluded.
 //
 // absConfigDirPath represents the absolute path to the configuration file.
diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 7d9634b..c5496ba 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -429,7 +429,7 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 	dirPathToDescriptors := make(map[string][]*FileDescriptor, len(protoSet.DirPathToFiles))
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !file.IsWithin(dirPath, protoSet.DirPath) {
 			continue
 		}
 		descriptors := make([]*FileDescriptor, len(protoFiles))
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 9a379bf..c6b5c0b 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -215,7 +215,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 		} else {
 			for dirPath := range protoSet.DirPathToFiles {
 				// skip those files not under the directory
-				if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+				if !file.IsWithin(dirPath, protoSet.DirPath) {
 					continue
 				}
 				relOutputFilePath, err := getRelOutputFilePath(protoSet, dirPath, genPlugin.FileSuffix)
@@ -315,7 +315,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	}
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !file.IsWithin(dirPath, protoSet.DirPath) {
 			continue
 		}
 		// you want your proto files to be in at least one of the -I directories
@@ -588,8 +588,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 	includedConfigDirPath := false
 	for _, includePath := range config.Compile.IncludePaths {
 		includes = append(includes, includePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, includePath) {
+		if file.IsWithin(dirPath, includePath) {
 			fileInIncludePath = true
 		}
 		if includePath == configDirPath {
@@ -602,8 +601,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 			return nil, err
 		}
 		includes = append(includes, wellKnownTypesIncludePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, wellKnownTypesIncludePath) {
+		if file.IsWithin(dirPath, wellKnownTypesIncludePath) {
 			fileInIncludePath = true
 		}
 	}
-- 
2.43.0


From 31cb6eea97b5ac2130d2f2f5864df3ea1a17d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:05 +0000
Subject: [PATCH 06/23] fix: do not attribute failures of a file to another one
 whose name ends alike

---
 internal/protoc/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index c6b5c0b..6c5cbba 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -861,7 +861,7 @@ func getDisplayFilePath(cmdMeta *cmdMeta, match string) (string, error) {
 	for _, protoFile := range cmdMeta.protoFiles {
 		// if the suffix is the file name, this is a better display name
 		// we don't handle the reverse case, ie display path is a suffix of match
-		if strings.HasSuffix(protoFile.DisplayPath, match) {
+		if protoFile.DisplayPath == match || strings.HasSuffix(protoFile.DisplayPath, string(os.PathSeparator)+match) {
 			// if there is more than one match, we don't know what to do
 			if matchingFile != "" {
 				return "", fmt.Errorf("duplicate matching file: %s", matchingFile)
-- 
2.43.0


From 252a08224c8d5b994c2c6ed88e5f14eb2b455579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:16 +0000
Subject: [PATCH 07/23] fix: map create packages by directory, not by name
 prefix

A file in a directory whose name starts like a mapped directory (idl2 and idl)
was created with a package such as foo....idl2.
---
 internal/create/BUILD.bazel | 1 +
 internal/create/handler.go  | 9 +++------
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/create/BUILD.bazel b/internal/create/BUILD.bazel
index 8d4d8a9..5ab2c30 100644
--- a/internal/create/BUILD.bazel
+++ b/internal/create/BUILD.bazel
@@ -9,6 +9,7 @@ go_library(
     importpath = "github.com/uber/prototool/internal/create",
     visibility = ["//:__subpackages__"],
     deps = [
+        "//internal/file:go_default_library",
         "//internal/protostrs:go_default_library",
         "//internal/settings:go_default_library",
         "@org_uber_go_zap//:go_default_library",
diff --git a/internal/create/handler.go b/internal/create/handler.go
index 6d6115b..710dc91 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -30,6 +30,7 @@ import (
 	"strings"
 	"text/template"
 
+	"github.com/uber/prototool/internal/file"
 	"github.com/uber/prototool/internal/protostrs"
 	"github.com/uber/prototool/internal/settings"
 	"go.uber.org/zap"
@@ -254,9 +255,7 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 	// note that createDirPath will always be absolute per the spec in
 	// the settings package
 	for createDirPath, basePkg := range config.Create.DirPathToBasePackage {
-		// TODO: cannot do rel right away because it will do ../.. if necessary
-		// strings.HasPrefix is not OS independent however
-		if !strings.HasPrefix(absDirPath, createDirPath) {
+		if !file.IsWithin(absDirPath, createDirPath) {
 			continue
 		}
 		if len(createDirPath) > len(longestCreateDirPath) {
@@ -274,9 +273,7 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 
 	// no package mapping found, do default logic
 
-	// TODO: cannot do rel right away because it will do ../.. if necessary
-	// strings.HasPrefix is not OS independent however
-	if !strings.HasPrefix(absDirPath, config.DirPath) {
+	if !file.IsWithin(absDirPath, config.DirPath) {
 		return defaultPackage, nil
 	}
 	rel, err := filepath.Rel(config.DirPath, absDirPath)
-- 
2.43.0


From a5f66df92b68161cf212bd235eadf0236eeb1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:16 +0000
Subject: [PATCH 08/23] fix: apply configuration data given to create at the
 working directory

The directory of the new file was used instead, so that the package mapping
and relative paths of the data were resolved in the wrong directory.
---
 internal/create/handler.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 710dc91..207470b 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -284,15 +284,18 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 }
 
 func (h *handler) getConfig(filePath string) (settings.Config, error) {
+	if h.configData != "" {
+		workDirPath, err := filepath.Abs(".")
+		if err != nil {
+			return settings.Config{}, err
+		}
+		return h.configProvider.GetForData(workDirPath, h.configData)
+	}
 	absFilePath, err := filepath.Abs(filePath)
 	if err != nil {
 		return settings.Config{}, err
 	}
-	absDirPath := filepath.Dir(absFilePath)
-	if h.configData != "" {
-		return h.configProvider.GetForData(absDirPath, h.configData)
-	}
-	return h.configProvider.GetForDir(absDirPath)
+	return h.configProvider.GetForDir(filepath.Dir(absFilePath))
 }
 
 func getPkgFromRel(rel string, basePkg string, defaultPackage string) string {
-- 
2.43.0


From f54385fbfb8e956ed83b2c589ac4e0d4e8bfcee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 09/23] fix: keep a c-style inline comment of several lines on
 the line of its element

---
 internal/format/base_visitor.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index b5780fe..ad12932 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -25,6 +25,7 @@ import (
 	"sort"
 	"strings"
 	"text/scanner"
+	"unicode"
 
 	"github.com/emicklei/proto"
 	"github.com/uber/prototool/internal/buf"
@@ -55,11 +56,15 @@ func (v *baseVisitor) PWithInlineComment(inlineComment *proto.Comment, args ...i
 		return
 	}
 	// https://github.com/emicklei/proto/commit/5a91db7561a4dedab311f36304fcf0512343a9b1
-	args = append(args, ` //`, cleanCommentLine(inlineComment.Lines[0]))
-	v.P(args...)
-	for _, line := range inlineComment.Lines[1:] {
-		v.P(`//`, cleanCommentLine(line))
+	line := cleanCommentLine(inlineComment.Lines[0])
+	// a c-style comment can have more than one line, only a single line stays with the element
+	for _, next := range inlineComment.Lines[1:] {
+		if next = strings.TrimSpace(cleanCommentLine(next)); next != "" {
+			line = strings.TrimRightFunc(line, unicode.IsSpace) + " " + next
+		}
 	}
+	args = append(args, ` //`, line)
+	v.P(args...)
 }
 
 func (v *baseVisitor) PComment(comment *proto.Comment) {
-- 
2.43.0


From 8bdc10af8d486a040484998ed8bf124fe9dc52fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 10/23] fix: format options whose value is an empty message

---
 internal/format/base_visitor.go | 64 +++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index ad12932..7e1bd5d 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -96,10 +96,8 @@ func (v *baseVisitor) pMessageOrEnumField(prefix string, fieldName string, field
 	if len(options) == 1 {
 		o := options[0]
 		if isSingleValueLiteral(o.Constant) {
-			if source := o.Constant.SourceRepresentation(); source != "" {
-				v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, " [", o.Name, ` = `, source, "];")
-				return
-			}
+			v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, " [", o.Name, ` = `, singleValueSource(o.Constant), "];")
+			return
 		}
 	}
 	v.P(prefix, fieldType, fieldName, " = ", fieldTag, " [")
@@ -129,11 +127,7 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 		}
 		v.PComment(o.Comment)
 		if isSingleValueLiteral(o.Constant) {
-			// SourceRepresentation() returns an empty string if the literal is empty
-			// if empty, we do not want to print the key or empty value
-			if source := o.Constant.SourceRepresentation(); source != "" {
-				v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, source, suffix)
-			}
+			v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, singleValueSource(o.Constant), suffix)
 		} else if len(o.Constant.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 			v.Failures = append(
 				v.Failures,
@@ -142,27 +136,31 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 		} else { // len(o.Constant.OrderedMap) > 0
 			v.P(prefix, o.Name, ` = {`)
 			v.In()
-			for _, namedLiteral := range o.Constant.OrderedMap {
-				v.pInnerLiteral(namedLiteral.Name, *namedLiteral.Literal, "")
-			}
+			v.pNamedLiterals(o.Constant.OrderedMap)
 			v.Out()
 			v.PWithInlineComment(o.InlineComment, `}`, suffix)
 		}
 	}
 }
 
-// should only be called by pOptions
+// should only be called by pOptions and pInnerLiteral
+func (v *baseVisitor) pNamedLiterals(namedLiterals proto.LiteralMap) {
+	for _, namedLiteral := range namedLiterals {
+		// if empty, we do not want to print the key or empty value
+		if !isEmptyLiteral(*namedLiteral.Literal) {
+			v.pInnerLiteral(namedLiteral.Name, *namedLiteral.Literal, "")
+		}
+	}
+}
+
+// should only be called by pOptions and pNamedLiterals
 func (v *baseVisitor) pInnerLiteral(name string, literal proto.Literal, suffix string) {
 	prefix := ""
 	if name != "" {
 		prefix = name + ": "
 	}
 	if isSingleValueLiteral(literal) {
-		// SourceRepresentation() returns an empty string if the literal is empty
-		// if empty, we do not want to print the key or empty value
-		if source := literal.SourceRepresentation(); source != "" {
-			v.P(prefix, source, suffix)
-		}
+		v.P(prefix, singleValueSource(literal), suffix)
 	} else if len(literal.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 		v.P(prefix, `[`)
 		v.In()
@@ -178,9 +176,7 @@ func (v *baseVisitor) pInnerLiteral(name string, literal proto.Literal, suffix s
 	} else { // len(literal.OrderedMap) > 0
 		v.P(prefix, `{`)
 		v.In()
-		for _, namedLiteral := range literal.OrderedMap {
-			v.pInnerLiteral(namedLiteral.Name, *namedLiteral.Literal, "")
-		}
+		v.pNamedLiterals(literal.OrderedMap)
 		v.Out()
 		v.P(`}`, suffix)
 	}
@@ -190,9 +186,33 @@ func (v *baseVisitor) PField(prefix string, fieldType string, field *proto.Field
 	v.pMessageOrEnumField(prefix, field.Name, fieldType, field.Sequence, field.Comment, field.InlineComment, field.Options...)
 }
 
+// isEmptyLiteral returns true for an empty message or array, including
+// a message that only has names with empty messages or arrays.
+func isEmptyLiteral(literal proto.Literal) bool {
+	for _, namedLiteral := range literal.OrderedMap {
+		if !isEmptyLiteral(*namedLiteral.Literal) {
+			return false
+		}
+	}
+	return len(literal.Array) == 0 && literal.SourceRepresentation() == ""
+}
+
+// singleValueSource returns the source of a literal for which
+// isSingleValueLiteral returns true.
+func singleValueSource(literal proto.Literal) string {
+	if source := literal.SourceRepresentation(); source != "" {
+		return source
+	}
+	// SourceRepresentation() returns an empty string if the literal is empty
+	if literal.Array != nil {
+		return "[]"
+	}
+	return "{}"
+}
+
 func isSingleValueLiteral(literal proto.Literal) bool {
 	// TODO: this is a good example of the reasoning for https://github.com/uber/prototool/issues/1
-	return len(literal.Array) == 0 && len(literal.OrderedMap) == 0
+	return isEmptyLiteral(literal) || (len(literal.Array) == 0 && len(literal.OrderedMap) == 0)
 }
 
 func (v *baseVisitor) PEnumField(element *proto.EnumField) {
-- 
2.43.0


From 256a4099dd2c0377fcacd62a6deb96c498ab467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 11/23] fix: keep the comment of an only field option when
 formatting

---
 internal/format/base_visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 7e1bd5d..6258a51 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -95,7 +95,8 @@ func (v *baseVisitor) pMessageOrEnumField(prefix string, fieldName string, field
 	}
 	if len(options) == 1 {
 		o := options[0]
-		if isSingleValueLiteral(o.Constant) {
+		// a comment on the option needs lines of its own
+		if isSingleValueLiteral(o.Constant) && o.Comment == nil {
 			v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, " [", o.Name, ` = `, singleValueSource(o.Constant), "];")
 			return
 		}
-- 
2.43.0


From 8877f17a3792d642f60f8ea3ef5932ec519916f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 12/23] fix: keep the order of options and imports of the same
 name when formatting

---
 internal/format/base_visitor.go       | 2 +-
 internal/format/first_pass_visitor.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 6258a51..e7b5b5f 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -112,7 +112,7 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 	if len(options) == 0 {
 		return
 	}
-	sort.Slice(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
+	sort.SliceStable(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
 	prefix := "option "
 	if isFieldOption {
 		prefix = ""
diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 773687c..1511c60 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -289,7 +289,7 @@ func (v *firstPassVisitor) PImports(imports []*proto.Import) {
 	if len(imports) == 0 {
 		return
 	}
-	sort.Slice(imports, func(i int, j int) bool { return imports[i].Filename < imports[j].Filename })
+	sort.SliceStable(imports, func(i int, j int) bool { return imports[i].Filename < imports[j].Filename })
 	for _, i := range imports {
 		v.PComment(i.Comment)
 		// kind can be "weak", "public", or empty
-- 
2.43.0


From 02df0d806f6825c9d2dc2d49f9fa614c7bfe1daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 13/23] fix: keep the labels and options of groups when
 formatting

---
 internal/format/main_visitor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index dfdec19..7c1bb85 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -113,6 +113,8 @@ func (v *mainVisitor) VisitOption(element *proto.Option) {
 	switch v.parent.(type) {
 	case (*proto.Enum):
 		v.POptions(element)
+	case (*proto.Group):
+		v.POptions(element)
 	case (*proto.Message):
 		v.POptions(element)
 	case (*proto.Oneof):
@@ -262,8 +264,12 @@ func (v *mainVisitor) VisitGroup(element *proto.Group) {
 	v.haveHitNonComment = true
 	v.PComment(element.Comment)
 	prefix := ""
-	// TODO: required and repeated not handled yet, add when handled
-	if element.Optional {
+	switch {
+	case element.Required:
+		prefix = "required "
+	case element.Repeated:
+		prefix = "repeated "
+	case element.Optional:
 		prefix = "optional "
 	}
 	if len(element.Elements) == 0 {
-- 
2.43.0


From 9058c35b70dbdb7f7f7f529551fc33528c03968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 14/23] fix: keep the label optional in proto3 when formatting

---
 internal/format/main_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index 7c1bb85..113b668 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -142,6 +142,8 @@ func (v *mainVisitor) VisitNormalField(element *proto.NormalField) {
 		} else {
 			prefix = "optional "
 		}
+	} else if element.Optional {
+		prefix = "optional "
 	}
 	if element.Repeated {
 		prefix = "repeated "
-- 
2.43.0


From ea7b256f93005a483ed1c6819825898f26f727a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:56 +0000
Subject: [PATCH 15/23] fix: do not duplicate the file header attached to the
 syntax

---
 internal/format/first_pass_visitor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 1511c60..f340c6e 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -63,8 +63,9 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 		v.P()
 	}
 	if v.Syntax != nil {
-		v.PComment(v.Syntax.Comment)
-		if v.Syntax.Comment != nil {
+		// as for other comments before syntax, the file header replaces this one
+		if v.Syntax.Comment != nil && (v.fix == FixNone || v.fileHeader == "") {
+			v.PComment(v.Syntax.Comment)
 			// special case, we add a newline in between the first comment and syntax
 			// to separate licenses, file descriptions, etc.
 			v.P()
-- 
2.43.0


From da0adc5570b9d764119600b7f6abf773f667e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:42 +0000
Subject: [PATCH 16/23] fix: keep options that are not derived when formatting
 with fix

---
 internal/format/first_pass_visitor.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index f340c6e..6d5d59f 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -161,6 +161,22 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 			)
 		}
 	}
+	// the options that are not derived stay as they are
+	if v.Package == nil {
+		v.addOptions(
+			v.goPackageOption,
+			v.javaMultipleFilesOption,
+			v.javaOuterClassnameOption,
+			v.javaPackageOption,
+		)
+	}
+	if v.Package == nil || v.fix != FixV2 {
+		v.addOptions(
+			v.csharpNamespaceOption,
+			v.objcClassPrefixOption,
+			v.phpNamespaceOption,
+		)
+	}
 	if len(v.Options) > 0 {
 		v.POptions(v.Options...)
 		v.P()
@@ -286,6 +302,14 @@ func (v *firstPassVisitor) VisitExtensions(element *proto.Extensions) {
 	v.haveHitNonComment = true
 }
 
+func (v *firstPassVisitor) addOptions(options ...*proto.Option) {
+	for _, option := range options {
+		if option != nil {
+			v.Options = append(v.Options, option)
+		}
+	}
+}
+
 func (v *firstPassVisitor) PImports(imports []*proto.Import) {
 	if len(imports) == 0 {
 		return
-- 
2.43.0


From 418e56c6258b83499d3f7dd5e0175f95a36ac008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:58 +0000
Subject: [PATCH 17/23] fix: format directories in a fixed order

---
 internal/exec/runner.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 1f53a6d..91ed147 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -489,12 +489,17 @@ func (r *runner) Format(args []string, overwrite, diffMode, lintMode, fixFlag bo
 
 func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader string, javaPackagePrefix string, meta *meta) error {
 	success := true
-	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
+	dirPaths := make([]string, 0, len(meta.ProtoSet.DirPathToFiles))
+	for dirPath := range meta.ProtoSet.DirPathToFiles {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	sort.Strings(dirPaths)
+	for _, dirPath := range dirPaths {
 		// skip those files not under the directory
 		if !file.IsWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
-		for _, protoFile := range protoFiles {
+		for _, protoFile := range meta.ProtoSet.DirPathToFiles[dirPath] {
 			fileSuccess, err := r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, protoFile)
 			if err != nil {
 				return err
-- 
2.43.0


From ea9a8af2d909d947a406f97a3c77be12189bbddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:07 +0000
Subject: [PATCH 18/23] fix: print failures that are about no file when one
 file is given

---
 internal/exec/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 91ed147..385cd84 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -1154,7 +1154,8 @@ func (r *runner) printFailuresForErrorFormat(errorFormat string, filename string
 	for _, failure := range failures {
 		shouldPrint := false
 		if meta != nil {
-			if meta.SingleFilename == "" || meta.SingleFilename == failure.Filename {
+			// failures without a filename are not about another file
+			if meta.SingleFilename == "" || failure.Filename == "" || meta.SingleFilename == failure.Filename {
 				shouldPrint = true
 			} else if meta.SingleFilename != "" {
 				// TODO: the compiler may not return the rel path due to logic in bestFilePath
-- 
2.43.0


From badb7475db389c94f35910bd06cedc81cdad2857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:12 +0000
Subject: [PATCH 19/23] fix: reject protoc paths that cannot be used, and do
 not look up a relative protoc-bin-path in PATH

---
 internal/protoc/downloader.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index a2546c9..1b243d2 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -88,22 +88,27 @@ func newDownloader(config settings.Config, options ...DownloaderOption) (*downlo
 			return nil, fmt.Errorf("both protoc-bin-path and protoc-wkt-path must be set")
 		}
 		cleanBinPath := filepath.Clean(downloader.protocBinPath)
-		if _, err := os.Stat(cleanBinPath); os.IsNotExist(err) {
+		if _, err := os.Stat(cleanBinPath); err != nil {
 			return nil, err
 		}
 		cleanWKTPath := filepath.Clean(downloader.protocWKTPath)
-		if _, err := os.Stat(cleanWKTPath); os.IsNotExist(err) {
+		if _, err := os.Stat(cleanWKTPath); err != nil {
 			return nil, err
 		}
 		protobufPath := filepath.Join(cleanWKTPath, "google", "protobuf")
 		info, err := os.Stat(protobufPath)
-		if os.IsNotExist(err) {
+		if err != nil {
 			return nil, err
 		}
 		if !info.IsDir() {
 			return nil, fmt.Errorf("%q is not a valid well-known types directory", protobufPath)
 		}
-		downloader.protocBinPath = cleanBinPath
+		// a relative path without a separator would be looked up in PATH
+		absBinPath, err := file.AbsClean(cleanBinPath)
+		if err != nil {
+			return nil, err
+		}
+		downloader.protocBinPath = absBinPath
 		downloader.protocWKTPath = cleanWKTPath
 	}
 	return downloader, nil
-- 
2.43.0


From 88915552f73753fdd547b9542f7f92d82cb5e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:12 +0000
Subject: [PATCH 20/23] fix: do not write outside of the installation when
 extracting the protobuf zip file

---
 internal/protoc/downloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 1b243d2..16d1613 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -249,6 +249,9 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 			return err
 		}
 		writeFilePath := filepath.Join(basePath, file.Name)
+		if !strings.HasPrefix(writeFilePath, filepath.Clean(basePath)+string(os.PathSeparator)) {
+			return fmt.Errorf("invalid file name in protobuf zip file: %q", file.Name)
+		}
 		if err := os.MkdirAll(filepath.Dir(writeFilePath), 0755); err != nil {
 			return err
 		}
-- 
2.43.0


From 28eebc881e01c5389b9c645eddecc607df80ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:28 +0000
Subject: [PATCH 21/23] fix: take a protobuf installation as complete only once
 all of it was extracted

---
 internal/protoc/downloader.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 16d1613..6c72ad3 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -215,7 +215,24 @@ func (d *downloader) checkDownloaded(basePath string) error {
 }
 
 func (d *downloader) download(basePath string) (retErr error) {
-	return d.downloadInternal(basePath, runtime.GOOS, runtime.GOARCH)
+	// extract next to the base path and rename when complete, so that
+	// what a failed extraction leaves is not taken as downloaded later
+	tmpPath := basePath + ".tmp"
+	if err := os.RemoveAll(tmpPath); err != nil {
+		return err
+	}
+	defer func() {
+		if err := os.RemoveAll(tmpPath); err != nil && retErr == nil {
+			retErr = err
+		}
+	}()
+	if err := d.downloadInternal(tmpPath, runtime.GOOS, runtime.GOARCH); err != nil {
+		return err
+	}
+	if err := os.RemoveAll(basePath); err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, basePath)
 }
 
 func (d *downloader) downloadInternal(basePath string, goos string, goarch string) (retErr error) {
-- 
2.43.0


From 11cc3a0dea2930396652a06ba1774cb2efda7d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:59 +0000
Subject: [PATCH 22/23] fix: send all values of a gRPC header that is given
 more than once

---
 internal/exec/runner.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 385cd84..483d8e5 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -621,13 +621,14 @@ func (r *runner) GRPC(args, headers []string, address, method, data, callTimeout
 	}
 	reader := r.getInputReader(data, stdin)
 
-	parsedHeaders := make(map[string]string)
+	// a header can be given more than once
+	var parsedHeaders [][2]string
 	for _, header := range headers {
 		split := strings.SplitN(header, ":", 2)
 		if len(split) != 2 {
 			return fmt.Errorf("headers must be key:value but got %s", header)
 		}
-		parsedHeaders[split[0]] = split[1]
+		parsedHeaders = append(parsedHeaders, [2]string{split[0], split[1]})
 	}
 	var parsedCallTimeout time.Duration
 	var parsedConnectTimeout time.Duration
@@ -1052,7 +1053,7 @@ func (r *runner) newCreateHandler(pkg string) create.Handler {
 }
 
 func (r *runner) newGRPCHandler(
-	headers map[string]string,
+	headers [][2]string,
 	callTimeout time.Duration,
 	connectTimeout time.Duration,
 	keepaliveTime time.Duration,
@@ -1067,8 +1068,8 @@ func (r *runner) newGRPCHandler(
 	handlerOptions := []grpc.HandlerOption{
 		grpc.HandlerWithLogger(r.logger),
 	}
-	for key, value := range headers {
-		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(key, value))
+	for _, header := range headers {
+		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(header[0], header[1]))
 	}
 	if callTimeout != 0 {
 		handlerOptions = append(handlerOptions, grpc.HandlerWithCallTimeout(callTimeout))
-- 
2.43.0


From c017de2424c61ba76692a2e5572db12cc3e7b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:04 +0000
Subject: [PATCH 23/23] fix: do not delete a custom cache with cache delete

---
 internal/protoc/downloader.go | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 6c72ad3..5bd04c9 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -147,10 +147,14 @@ func (d *downloader) WellKnownTypesIncludePath() (string, error) {
 }
 
 func (d *downloader) Delete() error {
-	basePath, err := d.getBasePathNoVersionOSARCH()
+	// custom cache paths are managed by the user and must not be deleted
+	basePath, err := getDefaultBasePathNoOSARCH()
 	if err != nil {
 		return err
 	}
+	if err := file.CheckAbs(basePath); err != nil {
+		return err
+	}
 	d.cachedBasePath = ""
 	d.logger.Debug("deleting", zap.String("path", basePath))
 	return os.RemoveAll(basePath)
@@ -358,26 +362,6 @@ func (d *downloader) getBasePath() (string, error) {
 	return filepath.Join(basePathNoVersion, d.getBasePathVersionPart()), nil
 }
 
-func (d *downloader) getBasePathNoVersionOSARCH() (string, error) {
-	basePath := d.cachePath
-	var err error
-	if basePath == "" {
-		basePath, err = getDefaultBasePathNoOSARCH()
-		if err != nil {
-			return "", err
-		}
-	} else {
-		basePath, err = file.AbsClean(basePath)
-		if err != nil {
-			return "", err
-		}
-	}
-	if err := file.CheckAbs(basePath); err != nil {
-		return "", err
-	}
-	return basePath, nil
-}
-
 func (d *downloader) getBasePathNoVersion() (string, error) {
 	basePath := d.cachePath
 	var err error
-- 
2.43.0

