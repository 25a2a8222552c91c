From 3bb4043e377334ac173afe8ffcf5282b0b729389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 01/48] fix: keep the overlays of one file from overwriting
 another's

With two or more commonOverlays and an ad-hoc overlay, the appended common
overlay slice had spare capacity, so every file's overlays were written to the
same backing array.
---
 internal/instructions/instructions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 0fcd18b..c183ff3 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -112,7 +112,11 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 // addCommonOverlays, takes all common overlays and adds them to each yamlFile entry.
 func (i *Instructions) addCommonOverlays() {
 	for _, yf := range i.YamlFiles {
-		yf.Overlays = append(i.CommonOverlays, yf.Overlays...)
+		// every file needs a slice of its own, a shared backing array would let
+		// the overlays of one file overwrite those of another
+		merged := make([]*overlays.Overlay, 0, len(i.CommonOverlays)+len(yf.Overlays))
+		merged = append(merged, i.CommonOverlays...)
+		yf.Overlays = append(merged, yf.Overlays...)
 	}
 }
 
-- 
2.43.0


From 2df17f6ca76257e6970300754f9235f451cbae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 02/48] fix: start a file's output with --- when its first
 document was deleted

Without the marker the documents of consecutive files ran together on stdout.
---
 internal/instructions/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index b2d5b59..432134b 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -117,12 +117,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 
 	ye.SetIndent(viper.GetInt("indentLevel"))
 
-	for i, node := range nodes {
+	for _, node := range nodes {
 		if len(node.Content) == 0 {
 			continue
 		}
 
-		if i == 0 {
+		if !fileWritten {
 			output.WriteString("---\n")
 		}
 
-- 
2.43.0


From 0301d293963213b16771cf3fc084fc693e4288d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 03/48] fix: honour the YOT_* environment variables

viper.BindEnv takes the setting first and the variable second.
---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 8eaa323..7f2eca6 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -47,7 +47,7 @@ func New() *Root {
 
 func (r *Root) initConfig() {
 	for k, v := range envMap() {
-		if err := viper.BindEnv(k, v); err != nil {
+		if err := viper.BindEnv(v, k); err != nil {
 			r.Log.Fatal(err)
 		}
 	}
-- 
2.43.0


From 7571f7776d453e1b27b814fc87fdfecd79e3ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 04/48] fix: make the sprig functions known before an
 instructions template is parsed

---
 internal/instructions/template.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/template.go b/internal/instructions/template.go
index 815f730..2361304 100644
--- a/internal/instructions/template.go
+++ b/internal/instructions/template.go
@@ -7,18 +7,19 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"path/filepath"
 	"text/template"
 
 	"github.com/Masterminds/sprig/v3"
 )
 
 func renderInstructionsTemplate(fileName string, values interface{}) (io.Reader, error) {
-	tpl, err := template.ParseFiles(fileName)
+	tpl, err := template.New(filepath.Base(fileName)).Funcs(template.FuncMap(sprig.FuncMap())).ParseFiles(fileName)
 	if err != nil {
 		return nil, fmt.Errorf("unable to process template for instructions file %s, %w", fileName, err)
 	}
 
-	tpl = tpl.Funcs(template.FuncMap(sprig.FuncMap())).Option("missingkey=zero")
+	tpl = tpl.Option("missingkey=zero")
 
 	var b bytes.Buffer
 
-- 
2.43.0


From 6bf0ca8050b084545def4633a3313207efd3f17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 05/48] fix: let --remove-comments remove the comments of the
 document itself

Comments before the first and after the last node belong to the document node,
which was skipped.
---
 internal/instructions/yamlfile.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index e06fd3a..4a24dc3 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -180,15 +180,11 @@ func (yfs *YamlFiles) mergeDuplicates() {
 
 // removeCommentsFromNode will traverse the tree of yaml nodes and remove all comments.
 func removeCommentsFromNode(node *yaml.Node) {
-	if node.Content == nil {
-		return
-	}
+	node.HeadComment = ""
+	node.LineComment = ""
+	node.FootComment = ""
 
 	for _, child := range node.Content {
-		child.HeadComment = ""
-		child.LineComment = ""
-		child.FootComment = ""
-
 		removeCommentsFromNode(child)
 	}
 }
-- 
2.43.0


From 67260fe0dedc0339c26c4a1dbb188a226fc6813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 06/48] fix: keep the existing comments an overlay does not set

An overlay with only a head comment fell through and emptied the line and foot
comments of the original.
---
 internal/actions/merge.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 372e647..d3f2f3f 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -186,16 +186,15 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 		keyName = values[0]
 	}
 
-	switch {
-	case n.HeadComment != "":
+	if n.HeadComment != "" {
 		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.LineComment != "":
+	if n.LineComment != "" {
 		o.LineComment = format(n.LineComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.FootComment != "":
+	if n.FootComment != "" {
 		o.FootComment = format(n.FootComment, value, lc, hc, fc, keyName)
 	}
 }
-- 
2.43.0


From 2016b32c6443e5784ae32199d3106aa0f9f1f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 07/48] fix: remove a data race on the default onMissing action

Files are processed concurrently and share the common overlays, so resolving
the default must not write to the overlay.
---
 internal/overlays/onmissing.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index f5607fe..7ffb3e9 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -28,9 +28,12 @@ type OnMissing struct {
 }
 
 func (o *Overlay) onMissing(n *yaml.Node) error {
-	if o.OnMissing.Action == actions.Default {
+	// overlays are shared by the goroutines of all files, so the default must not be stored in them
+	action := o.OnMissing.Action
+
+	if action == actions.Default {
 		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") {
-			o.OnMissing.Action = actions.Inject
+			action = actions.Inject
 		}
 	}
 
@@ -39,7 +42,7 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 	// we need to then check if each inject path is valid (does it exist)
 	// if we had an inject path(s) then we inject the value to those locations
 	// if we didn't have an inject path we have an implicit onMissing: ignore and we put out a warning if not stdout option to terminal
-	switch o.OnMissing.Action {
+	switch action {
 	case actions.Inject:
 		return o.handleInjectPath(n)
 	default:
-- 
2.43.0


From 8c380f3584c1137d2cc02614640c2a9b7614b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 08/48] fix: do not inject null for a delete overlay without
 matches

onMissing only applies to merge and replace, a delete has no value to inject.
---
 internal/overlays/onmissing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 7ffb3e9..1a24ff2 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -28,6 +28,11 @@ type OnMissing struct {
 }
 
 func (o *Overlay) onMissing(n *yaml.Node) error {
+	// there is nothing to inject for a delete
+	if o.Action == actions.Delete {
+		return nil
+	}
+
 	// overlays are shared by the goroutines of all files, so the default must not be stored in them
 	action := o.OnMissing.Action
 
-- 
2.43.0


From 83262de7154df64d7144e9827dcdee36af2c0ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 09/48] fix: report an injection without a path instead of
 crashing

An overlay without a query (or with an empty injectPath) and onMissing inject
panicked with an index out of range.
---
 internal/builder/path.go       | 4 ++++
 internal/overlays/onmissing.go | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index f54876d..905ad5f 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -118,6 +118,10 @@ func newPath(l *lexer) (*Path, error) {
 }
 
 func (paths *Paths) BuildPaths() (*yaml.Node, error) {
+	if len(*paths) == 0 {
+		return nil, fmt.Errorf("%w, no path given", ErrInvalidPathSyntax)
+	}
+
 	yamlNodes := make([]*yaml.Node, len(*paths))
 
 	for i, p := range *paths {
diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 1a24ff2..e037264 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -63,7 +63,10 @@ func (o *Overlay) doInjectPath(ip Queries, node *yaml.Node) error {
 		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
 	}
 
-	y, _ := bps.BuildPaths()
+	y, err := bps.BuildPaths()
+	if err != nil {
+		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
+	}
 
 	err = actions.MergeNode(node, y)
 	if err != nil {
-- 
2.43.0


From 6fa82cf0e9d3f26054da967c5369f31b4c67a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 10/48] fix: skip overlays on a document an earlier overlay has
 deleted

Injecting into a deleted document panicked with an index out of range.
---
 internal/overlays/overlay.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index b1c44e1..b5be7e9 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -24,6 +24,11 @@ type Overlay struct {
 }
 
 func (o *Overlay) Apply(n *yaml.Node) error {
+	// nothing can be done with a document an earlier overlay has deleted
+	if n.Kind == yaml.DocumentNode && len(n.Content) == 0 {
+		return nil
+	}
+
 	log.Debugf("Checking Document Queries for [%q]", o.Name)
 
 	if ok := o.DocumentQuery.checkQueries(n); !ok {
-- 
2.43.0


From 0e327bfe56ef2f3a90d90f5bbac087fb87238002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 11/48] fix: expand a directory in place of its yamlFiles entry

The files of directories were moved behind all other entries, so a later entry
for one of them was treated as the earlier one: its overlays ran first and its
outputPath was overridden by that of the directory.
---
 internal/instructions/yamlfile.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 4a24dc3..04e112e 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -111,10 +111,16 @@ func (yf *YamlFile) readYamlFile() error {
 func (yfs *YamlFiles) expandDirectories() error {
 	y := []*YamlFile(*yfs)
 
+	// the files of a directory take the place of its entry, as the order of the
+	// entries decides the order of overlays and which outputPath wins
+	expanded := make([]*YamlFile, 0, len(y))
+
 	var paths []string
 
-	for i := 0; i <= len(y)-1; i++ {
+	for i := range y {
 		if y[i].Path == "-" {
+			expanded = append(expanded, y[i])
+
 			continue
 		}
 
@@ -142,15 +148,14 @@ func (yfs *YamlFiles) expandDirectories() error {
 					OutputPath: y[i].OutputPath,
 				}
 
-				y = append(y, sp)
+				expanded = append(expanded, sp)
 			}
-
-			y = append(y[:i], y[i+1:]...)
-			i--
+		} else {
+			expanded = append(expanded, y[i])
 		}
 	}
 
-	*yfs = y
+	*yfs = expanded
 
 	return nil
 }
-- 
2.43.0


From 9f377d78d41f8e2c302093a8b087bb8f3e5870dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 12/48] fix: keep subdirectories apart when a directory has an
 outputPath

Files with the same name in different subdirectories overwrote one another.
---
 internal/instructions/yamlfile.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 04e112e..15b8712 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/spf13/viper"
 	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
@@ -140,12 +141,18 @@ func (yfs *YamlFiles) expandDirectories() error {
 			}
 
 			for _, p := range paths {
+				outputPath := y[i].OutputPath
+				if outputPath != "" {
+					// keep the structure of the directory below the new location
+					outputPath = path.Join(outputPath, strings.TrimPrefix(p, y[i].Path))
+				}
+
 				sp := &YamlFile{
 					Name:       y[i].Name,
 					Overlays:   y[i].Overlays,
 					Documents:  y[i].Documents,
 					Path:       p,
-					OutputPath: y[i].OutputPath,
+					OutputPath: outputPath,
 				}
 
 				expanded = append(expanded, sp)
-- 
2.43.0


From 075d31f9568e81fbea0b41841d20476db728fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 13/48] fix: treat different spellings of an absolute path as
 the same file

The output path is the input path without the common directory, which was
computed from the cleaned path only.  With /a//b.yaml or /a/../b.yaml the
prefix did not match, so the output went to the absolute path: over the source.
---
 internal/instructions/yamlfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 15b8712..ee2a3b3 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -129,6 +129,9 @@ func (yfs *YamlFiles) expandDirectories() error {
 			y[i].Path = path.Join(viper.GetString("instructionsDir"), y[i].Path)
 		}
 
+		// different spellings of a path are the same file
+		y[i].Path = path.Clean(y[i].Path)
+
 		if ok, err := isDirectory(y[i].Path); err != nil {
 			return err
 		} else if ok {
-- 
2.43.0


From 5bfdfda0985260db304ba501c32f27bfae0c0729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 14/48] fix: do not write the output of a file in / over the
 file itself

---
 internal/instructions/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 454c8be..8f4c619 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 )
 
 func ReadStream(fileName string) (io.Reader, error) {
@@ -38,7 +39,7 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 	case 0:
 		return ""
 	case 1:
-		return path.Dir(path.Clean(paths[0])) + string(os.PathSeparator)
+		return strings.TrimSuffix(path.Dir(path.Clean(paths[0])), string(os.PathSeparator)) + string(os.PathSeparator)
 	}
 
 	c := path.Clean(paths[0]) + string(sep)
-- 
2.43.0


From c49120b023122aa0e3c607b3f12908de316fd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 15/48] fix: let a repeated output style mean the same as
 giving it once

Styles are bits; adding one twice turned it into a different style.
---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index ed05565..4aa37c0 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -59,7 +59,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 func (ss Styles) GetStyle() Style {
 	var s Style
 	for _, v := range ss {
-		s += v
+		s |= v
 	}
 
 	return s
-- 
2.43.0


From 9155ce9f18e11a3f3dd1bfd18bd2822bbfabf7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 16/48] fix: keep the data an alias stands for when merging
 into it

The merge turned the alias into an empty mapping or sequence first.
---
 internal/actions/merge.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index d3f2f3f..467a8ed 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -36,6 +36,8 @@ func MergeNode(nodes ...*yaml.Node) error {
 }
 
 func merge(o, n *yaml.Node, keyName ...string) error {
+	expandAlias(o)
+
 	switch n.Kind {
 	case yaml.DocumentNode:
 		return mergeDocument(o, n)
@@ -199,6 +201,30 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 	}
 }
 
+// expandAlias turns an alias into a copy of the node it stands for, so that it can be changed on its own.
+func expandAlias(o *yaml.Node) {
+	if o.Kind != yaml.AliasNode || o.Alias == nil {
+		return
+	}
+
+	c := copyWithoutAnchors(o.Alias)
+	c.HeadComment, c.LineComment, c.FootComment = o.HeadComment, o.LineComment, o.FootComment
+
+	*o = *c
+}
+
+func copyWithoutAnchors(n *yaml.Node) *yaml.Node {
+	c := *n
+	c.Anchor = ""
+	c.Content = make([]*yaml.Node, len(n.Content))
+
+	for i := range n.Content {
+		c.Content[i] = copyWithoutAnchors(n.Content[i])
+	}
+
+	return &c
+}
+
 func addNode(o *yaml.Node, nv ...*yaml.Node) error {
 	temp := make([]*yaml.Node, len(nv))
 
-- 
2.43.0


From e7e60d3ca73c8349f0ad962379aff981b1e29772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 17/48] fix: resolve aliases in overlay values

The anchor is defined in the instructions file, so the alias dangled in the
output, which was not valid YAML.
---
 internal/overlays/overlay.go | 48 ++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index b5be7e9..dbcaa8e 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -4,6 +4,7 @@
 package overlays
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/op/go-logging"
@@ -13,6 +14,9 @@ import (
 
 var log = logging.MustGetLogger("overlays") //nolint:gochecknoglobals
 
+// ErrRecursiveAlias occurs when the value of an overlay contains an alias to a node the alias is part of.
+var ErrRecursiveAlias = errors.New("value contains itself through alias")
+
 type Overlay struct {
 	Name          string          `yaml:"name,omitempty"`
 	Query         Queries         `yaml:"query,omitempty"`
@@ -92,6 +96,10 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	if err := resolveAliases(&o.Value); err != nil {
+		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
+	}
+
 	switch "" {
 	case o.Name:
 		o.Name = o.Query.String()
@@ -101,3 +109,43 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 
 	return nil
 }
+
+// resolveAliases replaces the aliases below n by copies of what they stand for, the anchors
+// of an instructions file do not exist in the documents its values end up in.
+func resolveAliases(n *yaml.Node, within ...*yaml.Node) error {
+	if n.Kind == yaml.AliasNode {
+		for _, w := range within {
+			if w == n.Alias {
+				return fmt.Errorf("%w: %s", ErrRecursiveAlias, n.Value)
+			}
+		}
+
+		within = append(within[:len(within):len(within)], n.Alias)
+
+		target := *n.Alias
+		target.HeadComment, target.LineComment, target.FootComment = n.HeadComment, n.LineComment, n.FootComment
+		*n = target
+	}
+
+	n.Anchor = ""
+
+	if len(n.Content) == 0 {
+		return nil
+	}
+
+	// the original of a copied node may be needed again
+	content := make([]*yaml.Node, len(n.Content))
+
+	for i := range n.Content {
+		c := *n.Content[i]
+		if err := resolveAliases(&c, within...); err != nil {
+			return err
+		}
+
+		content[i] = &c
+	}
+
+	n.Content = content
+
+	return nil
+}
-- 
2.43.0


From a5198c4cfdf7afb91d9797062d511878af2043a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 18/48] fix: keep marker-like text of the original values when
 formatting

'%v' on '50%free' produced '50ree': to keep inserted values from being expanded
again, everything that looks like a marker was removed from them.
---
 internal/actions/format.go | 50 +++++++++++---------------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/internal/actions/format.go b/internal/actions/format.go
index f2c0c05..bb05ad9 100644
--- a/internal/actions/format.go
+++ b/internal/actions/format.go
@@ -13,8 +13,6 @@ import (
 )
 
 func format(formatStr string, v ...interface{}) string {
-	v = sanitizeValues(v...)
-
 	return doFormat(formatStr, v...)
 }
 
@@ -37,22 +35,6 @@ func sanitizeNode(n ...*yaml.Node) {
 	}
 }
 
-func sanitizeValues(v ...interface{}) []interface{} {
-	for _, t := range []string{
-		ValueMarker,
-		LineCommentMarker,
-		HeadCommentMarker,
-		FootCommentMarker,
-		KeyMarker,
-	} {
-		for j := range v {
-			v[j] = strings.ReplaceAll(v[j].(string), t, "")
-		}
-	}
-
-	return v
-}
-
 func doFormat(s string, values ...interface{}) string {
 	markers := []string{
 		ValueMarker,
@@ -72,34 +54,30 @@ func doFormat(s string, values ...interface{}) string {
 
 	re := regexp.MustCompile(`(?P<marker>%[vklfh])(?P<format>{(?P<command>.*?)})?`)
 
-	matches := re.FindAllStringSubmatch(s, -1)
-
-	for _, match := range matches {
+	// every marker is replaced exactly once, what looks like a marker in the
+	// original values is data
+	return re.ReplaceAllStringFunc(s, func(match string) string {
 		result := make(map[string]string)
 
-		for i, name := range re.SubexpNames() {
-			if i != 0 && name != "" {
-				result[name] = match[i]
+		for i, submatch := range re.FindStringSubmatch(match) {
+			if name := re.SubexpNames()[i]; name != "" {
+				result[name] = submatch
 			}
 		}
 
-		if result["marker"] != "" {
-			marker := valueMap[result["marker"]]
+		value := valueMap[result["marker"]]
 
-			if result["command"] != "" {
-				var err error
+		if result["command"] != "" {
+			var err error
 
-				marker, err = processSedCommand(result["command"], valueMap[result["marker"]])
-				if err != nil {
-					log.Warningf("Skipping additional format on [%s] due to invalid sed exp [%s], %s", s, result["command"], err)
-				}
+			value, err = processSedCommand(result["command"], value)
+			if err != nil {
+				log.Warningf("Skipping additional format on [%s] due to invalid sed exp [%s], %s", s, result["command"], err)
 			}
-
-			s = strings.Replace(s, match[0], marker, 1)
 		}
-	}
 
-	return s
+		return value
+	})
 }
 
 func processSedCommand(command, value string) (string, error) {
-- 
2.43.0


From dc146b74869e65fd8dcfc0ba7866cc2934d478da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 19/48] fix: refuse to combine types that cannot be combined

Combining a float or null concatenated the texts and left a value that does not
match its type, like !!float 1.52.5.
---
 internal/actions/combine.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 7064c7b..fb7b452 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -14,11 +14,19 @@ import (
 // ErrCombineOnlyForScalars occurs when a non-scalar is attempted to be combined with a scalar value.
 var ErrCombineOnlyForScalars = errors.New("combine action can only be used on scalar values")
 
+// ErrCombineUnsupportedType occurs when a scalar that has no meaningful combination is attempted to be combined.
+var ErrCombineUnsupportedType = errors.New("combine action can only be used on booleans, integers and strings")
+
 func CombineNode(originalValue, newValue *yaml.Node) error {
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
 	}
 
+	switch originalValue.ShortTag() {
+	case "!!float", "!!null", "!!timestamp", "!!binary", "!!merge":
+		return fmt.Errorf("%w, not on %s", ErrCombineUnsupportedType, originalValue.ShortTag())
+	}
+
 	mergeComments(originalValue, newValue)
 
 	switch originalValue.Tag {
-- 
2.43.0


From 9c5cc6c0dd188cc7959ffaf6442f854e31006b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 20/48] fix: add integers by their value when combining them

010 (octal) was added as ten, hexadecimal integers were refused and the sum
wrapped around silently on overflow.
---
 internal/actions/combine.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index fb7b452..2a125a5 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -6,6 +6,7 @@ package actions
 import (
 	"errors"
 	"fmt"
+	"math/big"
 	"strconv"
 
 	"gopkg.in/yaml.v3"
@@ -31,17 +32,18 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 
 	switch originalValue.Tag {
 	case "!!int":
-		o, err := strconv.Atoi(originalValue.Value)
-		if err != nil {
-			return fmt.Errorf("failed to %s to int for merging: %w", originalValue.Value, err)
+		// integers may be of any size, and written in octal, hexadecimal or with underscores
+		o, ok := new(big.Int).SetString(originalValue.Value, 0)
+		if !ok {
+			return fmt.Errorf("failed to convert %s to int for merging: %w", originalValue.Value, strconv.ErrSyntax)
 		}
 
-		n, err := strconv.Atoi(newValue.Value)
-		if err != nil {
-			return fmt.Errorf("failed to %s to int for merging: %w", newValue.Value, err)
+		n, ok := new(big.Int).SetString(newValue.Value, 0)
+		if !ok {
+			return fmt.Errorf("failed to convert %s to int for merging: %w", newValue.Value, strconv.ErrSyntax)
 		}
 
-		originalValue.Value = strconv.Itoa(o + n)
+		originalValue.Value = o.Add(o, n).String()
 
 		return nil
 
-- 
2.43.0


From 4e84234d798c107db0137445ff23b4c2b5076508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 21/48] fix: quote text the encoder cannot write unquoted
 without changing it

Text starting with a line break lost it, '<<' became a merge key, and with
literal and folded style tabs, other line breaks and more indented lines were
lost or made the output unreadable.
---
 internal/actions/style.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 4aa37c0..28fcdd5 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -79,10 +79,39 @@ func setStyle(s Style, n ...*yaml.Node) {
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(s)
+
+			if s&(DoubleQuotedStyle|SingleQuotedStyle) == 0 && needsQuotes(s, nv) {
+				nv.Style = yaml.Style(s&^(LiteralStyle|FoldedStyle) | DoubleQuotedStyle)
+			}
 		}
 	}
 }
 
+// needsQuotes determines if the encoder would write the scalar in a form that is read back differently
+// when it is left unquoted.
+func needsQuotes(s Style, n *yaml.Node) bool {
+	block := strings.Contains(n.Value, "\n") || s&(LiteralStyle|FoldedStyle) != 0
+
+	switch {
+	case n.Value == "<<":
+		// would become a merge key
+		return n.ShortTag() == "!!str"
+	case !block || n.Value == "":
+		return false
+	case strings.ContainsAny(n.Value[:1], " \t\n"):
+		// needs an indentation indicator, which the encoder miscalculates
+		return true
+	case strings.ContainsAny(n.Value, "\u0085\u2028\u2029"):
+		// other line breaks are indented but not read back as line breaks
+		return true
+	case s&FoldedStyle != 0:
+		// more indented lines and trailing line breaks do not survive folding
+		return strings.Contains(n.Value, "\n ") || strings.Contains(n.Value, "\n\t") || strings.HasSuffix(n.Value, "\n\n")
+	}
+
+	return false
+}
+
 func GetStyleFromConfig(v ...string) Styles {
 	var result Styles
 
-- 
2.43.0


From 701163e5db52f32b13b92e8aceac3069d7545ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 22/48] fix: report an invalid log level instead of crashing

The level may come from the configuration file or the environment, where nothing
has checked it.
---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 7f2eca6..f71fe04 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -141,7 +141,7 @@ func (r *Root) SetupLogging(cmd *cobra.Command, args []string) {
 
 	logLevel, err := logging.LogLevel((viper.GetString("logLevel")))
 	if err != nil {
-		panic(err)
+		r.Log.Fatalf("%s %q", err, viper.GetString("logLevel"))
 	}
 
 	backend.SetLevel(logLevel, "")
-- 
2.43.0


From f63b9bcb531a36bc58c92b023f22e864d84b84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 23/48] fix: report a negative indent level instead of crashing

---
 internal/instructions/config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 432134b..d307712 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -5,6 +5,7 @@ package instructions
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -17,6 +18,9 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ErrInvalidIndentLevel occurs when the indent level is not a number of spaces.
+var ErrInvalidIndentLevel = errors.New("indent level must not be negative")
+
 // Config contains configuration options used with instruction files.
 type Config struct {
 	LogLevel               logging.Level
@@ -103,6 +107,11 @@ func (cfg *Config) openOutputFile(yf *YamlFile) (*os.File, error) {
 func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 	var fileWritten bool
 
+	indentLevel := viper.GetInt("indentLevel")
+	if indentLevel < 0 {
+		return nil, fmt.Errorf("%w: %d", ErrInvalidIndentLevel, indentLevel)
+	}
+
 	output := new(bytes.Buffer)
 
 	ye := yaml.NewEncoder(output)
@@ -115,7 +124,7 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 		}
 	}()
 
-	ye.SetIndent(viper.GetInt("indentLevel"))
+	ye.SetIndent(indentLevel)
 
 	for _, node := range nodes {
 		if len(node.Content) == 0 {
-- 
2.43.0


From 8e3c8ff67045f2b4db1c4854ca1e5e501aac4e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 24/48] fix: keep injected key names strings

Keys built from an inject path had no tag, so a name such as '1' or 'null'
was written bare and read back as another type.
---
 internal/builder/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index 905ad5f..be88503 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -186,7 +186,7 @@ func childThen(l *lexer, childName string) (*Path, error) {
 				{
 					Kind:        yaml.ScalarNode,
 					Style:       0,
-					Tag:         "",
+					Tag:         "!!str",
 					Value:       childName,
 					Anchor:      "",
 					Alias:       nil,
@@ -306,7 +306,7 @@ func bracketChildThen(l *lexer, childNames string) (*Path, error) {
 				{
 					Kind:        yaml.ScalarNode,
 					Style:       0,
-					Tag:         "",
+					Tag:         "!!str",
 					Value:       childName,
 					Anchor:      "",
 					Alias:       nil,
-- 
2.43.0


From 55207ae247f70d612cc448bcf65091c7460ec384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 25/48] fix: drop a formatted key's old tag when its text
 changes

---
 internal/actions/merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 467a8ed..ef53abf 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -104,6 +104,10 @@ func mergeMap(o, n *yaml.Node) error {
 			}
 
 			mergeScalar(o.Content[oi], n.Content[ni], value, keyName)
+
+			if o.Content[oi].Value != keyName {
+				o.Content[oi].Tag = n.Content[ni].Tag
+			}
 		}
 
 		if !resultFound {
-- 
2.43.0


From 5a8fce0d647c0a6221d6e9b785e43c795a453065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 26/48] fix: read the files of a directory given as a symbolic
 link

---
 internal/instructions/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 8f4c619..fad14d0 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -85,7 +85,8 @@ func isDirectory(p string) (bool, error) {
 func getFileNames(p string) ([]string, error) {
 	var results []string
 
-	err := filepath.Walk(p,
+	// the separator makes a symbolic link to a directory stand for the directory
+	err := filepath.Walk(p+string(os.PathSeparator),
 		func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				return err
-- 
2.43.0


From fc9e47168a4fe6a1ce3c4bd2e69054176a3d9b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 27/48] fix: accept the documented style name singleQuote as a
 flag

---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 28fcdd5..9ea00db 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -49,7 +49,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 		NormalStyle:       {"normal", "n"},
 		TaggedStyle:       {"tagged", "tag", "t"},
 		DoubleQuotedStyle: {"doubleQuoted", "doubleQuote", "double", "dq"},
-		SingleQuotedStyle: {"singleQuoted", "singleQoute", "single", "sq"},
+		SingleQuotedStyle: {"singleQuoted", "singleQuote", "singleQoute", "single", "sq"},
 		LiteralStyle:      {"literal", "l"},
 		FoldedStyle:       {"folded", "fold", "fo"},
 		FlowStyle:         {"flow", "fl"},
-- 
2.43.0


From 9fa48d0525bec77eaa68400a99982aac9248e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 28/48] fix: keep nulls written as nothing null in flow
 collections and as keys

---
 internal/actions/style.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 9ea00db..80d3046 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -76,6 +76,7 @@ func setStyle(s Style, n ...*yaml.Node) {
 		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
 			nv.Style = yaml.Style(s)
 
+			spellOutNulls(s, nv)
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(s)
@@ -87,6 +88,21 @@ func setStyle(s Style, n ...*yaml.Node) {
 	}
 }
 
+// spellOutNulls gives nulls written as nothing a text where the encoder would write an empty string for them,
+// which are flow collections and the keys of mappings.
+func spellOutNulls(s Style, n *yaml.Node) {
+	if s&(DoubleQuotedStyle|SingleQuotedStyle|LiteralStyle|FoldedStyle) != 0 {
+		return
+	}
+
+	for i, c := range n.Content {
+		isKey := n.Kind == yaml.MappingNode && i%2 == 0
+		if c.Kind == yaml.ScalarNode && c.Value == "" && c.ShortTag() == "!!null" && (isKey || s&FlowStyle != 0) {
+			c.Value = "null"
+		}
+	}
+}
+
 // needsQuotes determines if the encoder would write the scalar in a form that is read back differently
 // when it is left unquoted.
 func needsQuotes(s Style, n *yaml.Node) bool {
-- 
2.43.0


From dc0cb2da307918ebd19d8d1050f0d288e384fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 29/48] fix: keep comments behind keys valid in tagged and flow
 style

---
 internal/actions/style.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 80d3046..be83434 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -77,6 +77,7 @@ func setStyle(s Style, n ...*yaml.Node) {
 			nv.Style = yaml.Style(s)
 
 			spellOutNulls(s, nv)
+			liftComments(s, nv)
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(s)
@@ -103,6 +104,24 @@ func spellOutNulls(s Style, n *yaml.Node) {
 	}
 }
 
+// liftComments moves comments between the key and the value of a mapping above the key where the encoder would
+// otherwise separate the value, or its tag, from the key.
+func liftComments(s Style, n *yaml.Node) {
+	if n.Kind != yaml.MappingNode || s&(TaggedStyle|FlowStyle) == 0 {
+		return
+	}
+
+	for i := 0; i < len(n.Content)-1; i += 2 {
+		k, v := n.Content[i], n.Content[i+1]
+		if k.LineComment == "" || v.Kind == yaml.ScalarNode || v.Kind == yaml.AliasNode {
+			continue
+		}
+
+		k.HeadComment = strings.TrimPrefix(k.HeadComment+"\n"+k.LineComment, "\n")
+		k.LineComment = ""
+	}
+}
+
 // needsQuotes determines if the encoder would write the scalar in a form that is read back differently
 // when it is left unquoted.
 func needsQuotes(s Style, n *yaml.Node) bool {
-- 
2.43.0


From a53bde0042262f8aa7e6d90f2fae1cdf12bd31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 30/48] fix: take values files as data when merging them

---
 internal/instructions/values.go | 68 ++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index 44d2dd1..f479609 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -6,17 +6,14 @@ package instructions
 import (
 	"fmt"
 
-	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
 	"gopkg.in/yaml.v3"
 )
 
 func getValues(fileNames []string) (interface{}, error) {
 	var values interface{}
 
-	yamlValues := make([]*yaml.Node, len(fileNames))
-
 	for i, v := range fileNames {
-		var yamlValue yaml.Node
+		var yamlValue interface{}
 
 		reader, err := ReadStream(v)
 		if err != nil {
@@ -29,23 +26,66 @@ func getValues(fileNames []string) (interface{}, error) {
 			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
 		}
 
-		yamlValues[i] = &yamlValue
+		if i == 0 {
+			values = yamlValue
+		} else {
+			values = mergeValues(values, yamlValue)
+		}
 	}
 
-	if len(yamlValues) != 0 {
-		if err := actions.MergeNode(yamlValues...); err != nil {
-			return nil, fmt.Errorf("failed to merge yaml values: %w", err)
+	return values, nil
+}
+
+// mergeValues merges n over o. Values are data, other than those of overlays they have no format markers.
+func mergeValues(o, n interface{}) interface{} {
+	switch nv := n.(type) {
+	case map[string]interface{}:
+		if ov, ok := o.(map[string]interface{}); ok {
+			for k, v := range nv {
+				if old, found := ov[k]; found {
+					v = mergeValues(old, v)
+				}
+
+				ov[k] = v
+			}
+
+			return ov
 		}
 
-		b, err := yaml.Marshal(yamlValues[0])
-		if err != nil {
-			return nil, fmt.Errorf("failed to marshal yaml values: %w", err)
+		if ov, ok := o.(map[interface{}]interface{}); ok {
+			return mergeValues(ov, anyKeys(nv))
+		}
+	case map[interface{}]interface{}:
+		if ov, ok := o.(map[string]interface{}); ok {
+			o = anyKeys(ov)
 		}
 
-		if err := yaml.Unmarshal(b, &values); err != nil {
-			return nil, fmt.Errorf("failed to unmarshal yaml values: %w", err)
+		if ov, ok := o.(map[interface{}]interface{}); ok {
+			for k, v := range nv {
+				if old, found := ov[k]; found {
+					v = mergeValues(old, v)
+				}
+
+				ov[k] = v
+			}
+
+			return ov
+		}
+	case []interface{}:
+		if ov, ok := o.([]interface{}); ok {
+			return append(ov, nv...)
 		}
 	}
 
-	return values, nil
+	return n
+}
+
+func anyKeys(m map[string]interface{}) map[interface{}]interface{} {
+	r := make(map[interface{}]interface{}, len(m))
+
+	for k, v := range m {
+		r[k] = v
+	}
+
+	return r
 }
-- 
2.43.0


From 7026757676bd40b7d3792c6ee2ea17f0fffd7892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 31/48] fix: take queries from the command line literally

---
 internal/overlays/query.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index 9928230..a934fb7 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -101,8 +101,10 @@ func (mq *Queries) Find(node *yaml.Node) []*yaml.Node {
 
 func (mq *Queries) Set(val string) error {
 	var q Query
-	if err := yaml.Unmarshal([]byte(val), &q); err != nil {
-		return fmt.Errorf("%w", err)
+
+	// a query from the command line is no YAML, which would give '[', '*', ': ' and ' #' another meaning
+	if err := q.UnmarshalYAML(&yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: val}); err != nil {
+		return err
 	}
 
 	*mq = append(*mq, q)
-- 
2.43.0


From 685a5dc9c03850185d2703ebab46afb4532d33c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 32/48] fix: resolve aliases in values from the command line

---
 internal/instructions/config.go |  6 +-----
 internal/overlays/overlay.go    | 13 +++++++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index d307712..8156da6 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -179,14 +179,10 @@ func (cfg *Config) ReadAdHocPaths(i *Instructions) error {
 
 func (cfg *Config) ReadAdHocOverlays(i *Instructions) error {
 	if cfg.Overlay.Query != nil {
-		if err := yaml.Unmarshal([]byte(cfg.Value), &cfg.Overlay.Value); err != nil {
+		if err := cfg.Overlay.SetValue(cfg.Value); err != nil {
 			return fmt.Errorf("unable to read overlay value from flag, %w", err)
 		}
 
-		if cfg.Overlay.Value.Kind == yaml.DocumentNode && cfg.Overlay.Value.Content != nil {
-			cfg.Overlay.Value = *cfg.Overlay.Value.Content[0]
-		}
-
 		i.CommonOverlays = append(i.CommonOverlays, &cfg.Overlay)
 	}
 
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index dbcaa8e..0e4d217 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -110,6 +110,19 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 	return nil
 }
 
+// SetValue reads the value of an overlay given on the command line.
+func (o *Overlay) SetValue(val string) error {
+	if err := yaml.Unmarshal([]byte(val), &o.Value); err != nil {
+		return fmt.Errorf("%w", err)
+	}
+
+	if o.Value.Kind == yaml.DocumentNode && o.Value.Content != nil {
+		o.Value = *o.Value.Content[0]
+	}
+
+	return resolveAliases(&o.Value)
+}
+
 // resolveAliases replaces the aliases below n by copies of what they stand for, the anchors
 // of an instructions file do not exist in the documents its values end up in.
 func resolveAliases(n *yaml.Node, within ...*yaml.Node) error {
-- 
2.43.0


From fefa5275e9943ffc699b4f53586bfa1c4660a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 33/48] fix: aliases whose anchored node was deleted, replaced
 or overwritten keep a definition

---
 internal/actions/aliases.go     | 57 +++++++++++++++++++++++++++++++++
 internal/actions/replace.go     |  2 ++
 internal/instructions/config.go |  2 ++
 3 files changed, 61 insertions(+)
 create mode 100644 internal/actions/aliases.go

diff --git a/internal/actions/aliases.go b/internal/actions/aliases.go
new file mode 100644
index 0000000..9386766
--- /dev/null
+++ b/internal/actions/aliases.go
@@ -0,0 +1,57 @@
+// Copyright 2021 VMware, Inc.
+// SPDX-License-Identifier: MIT
+
+package actions
+
+import "gopkg.in/yaml.v3"
+
+// RestoreAliases makes the aliases of a document stand for what they stood for when it was read, also where
+// the node that carried the anchor has been deleted or overwritten, or the name of the anchor is in use again.
+func RestoreAliases(doc *yaml.Node) {
+	restoreAliases(doc, make(map[*yaml.Node]bool), make(map[string]*yaml.Node))
+}
+
+// restoreAliases visits the nodes in the order they are written in, seen has the nodes visited
+// and anchors what the names of the anchors stand for at this point.
+func restoreAliases(n *yaml.Node, seen map[*yaml.Node]bool, anchors map[string]*yaml.Node, within ...*yaml.Node) {
+	seen[n] = true
+
+	if n.Anchor != "" {
+		anchors[n.Anchor] = n
+	}
+
+	for i, c := range n.Content {
+		if c.Kind != yaml.AliasNode || c.Alias == nil || anchors[c.Value] == c.Alias {
+			restoreAliases(c, seen, anchors, within...)
+
+			continue
+		}
+
+		target := c.Alias
+
+		if !seen[target] {
+			// the first alias left takes over the anchor
+			target.HeadComment, target.LineComment, target.FootComment = c.HeadComment, c.LineComment, c.FootComment
+			n.Content[i] = target
+
+			restoreAliases(target, seen, anchors, within...)
+
+			continue
+		}
+
+		if !contains(within, target) {
+			expandAlias(c)
+			restoreAliases(c, seen, anchors, append(within[:len(within):len(within)], target)...)
+		}
+	}
+}
+
+func contains(nodes []*yaml.Node, node *yaml.Node) bool {
+	for _, n := range nodes {
+		if n == node {
+			return true
+		}
+	}
+
+	return false
+}
diff --git a/internal/actions/replace.go b/internal/actions/replace.go
index 61df805..4917321 100644
--- a/internal/actions/replace.go
+++ b/internal/actions/replace.go
@@ -21,6 +21,8 @@ func ReplaceNode(original, replace *yaml.Node) error {
 	original.HeadComment = ov.HeadComment
 	original.LineComment = ov.LineComment
 	original.FootComment = ov.FootComment
+	// aliases of the original stand for its new value
+	original.Anchor = ov.Anchor
 
 	return nil
 }
diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 8156da6..a277d9d 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -135,6 +135,8 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 			output.WriteString("---\n")
 		}
 
+		actions.RestoreAliases(node)
+
 		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
 		actions.SetStyle(style, node)
 
-- 
2.43.0


From 1f58d724759e681646ff4f74922c39e55b650af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 34/48] fix: aliases count as the scalars they stand for in
 combine, in keys and for format markers

---
 internal/actions/combine.go |  2 ++
 internal/actions/merge.go   | 16 +++++++++++++---
 internal/actions/replace.go |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 2a125a5..8d8a8c0 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -19,6 +19,8 @@ var ErrCombineOnlyForScalars = errors.New("combine action can only be used on sc
 var ErrCombineUnsupportedType = errors.New("combine action can only be used on booleans, integers and strings")
 
 func CombineNode(originalValue, newValue *yaml.Node) error {
+	expandAlias(originalValue)
+
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
 	}
diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index ef53abf..8acc00d 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -83,15 +83,15 @@ func mergeMap(o, n *yaml.Node) error {
 			var foundMarker bool
 
 			if foundMarker = checkForMarkers(n.Content[ni].Value); !foundMarker {
-				if o.Content[oi].Value != n.Content[ni].Value {
+				if textOf(o.Content[oi]) != n.Content[ni].Value {
 					continue
 				}
 			}
 
 			resultFound = true
 
-			keyName := o.Content[oi].Value
-			value := o.Content[oi+1].Value
+			keyName := textOf(o.Content[oi])
+			value := textOf(o.Content[oi+1])
 
 			mergeComments(o.Content[oi], n.Content[ni], value, keyName)
 
@@ -103,6 +103,7 @@ func mergeMap(o, n *yaml.Node) error {
 				break
 			}
 
+			expandAlias(o.Content[oi])
 			mergeScalar(o.Content[oi], n.Content[ni], value, keyName)
 
 			if o.Content[oi].Value != keyName {
@@ -217,6 +218,15 @@ func expandAlias(o *yaml.Node) {
 	*o = *c
 }
 
+// textOf returns the value of a scalar, or of the scalar an alias stands for.
+func textOf(n *yaml.Node) string {
+	if n.Kind == yaml.AliasNode && n.Alias != nil {
+		return n.Alias.Value
+	}
+
+	return n.Value
+}
+
 func copyWithoutAnchors(n *yaml.Node) *yaml.Node {
 	c := *n
 	c.Anchor = ""
diff --git a/internal/actions/replace.go b/internal/actions/replace.go
index 4917321..2f11594 100644
--- a/internal/actions/replace.go
+++ b/internal/actions/replace.go
@@ -17,7 +17,7 @@ func ReplaceNode(original, replace *yaml.Node) error {
 		return fmt.Errorf("failed to replace value: %w", err)
 	}
 
-	mergeComments(&ov, original)
+	mergeComments(&ov, original, textOf(&ov), "")
 	original.HeadComment = ov.HeadComment
 	original.LineComment = ov.LineComment
 	original.FootComment = ov.FootComment
-- 
2.43.0


From 09160dabe3294e17cc86154698d1ea02c97c00d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 35/48] fix: document queries compare anchored values and
 aliases by their data

---
 internal/overlays/documentquery.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 9609f86..04fdc04 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -41,8 +41,6 @@ func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 }
 
 func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
-	compareOptions := cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style")
-
 	if dq.Conditions == nil {
 		return true
 	}
@@ -55,7 +53,7 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 		if !c.Value.IsZero() {
 			for _, result := range results {
-				if ok := cmp.Equal(*result, c.Value, compareOptions); !ok {
+				if ok := equal(*result, c.Value); !ok {
 					return false
 				}
 			}
@@ -64,3 +62,18 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 	return true
 }
+
+// equal determines if two nodes are the same data, however they are written.
+func equal(x, y yaml.Node) bool {
+	compareOptions := cmp.Options{
+		cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style"),
+		cmpopts.EquateEmpty(),
+	}
+
+	// an alias is the same as what it stands for
+	if resolveAliases(&x) != nil || resolveAliases(&y) != nil {
+		return false
+	}
+
+	return cmp.Equal(x, y, compareOptions)
+}
-- 
2.43.0


From 53f38238b19f87508b8cc17083133ad6a7a671d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 36/48] fix: do not crash on empty entries in the lists of an
 instructions file

---
 internal/instructions/yamlfile.go  | 9 +++++++++
 internal/overlays/documentquery.go | 7 ++++++-
 internal/overlays/overlay.go       | 2 +-
 internal/overlays/workstream.go    | 5 +++++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index ee2a3b3..3f78542 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -46,6 +46,10 @@ func (yf *YamlFile) queueOverlays(stream *overlays.WorkStream) {
 		}
 
 		for _, d := range yf.Documents {
+			if d == nil {
+				continue
+			}
+
 			if ok := d.checkDocumentIndex(nodeIndex); ok {
 				for _, o := range d.Overlays {
 					stream.AddWorkload(o, n, nodeIndex, yf.Path)
@@ -119,6 +123,11 @@ func (yfs *YamlFiles) expandDirectories() error {
 	var paths []string
 
 	for i := range y {
+		// an empty entry of a list is decoded as nil
+		if y[i] == nil {
+			continue
+		}
+
 		if y[i].Path == "-" {
 			expanded = append(expanded, y[i])
 
diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 04fdc04..ace1f0f 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -41,11 +41,16 @@ func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 }
 
 func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
-	if dq.Conditions == nil {
+	// an empty entry of a list is decoded as nil
+	if dq == nil || dq.Conditions == nil {
 		return true
 	}
 
 	for _, c := range dq.Conditions {
+		if c == nil {
+			return false
+		}
+
 		results := c.Query.Find(node)
 		if results == nil {
 			return false
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index 0e4d217..f45bfef 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -51,7 +51,7 @@ func (o *Overlay) Apply(n *yaml.Node) error {
 }
 
 func (o *Overlay) CheckDocumentIndex(current int) bool {
-	if o.DocumentIndex != nil {
+	if o != nil && o.DocumentIndex != nil {
 		for _, i := range o.DocumentIndex {
 			if current == i {
 				return true
diff --git a/internal/overlays/workstream.go b/internal/overlays/workstream.go
index 2624fdd..58acb97 100644
--- a/internal/overlays/workstream.go
+++ b/internal/overlays/workstream.go
@@ -29,6 +29,11 @@ func (s *WorkStream) StartStream() {
 }
 
 func (s *WorkStream) AddWorkload(o *Overlay, n *yaml.Node, nodeIndex int, path string) {
+	// an empty entry of a list is decoded as nil
+	if o == nil {
+		return
+	}
+
 	s.stream <- &workload{
 		Overlay:   o,
 		Node:      n,
-- 
2.43.0


From 0d2bf8087fb360fdc8485a5da5b081bf79206c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 37/48] fix: write comments between a key and an empty, tagged
 or anchored collection as valid YAML

---
 internal/actions/style.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index be83434..d97aa88 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -105,23 +105,43 @@ func spellOutNulls(s Style, n *yaml.Node) {
 }
 
 // liftComments moves comments between the key and the value of a mapping above the key where the encoder would
-// otherwise separate the value, or its tag, from the key.
+// otherwise separate the value, or its tag or anchor, from the key, or would write the comment behind another key.
 func liftComments(s Style, n *yaml.Node) {
-	if n.Kind != yaml.MappingNode || s&(TaggedStyle|FlowStyle) == 0 {
+	if n.Kind != yaml.MappingNode {
 		return
 	}
 
 	for i := 0; i < len(n.Content)-1; i += 2 {
 		k, v := n.Content[i], n.Content[i+1]
-		if k.LineComment == "" || v.Kind == yaml.ScalarNode || v.Kind == yaml.AliasNode {
+		if k.LineComment == "" {
 			continue
 		}
 
+		switch v.Kind {
+		case yaml.AliasNode:
+		case yaml.ScalarNode:
+			// there is room for one comment only
+			if v.LineComment == "" {
+				continue
+			}
+		default:
+			if s&(TaggedStyle|FlowStyle) == 0 && len(v.Content) > 0 && v.Anchor == "" && !hasOwnTag(v) {
+				continue
+			}
+		}
+
 		k.HeadComment = strings.TrimPrefix(k.HeadComment+"\n"+k.LineComment, "\n")
 		k.LineComment = ""
 	}
 }
 
+// hasOwnTag determines if the tag of a collection is always written.
+func hasOwnTag(n *yaml.Node) bool {
+	tag := n.ShortTag()
+
+	return tag != "!!map" && tag != "!!seq"
+}
+
 // needsQuotes determines if the encoder would write the scalar in a form that is read back differently
 // when it is left unquoted.
 func needsQuotes(s Style, n *yaml.Node) bool {
-- 
2.43.0


From a64fc57a835d74e743e9449137f376d0256fddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 38/48] fix: keep the comment of a flow collection on its entry
 when it is written as a block

---
 internal/actions/style.go | 40 ++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index d97aa88..4c1e702 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -104,16 +104,29 @@ func spellOutNulls(s Style, n *yaml.Node) {
 	}
 }
 
-// liftComments moves comments between the key and the value of a mapping above the key where the encoder would
-// otherwise separate the value, or its tag or anchor, from the key, or would write the comment behind another key.
+// liftComments moves comments between the key and the value of a mapping, and comments behind a flow collection that
+// becomes a block, above the entry or next to its key where the encoder would otherwise separate the value, or its tag
+// or anchor, from the key, or would write the comment behind another entry.
 func liftComments(s Style, n *yaml.Node) {
-	if n.Kind != yaml.MappingNode {
-		return
+	step := 1
+	if n.Kind == yaml.MappingNode {
+		step = 2
 	}
 
-	for i := 0; i < len(n.Content)-1; i += 2 {
-		k, v := n.Content[i], n.Content[i+1]
-		if k.LineComment == "" {
+	for i := 0; i+step <= len(n.Content); i += step {
+		k, v := n.Content[i], n.Content[i+step-1]
+
+		if isBlock(s, v) && v.LineComment != "" {
+			if k != v && k.LineComment == "" {
+				k.LineComment = v.LineComment
+			} else {
+				addHeadComment(k, v.LineComment)
+			}
+
+			v.LineComment = ""
+		}
+
+		if n.Kind != yaml.MappingNode || k.LineComment == "" {
 			continue
 		}
 
@@ -125,16 +138,25 @@ func liftComments(s Style, n *yaml.Node) {
 				continue
 			}
 		default:
-			if s&(TaggedStyle|FlowStyle) == 0 && len(v.Content) > 0 && v.Anchor == "" && !hasOwnTag(v) {
+			if isBlock(s, v) && s&TaggedStyle == 0 && v.Anchor == "" && !hasOwnTag(v) {
 				continue
 			}
 		}
 
-		k.HeadComment = strings.TrimPrefix(k.HeadComment+"\n"+k.LineComment, "\n")
+		addHeadComment(k, k.LineComment)
 		k.LineComment = ""
 	}
 }
 
+func addHeadComment(n *yaml.Node, comment string) {
+	n.HeadComment = strings.TrimPrefix(n.HeadComment+"\n"+comment, "\n")
+}
+
+// isBlock determines if the node is a collection that is written on lines of its own.
+func isBlock(s Style, n *yaml.Node) bool {
+	return (n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode) && len(n.Content) > 0 && s&FlowStyle == 0
+}
+
 // hasOwnTag determines if the tag of a collection is always written.
 func hasOwnTag(n *yaml.Node) bool {
 	tag := n.ShortTag()
-- 
2.43.0


From fe229854557c2f4c44d56430d95ca1bf2d8c0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 39/48] fix: do not write comments of two lines behind a block
 scalar, where the second becomes data

---
 internal/actions/style.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 4c1e702..7cba671 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -126,6 +126,12 @@ func liftComments(s Style, n *yaml.Node) {
 			v.LineComment = ""
 		}
 
+		if last := strings.LastIndexByte(v.LineComment, '\n'); v.Kind == yaml.ScalarNode && last >= 0 {
+			// the comment behind a parent's anchor; a block scalar would take in all but the first line
+			addHeadComment(k, v.LineComment[:last])
+			v.LineComment = v.LineComment[last+1:]
+		}
+
 		if n.Kind != yaml.MappingNode || k.LineComment == "" {
 			continue
 		}
-- 
2.43.0


From 868097975f7b17017c9a3a205269fb6747f4df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:37 +0000
Subject: [PATCH 40/48] fix: keep the line breaks at the end of a document's
 last text when a comment follows

yaml.v3 writes an empty line above the comment at the end of a document. Behind a block scalar that keeps its
trailing line breaks this line became a part of the text.
---
 internal/actions/style.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 7cba671..6852a51 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -79,6 +79,7 @@ func setStyle(s Style, n ...*yaml.Node) {
 			spellOutNulls(s, nv)
 			liftComments(s, nv)
 			setStyle(s, nv.Content...)
+			quoteLastBreaks(nv)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(s)
 
@@ -89,6 +90,22 @@ func setStyle(s Style, n ...*yaml.Node) {
 	}
 }
 
+// quoteLastBreaks quotes the last text of a document that is followed by a comment, when the empty line the encoder
+// writes above the comment would be read as one more line break of the text.
+func quoteLastBreaks(n *yaml.Node) {
+	if n.Kind != yaml.DocumentNode || n.FootComment == "" {
+		return
+	}
+
+	for len(n.Content) > 0 {
+		n = n.Content[len(n.Content)-1]
+	}
+
+	if n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) == 0 && strings.HasSuffix(n.Value, "\n\n") {
+		n.Style = n.Style&^(yaml.LiteralStyle|yaml.FoldedStyle) | yaml.DoubleQuotedStyle
+	}
+}
+
 // spellOutNulls gives nulls written as nothing a text where the encoder would write an empty string for them,
 // which are flow collections and the keys of mappings.
 func spellOutNulls(s Style, n *yaml.Node) {
-- 
2.43.0


From f59982d0e142aa92666f6a3d91f32989e1f69d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:53 +0000
Subject: [PATCH 41/48] fix: expand the markers of a comment above a marker key
 once, not twice

---
 internal/actions/merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 8acc00d..c66617f 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -93,7 +93,9 @@ func mergeMap(o, n *yaml.Node) error {
 			keyName := textOf(o.Content[oi])
 			value := textOf(o.Content[oi+1])
 
-			mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			if !foundMarker {
+				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			}
 
 			if err := merge(o.Content[oi+1], n.Content[ni+1], keyName); err != nil {
 				return err
-- 
2.43.0


From c4330af9b6ffe8a71207f62f12f5f03acb44d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:16 +0000
Subject: [PATCH 42/48] fix: do not take marker texts in the keys of injected
 paths for format markers

---
 internal/actions/merge.go      | 49 +++++++++++++++++++++++++++++++---
 internal/builder/path.go       |  6 +++--
 internal/overlays/onmissing.go |  2 +-
 3 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index c66617f..b617bb5 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -35,6 +35,50 @@ func MergeNode(nodes ...*yaml.Node) error {
 	return nil
 }
 
+// ScaffoldNode makes room for the paths of n in o. Unlike those of an overlay, the keys of a path are mere names, and
+// nothing in them is a format marker.
+func ScaffoldNode(o, n *yaml.Node) error {
+	expandAlias(o)
+
+	switch {
+	case o.Kind == yaml.DocumentNode && n.Kind == yaml.DocumentNode:
+		if len(o.Content) == 0 || len(n.Content) == 0 {
+			return nil
+		}
+
+		return ScaffoldNode(o.Content[0], n.Content[0])
+	case n.Kind != yaml.MappingNode:
+		return merge(o, n)
+	case o.Kind != yaml.MappingNode:
+		makeMap(o)
+	}
+
+	for ni := 0; ni < len(n.Content)-1; ni += 2 {
+		found := false
+
+		for oi := 0; oi < len(o.Content)-1 && !found; oi += 2 {
+			if found = textOf(o.Content[oi]) == n.Content[ni].Value; found {
+				if err := ScaffoldNode(o.Content[oi+1], n.Content[ni+1]); err != nil {
+					return err
+				}
+			}
+		}
+
+		if !found {
+			o.Content = append(o.Content, n.Content[ni:ni+2]...)
+		}
+	}
+
+	return nil
+}
+
+func makeMap(o *yaml.Node) {
+	o.Kind = yaml.MappingNode
+	o.Tag = "!!map"
+	o.Value = ""
+	o.Content = []*yaml.Node{}
+}
+
 func merge(o, n *yaml.Node, keyName ...string) error {
 	expandAlias(o)
 
@@ -73,10 +117,7 @@ func mergeMap(o, n *yaml.Node) error {
 		resultFound := false
 
 		if o.Kind != yaml.MappingNode {
-			o.Kind = yaml.MappingNode
-			o.Tag = "!!map"
-			o.Value = ""
-			o.Content = []*yaml.Node{}
+			makeMap(o)
 		}
 
 		for oi := 0; oi < len(o.Content)-1; oi += 2 {
diff --git a/internal/builder/path.go b/internal/builder/path.go
index be88503..577b337 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -133,8 +133,10 @@ func (paths *Paths) BuildPaths() (*yaml.Node, error) {
 		yamlNodes[i] = yamlNode
 	}
 
-	if err := actions.MergeNode(yamlNodes...); err != nil {
-		return nil, fmt.Errorf("%w", err)
+	for _, n := range yamlNodes[1:] {
+		if err := actions.ScaffoldNode(yamlNodes[0], n); err != nil {
+			return nil, fmt.Errorf("%w", err)
+		}
 	}
 
 	return yamlNodes[0], nil
diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index e037264..7c6263b 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -68,7 +68,7 @@ func (o *Overlay) doInjectPath(ip Queries, node *yaml.Node) error {
 		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
 	}
 
-	err = actions.MergeNode(node, y)
+	err = actions.ScaffoldNode(node, y)
 	if err != nil {
 		return fmt.Errorf("failed to merge injectpath scaffolding %s with document, %w", ip, err)
 	}
-- 
2.43.0


From 19c2715b367489429030e94b9f760de176f7191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:18 +0000
Subject: [PATCH 43/48] fix: let document queries recognize the mappings an
 injection has created

---
 internal/builder/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index 577b337..16914c7 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -180,7 +180,7 @@ func childThen(l *lexer, childName string) (*Path, error) {
 		return &yaml.Node{
 			Kind:   yaml.MappingNode,
 			Style:  0,
-			Tag:    "",
+			Tag:    "!!map",
 			Value:  "",
 			Anchor: "",
 			Alias:  nil,
@@ -291,7 +291,7 @@ func bracketChildThen(l *lexer, childNames string) (*Path, error) {
 		node := &yaml.Node{
 			Kind:        yaml.MappingNode,
 			Style:       0,
-			Tag:         "",
+			Tag:         "!!map",
 			Value:       "",
 			Anchor:      "",
 			Alias:       nil,
-- 
2.43.0


From aa8be8ad7aece1d4bf8fc025cf35f906decb5190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:29 +0000
Subject: [PATCH 44/48] fix: refuse an unknown onMissing action instead of
 taking it for the default

---
 internal/actions/action.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/actions/action.go b/internal/actions/action.go
index e2b6144..0d579f1 100644
--- a/internal/actions/action.go
+++ b/internal/actions/action.go
@@ -17,6 +17,9 @@ var log = logging.MustGetLogger("overlays") //nolint:gochecknoglobals
 // ErrInvalidAction occurs when user passes a action that is not one of merge, replace, delete, combine.
 var ErrInvalidAction = errors.New("invalid overlay action")
 
+// ErrInvalidOnMissingAction occurs when user passes an onMissing action that is not one of default, ignore, inject.
+var ErrInvalidOnMissingAction = errors.New("invalid onMissing action")
+
 type Action int
 
 const (
@@ -120,6 +123,11 @@ func (a *OnMissingAction) UnmarshalYAML(value *yaml.Node) error {
 		"default": Default,
 		"ignore":  Ignore,
 		"inject":  Inject,
+		"":        Default,
+	}
+
+	if _, ok := toID[y]; !ok {
+		return fmt.Errorf("%w, %s", ErrInvalidOnMissingAction, y)
 	}
 
 	*a = toID[y]
-- 
2.43.0


From 1bd77c8b13fb2d6d04d556d620a40b25647d30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:07 +0000
Subject: [PATCH 45/48] fix: keep comments below block collections in lists out
 of the next item

---
 internal/actions/style.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 6852a51..95ec428 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -123,7 +123,8 @@ func spellOutNulls(s Style, n *yaml.Node) {
 
 // liftComments moves comments between the key and the value of a mapping, and comments behind a flow collection that
 // becomes a block, above the entry or next to its key where the encoder would otherwise separate the value, or its tag
-// or anchor, from the key, or would write the comment behind another entry.
+// or anchor, from the key, or would write the comment behind another entry.  Comments below a block, which the encoder
+// would write into the next item, go below the last entry of the block.
 func liftComments(s Style, n *yaml.Node) {
 	step := 1
 	if n.Kind == yaml.MappingNode {
@@ -143,6 +144,16 @@ func liftComments(s Style, n *yaml.Node) {
 			v.LineComment = ""
 		}
 
+		if isBlock(s, v) && v.FootComment != "" {
+			last := v.Content[len(v.Content)-1]
+			if v.Kind == yaml.MappingNode {
+				last = v.Content[len(v.Content)-2]
+			}
+
+			addFootComment(last, v.FootComment)
+			v.FootComment = ""
+		}
+
 		if last := strings.LastIndexByte(v.LineComment, '\n'); v.Kind == yaml.ScalarNode && last >= 0 {
 			// the comment behind a parent's anchor; a block scalar would take in all but the first line
 			addHeadComment(k, v.LineComment[:last])
@@ -175,6 +186,10 @@ func addHeadComment(n *yaml.Node, comment string) {
 	n.HeadComment = strings.TrimPrefix(n.HeadComment+"\n"+comment, "\n")
 }
 
+func addFootComment(n *yaml.Node, comment string) {
+	n.FootComment = strings.TrimPrefix(n.FootComment+"\n"+comment, "\n")
+}
+
 // isBlock determines if the node is a collection that is written on lines of its own.
 func isBlock(s Style, n *yaml.Node) bool {
 	return (n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode) && len(n.Content) > 0 && s&FlowStyle == 0
-- 
2.43.0


From d9c87171f4e1847e1d44e79532032b3e491faa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 46/48] fix: compare nulls in document queries however they are
 written

---
 internal/overlays/documentquery.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index ace1f0f..81f7956 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -73,6 +73,8 @@ func equal(x, y yaml.Node) bool {
 	compareOptions := cmp.Options{
 		cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style"),
 		cmpopts.EquateEmpty(),
+		// nothing, ~ and null are the same
+		cmp.FilterValues(func(x, y yaml.Node) bool { return isNull(x) && isNull(y) }, cmp.Ignore()),
 	}
 
 	// an alias is the same as what it stands for
@@ -82,3 +84,7 @@ func equal(x, y yaml.Node) bool {
 
 	return cmp.Equal(x, y, compareOptions)
 }
+
+func isNull(n yaml.Node) bool {
+	return n.Kind == yaml.ScalarNode && n.ShortTag() == "!!null"
+}
-- 
2.43.0


From 171fdd748f36e282061a98f022b25b7a3d726c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:26 +0000
Subject: [PATCH 47/48] fix: compare nested values in document queries in
 linear time

---
 internal/overlays/documentquery.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 81f7956..f7357d4 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -70,19 +70,33 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 // equal determines if two nodes are the same data, however they are written.
 func equal(x, y yaml.Node) bool {
+	// an alias is the same as what it stands for
+	if resolveAliases(&x) != nil || resolveAliases(&y) != nil {
+		return false
+	}
+
+	return equalNodes(x, y)
+}
+
+// equalNodes descends by itself: cmp compares the elements of a slice more than once, at each level of it.
+func equalNodes(x, y yaml.Node) bool {
 	compareOptions := cmp.Options{
-		cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style"),
-		cmpopts.EquateEmpty(),
+		cmpopts.IgnoreFields(yaml.Node{}, "Content", "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style"),
 		// nothing, ~ and null are the same
 		cmp.FilterValues(func(x, y yaml.Node) bool { return isNull(x) && isNull(y) }, cmp.Ignore()),
 	}
 
-	// an alias is the same as what it stands for
-	if resolveAliases(&x) != nil || resolveAliases(&y) != nil {
+	if len(x.Content) != len(y.Content) || !cmp.Equal(x, y, compareOptions) {
 		return false
 	}
 
-	return cmp.Equal(x, y, compareOptions)
+	for i := range x.Content {
+		if !equalNodes(*x.Content[i], *y.Content[i]) {
+			return false
+		}
+	}
+
+	return true
 }
 
 func isNull(n yaml.Node) bool {
-- 
2.43.0


From 45b499f8e20f837f584b9ccac2fec418e990eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:31 +0000
Subject: [PATCH 48/48] fix: inject the comment of a mapping that is merged

---
 internal/actions/merge.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index b617bb5..6d6068c 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -113,6 +113,8 @@ func mergeDocument(o, n *yaml.Node) error {
 }
 
 func mergeMap(o, n *yaml.Node) error {
+	mergeComments(o, n, o.Value)
+
 	for ni := 0; ni < len(n.Content)-1; ni += 2 {
 		resultFound := false
 
-- 
2.43.0

