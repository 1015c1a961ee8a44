From d5718729d110c6eda6eff131ed9b7bf7a5ec8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 01/29] fix: read an input completely and close it before
 evaluating it

Files and network responses were never closed, a script on standard input
was read lazily so that a command prompt inside it took its next byte for a
confirmation, and a read error after the first document of a JSON or YAML
file went unnoticed.
---
 core/util.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/core/util.go b/core/util.go
index 5ab2c5e..bde64d9 100644
--- a/core/util.go
+++ b/core/util.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -306,18 +307,21 @@ func RenderCode(file string, line, after, before int, comments []Comment) (strin
 
 func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error) {
 
-	var reader io.Reader
+	var data []byte
 
 	extension := ".yisp"
 	source := ""
 
 	if path == "-" {
 		var err error
-		reader = os.Stdin
 		source, err = os.Getwd()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
 		}
+		data, err = io.ReadAll(os.Stdin)
+		if err != nil {
+			return nil, fmt.Errorf("failed to read stdin: %v", err)
+		}
 	} else {
 		targetURL, err := url.Parse(path)
 		if err != nil {
@@ -333,7 +337,7 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 		}
 
 		if targetURL.Scheme == "http" || targetURL.Scheme == "https" {
-			reader, err = fetchRemote(targetURL.String())
+			data, err = fetchRemote(targetURL.String())
 			if err != nil {
 				return nil, fmt.Errorf("failed to fetch remote file: %v", err)
 			}
@@ -347,15 +351,18 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 			if stat.IsDir() {
 				targetURL = &url.URL{Path: filepath.Join(targetURL.Path, "index.yisp")}
 			}
-			reader, err = os.Open(targetURL.Path)
+			data, err = os.ReadFile(targetURL.Path)
 			if err != nil {
-				return nil, fmt.Errorf("failed to open file: %v", err)
+				return nil, fmt.Errorf("failed to read file: %v", err)
 			}
 		}
 		extension = filepath.Ext(targetURL.Path)
 		source = targetURL.String()
 	}
 
+	// The input is read completely, and closed, before any of it is used.
+	reader := bytes.NewReader(data)
+
 	switch extension {
 	case ".yisp":
 		return e.Run(reader, env, source)
@@ -364,29 +371,28 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 	case ".json":
 		return ParseJson(source, reader)
 	default:
-		text, err := io.ReadAll(reader)
-		if err != nil {
-			return nil, fmt.Errorf("failed to read txt file: %v", err)
-		}
-
 		return &YispNode{
 			Kind:  KindString,
-			Value: string(text),
+			Value: string(data),
 		}, nil
 	}
 
 }
 
-func fetchRemote(rawURL string) (io.ReadCloser, error) {
+func fetchRemote(rawURL string) ([]byte, error) {
 	resp, err := http.Get(rawURL)
 	if err != nil {
 		return nil, fmt.Errorf("failed to fetch remote file: %v", err)
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
-		resp.Body.Close()
 		return nil, fmt.Errorf("failed to fetch remote file: %s", resp.Status)
 	}
-	return resp.Body, nil
+	body, err := io.ReadAll(resp.Body)
+	if err != nil {
+		return nil, fmt.Errorf("failed to fetch remote file: %v", err)
+	}
+	return body, nil
 }
 
 // isTruthy determines if a value is considered "truthy" in a boolean context
-- 
2.43.0


From 071d1fb51eca22dfb350fbe1bf9d0794a2019109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 02/29] fix: a wildcard fails when a directory cannot be read

include and files.glob treated an unreadable directory as one without
matches and built an output with entries missing.
---
 core/glob.go    | 39 +++++++++++++++++++++++++++++++++++++++
 engine/apply.go |  9 ++-------
 lib/files.go    |  8 ++------
 3 files changed, 43 insertions(+), 13 deletions(-)
 create mode 100644 core/glob.go

diff --git a/core/glob.go b/core/glob.go
new file mode 100644
index 0000000..b972e3a
--- /dev/null
+++ b/core/glob.go
@@ -0,0 +1,39 @@
+package core
+
+import (
+	"errors"
+	"io/fs"
+	"os"
+	"syscall"
+
+	"github.com/bmatcuk/doublestar/v4"
+)
+
+// Glob lists the paths below dir that match pattern. A directory that cannot
+// be read is an error, not a wildcard without matches.
+func Glob(dir, pattern string) ([]string, error) {
+	return doublestar.Glob(globFS{os.DirFS(dir)}, pattern, doublestar.WithFailOnIOErrors())
+}
+
+// globFS reports paths that cannot exist below its root (outside of it, below
+// a file, a symlink loop) as not existing: nothing there can match.
+type globFS struct {
+	fs.FS
+}
+
+func (g globFS) Stat(name string) (fs.FileInfo, error) {
+	info, err := fs.Stat(g.FS, name)
+	return info, noMatch(err)
+}
+
+func (g globFS) ReadDir(name string) ([]fs.DirEntry, error) {
+	entries, err := fs.ReadDir(g.FS, name)
+	return entries, noMatch(err)
+}
+
+func noMatch(err error) error {
+	if errors.Is(err, fs.ErrInvalid) || errors.Is(err, syscall.ENOTDIR) || errors.Is(err, syscall.ELOOP) {
+		return fs.ErrNotExist
+	}
+	return err
+}
diff --git a/engine/apply.go b/engine/apply.go
index 9d76a39..0313410 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -3,12 +3,9 @@ package engine
 import (
 	"encoding/json"
 	"fmt"
-	"os"
 	"path/filepath"
 	"strings"
 
-	"github.com/bmatcuk/doublestar/v4"
-
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/lib"
 )
@@ -342,11 +339,9 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 			entry = after
 		}
 
-		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
-
-		paths, err := doublestar.Glob(dirFs, entry)
+		paths, err := core.Glob(filepath.Dir(node.Attr.File()), entry)
 		if err != nil {
-			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
+			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s (%v)", entry, err))
 		}
 
 		if len(paths) == 0 {
diff --git a/lib/files.go b/lib/files.go
index 00fa479..3d316f3 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -6,8 +6,6 @@ import (
 	"path/filepath"
 	"strings"
 
-	"github.com/bmatcuk/doublestar/v4"
-
 	"github.com/totegamma/yisp/core"
 )
 
@@ -30,11 +28,9 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			entry = after
 		}
 
-		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
-
-		paths, err := doublestar.Glob(dirFs, entry)
+		paths, err := core.Glob(filepath.Dir(node.Attr.File()), entry)
 		if err != nil {
-			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
+			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s (%v)", entry, err))
 		}
 
 		for _, path := range paths {
-- 
2.43.0


From c40343e52428512230e5285bb80fdaa2891a96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 03/29] fix: files.glob reads relative to the script, as it
 matches

The paths were matched below the script's directory and then read relative
to the directory the command was started from.
---
 lib/files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/files.go b/lib/files.go
index 3d316f3..4b20c1f 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -42,7 +42,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			}
 
 			filename := filepath.Base(path)
-			body, err := os.ReadFile(path)
+			body, err := os.ReadFile(includedFile)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to read file: %s", path))
 			}
-- 
2.43.0


From 12f6d2c187ff3df725afacb5fe7a2f72e776f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 04/29] fix: a document that cannot be rendered is an error

Render ignored the encoder's errors and dropped the document.
---
 engine/render.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 91a17fc..248bdc8 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -231,9 +231,13 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 				continue
 			}
 
-			enc.Encode(rendered)
+			if err := enc.Encode(rendered); err != nil {
+				return "", err
+			}
+		}
+		if err := enc.Close(); err != nil {
+			return "", err
 		}
-		enc.Close()
 		return buf.String(), nil
 
 	} else {
@@ -241,7 +245,10 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		if err != nil {
 			return "", err
 		}
-		b, _ := yaml.Marshal(rendered)
+		b, err := yaml.Marshal(rendered)
+		if err != nil {
+			return "", err
+		}
 		return string(b), nil
 	}
 }
-- 
2.43.0


From 66e208ca82d99fb0da55eb8b01020ae1b880167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 05/29] fix: keys of parsed data and interpolated defaults have
 a fixed order

Both were inserted in Go map iteration order, so the same inputs built
different outputs from run to run.
---
 core/parse.go  | 7 +++++--
 core/schema.go | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 5fa819c..d5df350 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"reflect"
+	"slices"
 
 	"gopkg.in/yaml.v3"
 )
@@ -82,8 +84,9 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 			return nil, fmt.Errorf("expected map[string]any, got %T", v)
 		}
 
-		for key, value := range dict {
-			itemNode, err := ParseAny(filename, value)
+		// Go maps have no order; the result must have one.
+		for _, key := range slices.Sorted(maps.Keys(dict)) {
+			itemNode, err := ParseAny(filename, dict[key])
 			if err != nil {
 				return nil, err
 			}
diff --git a/core/schema.go b/core/schema.go
index a4e0f1d..cc89d2d 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -507,7 +508,8 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 		if !ok {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
-		for key, subSchema := range s.Properties {
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+			subSchema := s.Properties[key]
 			item, ok := m.Get(key)
 			if !ok {
 				if slices.Contains(s.Required, key) {
-- 
2.43.0


From dd822e80c60672d891545155c7f2817f9c68bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 06/29] fix: a schema reference that cannot be loaded is an
 error

---
 core/schema.go | 82 +++++++++++++++++++++++---------------------------
 core/util.go   | 21 ++++++++-----
 2 files changed, 51 insertions(+), 52 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index cc89d2d..f78bfb5 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -57,69 +57,47 @@ type Schema struct {
 	K8sPatchMergeKey string `json:"x-kubernetes-patch-merge-key,omitempty"`
 }
 
-func (s *Schema) GetProperties() map[string]*Schema {
-	if s.Properties == nil {
-		return make(map[string]*Schema)
+// resolve follows a reference to another cached schema.
+func (s *Schema) resolve() (*Schema, error) {
+	if s == nil || s.Ref == "" {
+		return s, nil
 	}
-
-	newProperties := make(map[string]*Schema, len(s.Properties))
-	for key, value := range s.Properties {
-		if value.Ref != "" {
-			refSchema, err := LoadSchemaFromID(value.Ref)
-			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", value.Ref, err)
-				continue
-			}
-			newProperties[key] = refSchema
-		} else {
-			newProperties[key] = value
-		}
+	refSchema, err := LoadSchemaFromID(s.Ref)
+	if err != nil {
+		return nil, fmt.Errorf("failed to load schema from ref %s: %w", s.Ref, err)
 	}
+	return refSchema, nil
+}
 
-	return newProperties
+// GetProperty returns the schema of a property, or nil if it has none.
+func (s *Schema) GetProperty(key string) (*Schema, error) {
+	return s.Properties[key].resolve()
 }
 
-func (s *Schema) GetItems() *Schema {
-	if s.Items != nil && s.Items.Ref != "" {
-		refSchema, err := LoadSchemaFromID(s.Items.Ref)
-		if err != nil {
-			fmt.Printf("Error loading schema from ref %s: %v\n", s.Items.Ref, err)
-			return nil
-		}
-		return refSchema
-	}
-	return s.Items
+func (s *Schema) GetItems() (*Schema, error) {
+	return s.Items.resolve()
 }
 
-func (s *Schema) GetAdditionalProperties() any {
+func (s *Schema) GetAdditionalProperties() (any, error) {
 
 	if s.AdditionalProperties == nil {
-		return false
+		return false, nil
 	}
 
 	switch ap := s.AdditionalProperties.(type) {
 	case bool:
-		return ap
+		return ap, nil
 	default:
 		jsonStr, err := json.Marshal(s.AdditionalProperties)
 		if err != nil {
-			return fmt.Sprintf("failed to marshal additionalProperties: %v", err)
+			return nil, fmt.Errorf("failed to marshal additionalProperties: %w", err)
 		}
 		var additionalSchema *Schema
 		err = json.Unmarshal(jsonStr, &additionalSchema)
 		if err != nil {
-			return fmt.Sprintf("failed to unmarshal additionalProperties: %v", err)
-		}
-
-		if additionalSchema.Ref != "" {
-			refSchema, err := LoadSchemaFromID(additionalSchema.Ref)
-			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", additionalSchema.Ref, err)
-			}
-			return refSchema
+			return nil, fmt.Errorf("failed to unmarshal additionalProperties: %w", err)
 		}
-
-		return additionalSchema
+		return additionalSchema.resolve()
 	}
 }
 
@@ -270,6 +248,10 @@ func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
 func (s *Schema) Validate(node *YispNode) error {
 
+	if s == nil { // no schema, no constraint
+		return nil
+	}
+
 	if s.OneOf != nil {
 		var errors []string
 		for _, subSchema := range s.OneOf {
@@ -358,7 +340,10 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("expected array, got %s", node.Kind))
 		}
 		if s.Items != nil {
-			subSchema := s.GetItems()
+			subSchema, err := s.GetItems()
+			if err != nil {
+				return NewEvaluationError(node, err.Error())
+			}
 			arr, ok := node.Value.([]any)
 			if !ok {
 				return NewEvaluationError(node, fmt.Sprintf("expected array, got %T", node.Value))
@@ -384,7 +369,7 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 		processed := make(map[string]bool)
-		for key, subSchema := range s.GetProperties() {
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
 			item, ok := m.Get(key)
 			if !ok {
 				if slices.Contains(s.Required, key) {
@@ -398,6 +383,10 @@ func (s *Schema) Validate(node *YispNode) error {
 				return NewEvaluationError(node, fmt.Sprintf("[object]expected YispNode, got %T", item))
 			}
 
+			subSchema, err := s.GetProperty(key)
+			if err != nil {
+				return NewEvaluationError(node, err.Error())
+			}
 			if err := subSchema.Validate(itemNode); err != nil {
 				return err
 			}
@@ -414,7 +403,10 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 		if left.Len() != 0 {
-			additionalProperties := s.GetAdditionalProperties()
+			additionalProperties, err := s.GetAdditionalProperties()
+			if err != nil {
+				return NewEvaluationError(node, err.Error())
+			}
 
 			switch ap := additionalProperties.(type) {
 			case bool:
diff --git a/core/util.go b/core/util.go
index bde64d9..556ed6e 100644
--- a/core/util.go
+++ b/core/util.go
@@ -94,11 +94,6 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 			}
 		}
 
-		properties := make(map[string]*Schema)
-		if schema != nil {
-			properties = schema.GetProperties()
-		}
-
 		result := NewYispMap()
 		for _, key := range allKeys {
 			dstVal, dstOK := dstMap.Get(key)
@@ -109,7 +104,15 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 				srcNode, srcNodeOK := srcVal.(*YispNode)
 
 				if dstNodeOK && srcNodeOK {
-					mergedNode, err := DeepMergeYispNode(dstNode, srcNode, properties[key])
+					var property *Schema
+					if schema != nil {
+						var err error
+						property, err = schema.GetProperty(key)
+						if err != nil {
+							return nil, err
+						}
+					}
+					mergedNode, err := DeepMergeYispNode(dstNode, srcNode, property)
 					if err != nil {
 						return nil, err
 					}
@@ -138,7 +141,11 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 
 		var subSchema *Schema
 		if schema != nil {
-			subSchema = schema.GetItems()
+			var err error
+			subSchema, err = schema.GetItems()
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		var result []any
-- 
2.43.0


From c4716efd968d4ab4bb351552679cd0f1df5e73c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 07/29] fix: do not print a schema of unknown type to standard
 output

---
 core/schema.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/schema.go b/core/schema.go
index f78bfb5..50524ca 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -459,7 +459,6 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 	default:
-		JsonPrint("schema", s)
 		return NewEvaluationError(node, fmt.Sprintf("unknown type: %s", s.Type))
 	}
 
-- 
2.43.0


From e27a565e3e3d4f7db7aadfc348a7ccd273466e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 08/29] fix: a failed build exits non-zero and reports on
 standard error

---
 cmd/build.go   | 34 +++++++++++++---------------------
 cmd/output.go  | 20 ++++++++++++++++++++
 cmd/version.go | 10 +++++-----
 3 files changed, 38 insertions(+), 26 deletions(-)
 create mode 100644 cmd/output.go

diff --git a/cmd/build.go b/cmd/build.go
index ba80db5..4abf6dd 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -42,9 +42,9 @@ var buildCmd = &cobra.Command{
 			e.SetOption("net.gammalab.yisp.exec.allowed_go_pkgs", allowedGoPkgs)
 		}
 
-		output, err := cmd.Flags().GetString("output")
+		format, err := cmd.Flags().GetString("output")
 		if err != nil {
-			output = "yaml"
+			format = "yaml"
 		}
 
 		yamlFile := args[0]
@@ -56,53 +56,45 @@ var buildCmd = &cobra.Command{
 		if yamlFile != "-" && !strings.HasPrefix(yamlFile, "http://") && !strings.HasPrefix(yamlFile, "https://") {
 			yamlFile, err = filepath.Abs(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail(err)
 			}
 		}
 
-		switch output {
+		switch format {
 		case "yaml":
 			result, err := e.EvaluateFileToYaml(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail(err)
 			}
 
-			fmt.Println(result)
+			output(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail(err)
 			}
 
 			resultArr, ok := resultAny.([]any)
 			if !ok {
-				fmt.Println("Error: Result is not an array")
-				return
+				fail(fmt.Errorf("result is not an array"))
 			}
 
 			if len(resultArr) == 0 {
-				fmt.Println("Error: Result is empty")
-				return
+				fail(fmt.Errorf("result is empty"))
 			}
 
 			if len(resultArr) > 1 {
-				fmt.Printf("Error: Json output only supports a single document, but got %v objects\n", len(resultArr))
-				return
+				fail(fmt.Errorf("json output only supports a single document, but got %v objects", len(resultArr)))
 			}
 
 			jsonResult, err := json.MarshalIndent(resultArr[0], "", "  ")
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail(err)
 			}
 
-			fmt.Println(string(jsonResult))
+			output(string(jsonResult))
 		default:
-			fmt.Println("Error: Unsupported output format. Use 'yaml' or 'json'.")
-			return
+			fail(fmt.Errorf("unsupported output format %q, use 'yaml' or 'json'", format))
 		}
 	},
 }
diff --git a/cmd/output.go b/cmd/output.go
new file mode 100644
index 0000000..30017b3
--- /dev/null
+++ b/cmd/output.go
@@ -0,0 +1,20 @@
+package cmd
+
+import (
+	"fmt"
+	"os"
+)
+
+// fail reports err on standard error and ends the command unsuccessfully.
+func fail(err error) {
+	fmt.Fprintln(os.Stderr, "Error:", err)
+	os.Exit(1)
+}
+
+// output writes a line to standard output, without which the command has failed.
+func output(line string) {
+	_, err := fmt.Println(line)
+	if err != nil {
+		fail(fmt.Errorf("failed to write to standard output: %w", err))
+	}
+}
diff --git a/cmd/version.go b/cmd/version.go
index 06cd3fb..a43f930 100644
--- a/cmd/version.go
+++ b/cmd/version.go
@@ -14,15 +14,15 @@ var versionCmd = &cobra.Command{
 
 		buildInfo, ok := debug.ReadBuildInfo()
 		if !ok {
-			fmt.Println("Build information is not available.")
+			output("Build information is not available.")
 			return
 		}
 
-		fmt.Printf("Version: %s\n", buildInfo.Main.Version)
-		fmt.Printf("Go Version: %s\n", buildInfo.GoVersion)
-		fmt.Printf("Build Settings:\n")
+		output(fmt.Sprintf("Version: %s", buildInfo.Main.Version))
+		output(fmt.Sprintf("Go Version: %s", buildInfo.GoVersion))
+		output("Build Settings:")
 		for _, setting := range buildInfo.Settings {
-			fmt.Printf("  %s: %s\n", setting.Key, setting.Value)
+			output(fmt.Sprintf("  %s: %s", setting.Key, setting.Value))
 		}
 
 	},
-- 
2.43.0


From fbab3682dafd83980ab222b0ef0bbf5f435db18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 09/29] fix: the krm command reports malformed input and failed
 output as errors

---
 cmd/krm.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cmd/krm.go b/cmd/krm.go
index 1a19199..4766381 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -44,13 +44,13 @@ var krmCmd = &cobra.Command{
 
 		inputStr, err := io.ReadAll(os.Stdin)
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
 
 		var krmInput KRMInput
 		err = yaml.Unmarshal(inputStr, &krmInput)
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
 
 		e := engine.NewEngine(engine.Options{
@@ -64,12 +64,16 @@ var krmCmd = &cobra.Command{
 
 		wd, err := os.Getwd()
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
 
 		var items []any
-		for _, item := range krmInput.Items {
-			apiVersion, ok := item.(map[string]any)["apiVersion"]
+		for i, item := range krmInput.Items {
+			object, ok := item.(map[string]any)
+			if !ok {
+				fail(fmt.Errorf("item %d is not an object", i))
+			}
+			apiVersion, ok := object["apiVersion"]
 			if ok && apiVersion == "krm.yisp.gammalab.net/v1" {
 				continue
 			}
@@ -78,7 +82,7 @@ var krmCmd = &cobra.Command{
 
 		itemNodes, err := core.ParseAny(filepath.Join(wd, "items.krm.yaml"), items)
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
 		itemNodes.IsDocumentRoot = true
 
@@ -94,17 +98,16 @@ var krmCmd = &cobra.Command{
 			if target != "-" && !strings.HasPrefix(target, "http://") && !strings.HasPrefix(target, "https://") {
 				target, err = filepath.Abs(target)
 				if err != nil {
-					fmt.Println("Error:", err)
-					return
+					fail(err)
 				}
 			}
 
 			result, err := e.EvaluateFileToYamlWithEnv(target, env)
 			if err != nil {
-				panic(err)
+				fail(err)
 			}
 
-			fmt.Println(result)
+			output(result)
 
 		} else {
 
@@ -114,10 +117,10 @@ var krmCmd = &cobra.Command{
 
 			result, err := e.EvaluateReaderToYamlWithEnv(scriptReader, env, tmp)
 			if err != nil {
-				panic(err)
+				fail(err)
 			}
 
-			fmt.Println(result)
+			output(result)
 		}
 
 	},
-- 
2.43.0


From 58d3fa1903541dae5b7ae424c6e92576454a545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 10/29] fix: a remote schema is fetched only if not cached, and
 cached completely or not at all

---
 core/file.go   | 36 ++++++++++++++++++++++++++++++++++++
 core/schema.go | 11 +++--------
 2 files changed, 39 insertions(+), 8 deletions(-)
 create mode 100644 core/file.go

diff --git a/core/file.go b/core/file.go
new file mode 100644
index 0000000..20b0151
--- /dev/null
+++ b/core/file.go
@@ -0,0 +1,36 @@
+package core
+
+import (
+	"os"
+	"path/filepath"
+)
+
+// ReplaceFile gives path a new content. Whatever happens on the way, the file
+// has its complete old or its complete new content.
+func ReplaceFile(path string, content []byte) (err error) {
+	file, err := os.CreateTemp(filepath.Dir(path), ".tmp-*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(file.Name())
+		}
+	}()
+
+	_, err = file.Write(content)
+	if err == nil {
+		err = file.Chmod(0644)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(file.Name(), path)
+}
diff --git a/core/schema.go b/core/schema.go
index 50524ca..050a64e 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -154,6 +154,8 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 			return nil, err
 		}
 		return &schema, nil
+	} else if !os.IsNotExist(err) {
+		return nil, err
 	} else {
 		resp, err := http.Get(url)
 		if err != nil {
@@ -181,14 +183,7 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 			return nil, err
 		}
 
-		file, err := os.Create(schemasPath)
-		if err != nil {
-			return nil, err
-		}
-		defer file.Close()
-
-		encoder := json.NewEncoder(file)
-		err = encoder.Encode(&schema)
+		err = ReplaceFile(schemasPath, body)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From fa0272294b002204ffdcaa88f9f96cb1193cfb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 11/29] fix: a cache refresh replaces whole entries and reports
 every failure

---
 cmd/cachekubeschemas.go | 75 +++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 41 deletions(-)

diff --git a/cmd/cachekubeschemas.go b/cmd/cachekubeschemas.go
index df903a7..f33fd0f 100644
--- a/cmd/cachekubeschemas.go
+++ b/cmd/cachekubeschemas.go
@@ -5,9 +5,12 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/spf13/cobra"
+	"github.com/totegamma/yisp/core"
+	"maps"
 	"os"
 	"os/exec"
 	"path/filepath"
+	"slices"
 )
 
 type open struct {
@@ -38,7 +41,7 @@ var cacheKubeSchemas = &cobra.Command{
 			fmt.Fprintf(os.Stderr, "Error saving schemas: %v\n", err)
 			os.Exit(1)
 		}
-		fmt.Println("Schemas saved successfully.")
+		output("Schemas saved successfully.")
 	},
 }
 
@@ -73,13 +76,16 @@ func cacheKube() (string, error) {
 
 func saveSchemas(openapi open) error {
 
+	if len(openapi.Definitions) == 0 {
+		return fmt.Errorf("the response has no definitions")
+	}
+
 	cacheDir, _ := rootCmd.PersistentFlags().GetString("cache-dir")
 	if cacheDir == "" {
 
 		home, err := os.UserHomeDir()
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error getting home directory: %v\n", err)
-			os.Exit(1)
+			return fmt.Errorf("failed to get home directory: %w", err)
 		}
 
 		cacheDir = filepath.Join(home, ".cache", "yisp")
@@ -87,86 +93,73 @@ func saveSchemas(openapi open) error {
 
 	schemasPath := filepath.Join(cacheDir, "schemas")
 	if err := os.MkdirAll(schemasPath, 0755); err != nil {
-		fmt.Fprintf(os.Stderr, "Error creating schemas directory: %v\n", err)
-		os.Exit(1)
+		return fmt.Errorf("failed to create schemas directory: %w", err)
 	}
 
 	gvkPath := filepath.Join(cacheDir, "gvk")
 	if err := os.MkdirAll(gvkPath, 0755); err != nil {
-		fmt.Fprintf(os.Stderr, "Error creating GVK directory: %v\n", err)
-		os.Exit(1)
+		return fmt.Errorf("failed to create GVK directory: %w", err)
 	}
 
-	for key, def := range openapi.Definitions {
+	keys := slices.Sorted(maps.Keys(openapi.Definitions))
+
+	// A GVK file refers to a schema, which refers to others: they have to be there first.
+	for _, key := range keys {
 
+		def := openapi.Definitions[key]
+		if def == nil {
+			return fmt.Errorf("definition %s is not an object", key)
+		}
 		def["$id"] = key
 
 		schemaPath := filepath.Join(schemasPath, fmt.Sprintf("%s.json", key))
 
-		file, err := os.Create(schemaPath)
+		schema, err := json.MarshalIndent(def, "", "  ")
 		if err != nil {
-			fmt.Println("Error creating file:", err)
-			continue
+			return fmt.Errorf("failed to encode %s: %w", key, err)
 		}
-		defer file.Close()
-
-		encoder := json.NewEncoder(file)
-		encoder.SetIndent("", "  ")
-		err = encoder.Encode(def)
-		if err != nil {
-			fmt.Println("Error encoding JSON to file:", err)
-			continue
+		if err := core.ReplaceFile(schemaPath, schema); err != nil {
+			return fmt.Errorf("failed to write schema file: %w", err)
 		}
 		fmt.Printf("Created file: %s\n", schemaPath)
+	}
+
+	for _, key := range keys {
 
 		// Extract GVK from the key
-		gvkAny, ok := def["x-kubernetes-group-version-kind"]
+		gvkAny, ok := openapi.Definitions[key]["x-kubernetes-group-version-kind"]
 		if !ok {
 			fmt.Println("No GVK found for key:", key)
 			continue
 		}
 		gvks, ok := gvkAny.([]any)
 		if !ok {
-			fmt.Println("Invalid GVK format for key:", key)
-			continue
+			return fmt.Errorf("invalid GVK format for key: %s", key)
 		}
 
 		for _, gvkAny := range gvks {
 			gvkMap, ok := gvkAny.(map[string]any)
 			if !ok {
-				fmt.Println("Invalid GVK structure for key:", key)
-				continue
+				return fmt.Errorf("invalid GVK structure for key: %s", key)
 			}
 
 			group, ok := gvkMap["group"]
 			if !ok {
-				fmt.Println("No group found in GVK for key:", key)
-				continue
+				return fmt.Errorf("no group found in GVK for key: %s", key)
 			}
 			version, ok := gvkMap["version"]
 			if !ok {
-				fmt.Println("No version found in GVK for key:", key)
-				continue
+				return fmt.Errorf("no version found in GVK for key: %s", key)
 			}
 			kind, ok := gvkMap["kind"]
 			if !ok {
-				fmt.Println("No kind found in GVK for key:", key)
-				continue
+				return fmt.Errorf("no kind found in GVK for key: %s", key)
 			}
 
 			gvkPath := filepath.Join(gvkPath, fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 
-			file, err = os.Create(gvkPath)
-			if err != nil {
-				fmt.Println("Error creating file:", err)
-				continue
-			}
-
-			//write key
-			_, err = file.WriteString(key)
-			if err != nil {
-				fmt.Println("Error writing to file:", err)
-				continue
+			if err := core.ReplaceFile(gvkPath, []byte(key)); err != nil {
+				return fmt.Errorf("failed to write GVK file: %w", err)
 			}
 			fmt.Printf("Created GVK file: %s\n", gvkPath)
 
-- 
2.43.0


From b4b228a4f8130edbcfa68388c9e099970c7aece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 12/29] fix: the config file is replaced as a whole, by one
 command at a time, and never reset

---
 cmd/allow.go        | 21 ++++++++--------
 cmd/config.go       | 59 +++++++++++++++++++++++++++++++++++++++++++++
 cmd/config_other.go | 13 ++++++++++
 cmd/config_unix.go  | 21 ++++++++++++++++
 cmd/root.go         | 22 ++++++++---------
 core/file.go        |  9 +++++--
 6 files changed, 121 insertions(+), 24 deletions(-)
 create mode 100644 cmd/config.go
 create mode 100644 cmd/config_other.go
 create mode 100644 cmd/config_unix.go

diff --git a/cmd/allow.go b/cmd/allow.go
index 4adbeb6..0126938 100644
--- a/cmd/allow.go
+++ b/cmd/allow.go
@@ -13,18 +13,19 @@ var allowCmd = &cobra.Command{
 	Args:  cobra.ExactArgs(1),
 	Run: func(cmd *cobra.Command, args []string) {
 		pkg := args[0]
-		viper.Set(
-			"AllowedGoPkgs",
-			append(
-				viper.GetStringSlice("AllowedGoPkgs"),
-				pkg,
-			),
-		)
-		err := viper.WriteConfig()
+		err := updateConfig(func() {
+			viper.Set(
+				"AllowedGoPkgs",
+				append(
+					viper.GetStringSlice("AllowedGoPkgs"),
+					pkg,
+				),
+			)
+		})
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
-		fmt.Printf("Added %s to allowed go pkgs\n", pkg)
+		output(fmt.Sprintf("Added %s to allowed go pkgs", pkg))
 	},
 }
 
diff --git a/cmd/config.go b/cmd/config.go
new file mode 100644
index 0000000..2898706
--- /dev/null
+++ b/cmd/config.go
@@ -0,0 +1,59 @@
+package cmd
+
+import (
+	"bytes"
+	"errors"
+	"io/fs"
+	"os"
+	"path/filepath"
+
+	"github.com/spf13/viper"
+	"github.com/totegamma/yisp/core"
+)
+
+// updateConfig reads the config file, applies update to it and writes it
+// back, while no other command does the same. When it returns without an
+// error the change is on disk.
+func updateConfig(update func()) error {
+
+	path := viper.ConfigFileUsed()
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
+
+	err := os.MkdirAll(filepath.Dir(path), os.ModePerm)
+	if err != nil {
+		return err
+	}
+
+	dir, err := os.Open(filepath.Dir(path))
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+
+	err = lockFile(dir) // closing it unlocks
+	if err != nil {
+		return err
+	}
+
+	err = viper.ReadInConfig()
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+
+	update()
+
+	var content bytes.Buffer
+	err = viper.WriteConfigTo(&content)
+	if err != nil {
+		return err
+	}
+
+	err = core.ReplaceFile(path, content.Bytes())
+	if err != nil {
+		return err
+	}
+
+	return syncDir(dir)
+}
diff --git a/cmd/config_other.go b/cmd/config_other.go
new file mode 100644
index 0000000..630b5c3
--- /dev/null
+++ b/cmd/config_other.go
@@ -0,0 +1,13 @@
+//go:build !(linux || darwin || freebsd || netbsd || openbsd || dragonfly)
+
+package cmd
+
+import "os"
+
+func lockFile(file *os.File) error {
+	return nil
+}
+
+func syncDir(dir *os.File) error {
+	return nil
+}
diff --git a/cmd/config_unix.go b/cmd/config_unix.go
new file mode 100644
index 0000000..080e4c7
--- /dev/null
+++ b/cmd/config_unix.go
@@ -0,0 +1,21 @@
+//go:build linux || darwin || freebsd || netbsd || openbsd || dragonfly
+
+package cmd
+
+import (
+	"os"
+	"syscall"
+)
+
+func lockFile(file *os.File) error {
+	for {
+		err := syscall.Flock(int(file.Fd()), syscall.LOCK_EX)
+		if err != syscall.EINTR {
+			return err
+		}
+	}
+}
+
+func syncDir(dir *os.File) error {
+	return dir.Sync()
+}
diff --git a/cmd/root.go b/cmd/root.go
index 6c8d24f..15ef490 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,6 +1,9 @@
 package cmd
 
 import (
+	"errors"
+	"fmt"
+	"io/fs"
 	"os"
 	"path/filepath"
 
@@ -33,24 +36,19 @@ func initConfig() {
 	if configPath == "" {
 		home, err := os.UserHomeDir()
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
-		configDir := filepath.Join(home, ".config", "yisp")
-		if _, err := os.Stat(configDir); os.IsNotExist(err) {
-			err := os.MkdirAll(configDir, os.ModePerm)
-			if err != nil {
-				panic(err)
-			}
-		}
-
-		configPath = filepath.Join(configDir, "config.yaml")
+		configPath = filepath.Join(home, ".config", "yisp", "config.yaml")
 	}
 
 	viper.SetConfigFile(configPath)
 
 	err := viper.ReadInConfig()
-	if err != nil {
+	if errors.Is(err, fs.ErrNotExist) {
+		// The command works without the file: failing to create it is not an error.
 		viper.SetDefault("AllowedGoPkgs", []string{})
-		_ = viper.WriteConfig()
+		_ = updateConfig(func() {})
+	} else if err != nil {
+		fail(fmt.Errorf("failed to read config: %w", err))
 	}
 }
diff --git a/core/file.go b/core/file.go
index 20b0151..d5223b5 100644
--- a/core/file.go
+++ b/core/file.go
@@ -6,8 +6,13 @@ import (
 )
 
 // ReplaceFile gives path a new content. Whatever happens on the way, the file
-// has its complete old or its complete new content.
+// has its complete old or its complete new content. It keeps its permissions.
 func ReplaceFile(path string, content []byte) (err error) {
+	mode := os.FileMode(0644)
+	if info, err := os.Stat(path); err == nil {
+		mode = info.Mode().Perm()
+	}
+
 	file, err := os.CreateTemp(filepath.Dir(path), ".tmp-*")
 	if err != nil {
 		return err
@@ -20,7 +25,7 @@ func ReplaceFile(path string, content []byte) (err error) {
 
 	_, err = file.Write(content)
 	if err == nil {
-		err = file.Chmod(0644)
+		err = file.Chmod(mode)
 	}
 	if err == nil {
 		err = file.Sync()
-- 
2.43.0


From 184a4fa7d06ab045ceb23d0c92e4bff94f8a76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 13/29] fix: operators report a wrong number of arguments
 instead of panicking

---
 engine/apply.go | 12 ++++++++++++
 engine/util.go  |  6 ++++++
 lib/files.go    |  6 +++++-
 lib/maps.go     |  4 ++++
 lib/strings.go  |  4 ++++
 5 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/engine/apply.go b/engine/apply.go
index 0313410..ab856a3 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -20,6 +20,10 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid lambda type: %T", car.Value))
 		}
 
+		if len(cdr) > len(lambda.Arguments) {
+			return nil, core.NewEvaluationError(car, fmt.Sprintf("lambda takes %d arguments, got %d", len(lambda.Arguments), len(cdr)))
+		}
+
 		newEnv := lambda.Clojure.CreateChild()
 		for i, node := range cdr {
 			if lambda.Arguments[i].Schema != nil {
@@ -391,11 +395,19 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 }
 
 func opProgn(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "progn requires at least 1 argument, got 0")
+	}
+
 	return cdr[len(cdr)-1], nil
 }
 
 func opPipeline(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "pipeline requires at least 1 argument, got 0")
+	}
+
 	value := cdr[0]
 
 	for _, fn := range cdr[1:] {
diff --git a/engine/util.go b/engine/util.go
index d9279a8..faacc54 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -51,6 +51,9 @@ func EvalAndCastAny[T any](value any, env *core.Env, mode core.EvalMode, e core.
 // compareValues compares two values of any type for equality
 // It only compares values of the same type
 func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got 0", opName))
+	}
 	if len(cdr) != 2 {
 		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
@@ -114,6 +117,9 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 // compareNumbers compares two numbers using the provided comparison function
 // It handles both integers and floating point numbers
 func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float64) bool) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got 0", opName))
+	}
 	if len(cdr) != 2 {
 		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
diff --git a/lib/files.go b/lib/files.go
index 4b20c1f..8cc3732 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -16,6 +16,10 @@ func init() {
 
 func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "glob expects at least one argument")
+	}
+
 	result := make([]any, 0)
 
 	for _, node := range cdr {
@@ -87,7 +91,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 func opReadAll(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	if len(cdr) != 1 {
-		return nil, core.NewEvaluationError(cdr[0], "read-file expects exactly one argument")
+		return nil, core.NewEvaluationError(nil, "read-file expects exactly one argument")
 	}
 
 	str, ok := cdr[0].Value.(string)
diff --git a/lib/maps.go b/lib/maps.go
index 32ad9e5..b5776b6 100644
--- a/lib/maps.go
+++ b/lib/maps.go
@@ -18,6 +18,10 @@ func init() {
 
 func opFromEntries(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "fromEntries requires 1 argument, got 0")
+	}
+
 	node := cdr[0]
 	arr, ok := node.Value.([]any)
 	if !ok {
diff --git a/lib/strings.go b/lib/strings.go
index 2042682..c1cfc6d 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -101,6 +101,10 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 
 func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "format requires at least 1 argument, got 0")
+	}
+
 	formatNode := cdr[0]
 	argsNode := cdr[1:]
 
-- 
2.43.0


From c8238ba22a181a49a9fe521ff764979f6a04b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 14/29] fix: values of an unexpected type are errors instead of
 panics

---
 core/env.go      |  5 +++
 core/schema.go   | 90 +++++++++++++++++++++++++++++++-----------------
 core/types.go    |  2 +-
 core/util.go     |  9 +++++
 engine/engine.go |  4 +++
 engine/eval.go   | 20 ++++++++---
 engine/parse.go  |  3 ++
 engine/render.go | 14 +++++---
 engine/util.go   |  6 +++-
 lib/lists.go     | 22 +++++++++---
 lib/strings.go   | 16 +++++----
 11 files changed, 139 insertions(+), 52 deletions(-)

diff --git a/core/env.go b/core/env.go
index f99aa75..04e2a84 100644
--- a/core/env.go
+++ b/core/env.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"maps"
+	"slices"
 	"strings"
 )
 
@@ -89,6 +90,10 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 
 	split := strings.Split(key, ".")
 
+	if slices.Contains(split, "") {
+		return nil, false
+	}
+
 	fst := split[0]
 	optional := false
 	if fst[len(fst)-1] == '?' {
diff --git a/core/schema.go b/core/schema.go
index 050a64e..7f18aca 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -274,42 +274,50 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindInt {
 			return NewEvaluationError(node, fmt.Sprintf("expected int, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(int) < int(*s.Minimum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", node.Value.(int), *s.Minimum))
+		value, ok := node.Value.(int)
+		if !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected int, got %T", node.Value))
+		}
+		if s.Minimum != nil && value < int(*s.Minimum) {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", value, *s.Minimum))
 		}
-		if s.Maximum != nil && node.Value.(int) > int(*s.Maximum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", node.Value.(int), *s.Maximum))
+		if s.Maximum != nil && value > int(*s.Maximum) {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", value, *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && node.Value.(int) <= int(*s.ExclusiveMinimum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", node.Value.(int), *s.ExclusiveMinimum))
+		if s.ExclusiveMinimum != nil && value <= int(*s.ExclusiveMinimum) {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", value, *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && node.Value.(int) >= int(*s.ExclusiveMaximum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
+		if s.ExclusiveMaximum != nil && value >= int(*s.ExclusiveMaximum) {
+			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", value, *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if node.Value.(int)%*s.MultipleOf != 0 {
-				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", node.Value.(int), *s.MultipleOf))
+			if *s.MultipleOf == 0 || value%*s.MultipleOf != 0 {
+				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", value, *s.MultipleOf))
 			}
 		}
 	case "float":
 		if node.Kind != KindFloat {
 			return NewEvaluationError(node, fmt.Sprintf("expected float, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(float64) < *s.Minimum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is less than minimum %f", node.Value.(float64), *s.Minimum))
+		value, ok := node.Value.(float64)
+		if !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected float, got %T", node.Value))
+		}
+		if s.Minimum != nil && value < *s.Minimum {
+			return NewEvaluationError(node, fmt.Sprintf("value %f is less than minimum %f", value, *s.Minimum))
 		}
-		if s.Maximum != nil && node.Value.(float64) > *s.Maximum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is greater than maximum %f", node.Value.(float64), *s.Maximum))
+		if s.Maximum != nil && value > *s.Maximum {
+			return NewEvaluationError(node, fmt.Sprintf("value %f is greater than maximum %f", value, *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && node.Value.(float64) <= *s.ExclusiveMinimum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is not greater than exclusive minimum %f", node.Value.(float64), *s.ExclusiveMinimum))
+		if s.ExclusiveMinimum != nil && value <= *s.ExclusiveMinimum {
+			return NewEvaluationError(node, fmt.Sprintf("value %f is not greater than exclusive minimum %f", value, *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && node.Value.(float64) >= *s.ExclusiveMaximum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", node.Value.(float64), *s.ExclusiveMaximum))
+		if s.ExclusiveMaximum != nil && value >= *s.ExclusiveMaximum {
+			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", value, *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if int(node.Value.(float64))%*s.MultipleOf != 0 {
-				return NewEvaluationError(node, fmt.Sprintf("value %f is not a multiple of %d", node.Value.(float64), *s.MultipleOf))
+			if *s.MultipleOf == 0 || int(value)%*s.MultipleOf != 0 {
+				return NewEvaluationError(node, fmt.Sprintf("value %f is not a multiple of %d", value, *s.MultipleOf))
 			}
 		}
 	case "string":
@@ -319,16 +327,20 @@ func (s *Schema) Validate(node *YispNode) error {
 					return NewEvaluationError(node, fmt.Sprintf("expected string or int, got %s", node.Kind))
 				}
 				node.Kind = KindString
-				node.Value = fmt.Sprintf("%d", node.Value.(int))
+				node.Value = fmt.Sprintf("%d", node.Value)
 			} else {
 				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 			}
 		}
-		if s.MinLength != nil && len(node.Value.(string)) < *s.MinLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(node.Value.(string)), *s.MinLength))
+		value, ok := node.Value.(string)
+		if !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected string, got %T", node.Value))
+		}
+		if s.MinLength != nil && len(value) < *s.MinLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(value), *s.MinLength))
 		}
-		if s.MaxLength != nil && len(node.Value.(string)) > *s.MaxLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", len(node.Value.(string)), *s.MaxLength))
+		if s.MaxLength != nil && len(value) > *s.MaxLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", len(value), *s.MaxLength))
 		}
 	case "array":
 		if node.Kind != KindArray {
@@ -461,6 +473,11 @@ func (s *Schema) Validate(node *YispNode) error {
 }
 
 func (s *Schema) InterpolateDefaults(node *YispNode) error {
+
+	if s == nil {
+		return nil
+	}
+
 	switch s.Type {
 	case "array":
 		if node.Kind != KindArray {
@@ -496,19 +513,26 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 		}
 		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
 			subSchema := s.Properties[key]
+			if subSchema == nil {
+				continue
+			}
 			item, ok := m.Get(key)
 			if !ok {
 				if slices.Contains(s.Required, key) {
 					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
 				}
 				if subSchema.Default != nil {
-					defaultNode := &YispNode{
-						Kind:  schemaTypeToKind[subSchema.Type],
-						Value: subSchema.Default,
-						Tag:   node.Tag,
-						Attr:  node.Attr,
-						Type:  subSchema,
+					value := subSchema.Default
+					if number, ok := value.(float64); ok && subSchema.Type == "integer" { // as JSON has it
+						value = int(number)
 					}
+					defaultNode, err := ParseAny(node.Attr.File(), value)
+					if err != nil {
+						return NewEvaluationError(node, fmt.Sprintf("invalid default for property %s: %v", key, err))
+					}
+					defaultNode.Tag = node.Tag
+					defaultNode.Attr = node.Attr
+					defaultNode.Type = subSchema
 					m.Set(key, defaultNode)
 					continue
 				}
@@ -556,6 +580,10 @@ func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 
 func (s *Schema) Equals(other *Schema) bool {
 
+	if s == nil || other == nil {
+		return s == other
+	}
+
 	if s.Type != other.Type {
 		return false
 	}
diff --git a/core/types.go b/core/types.go
index 2bfb08c..093ae73 100644
--- a/core/types.go
+++ b/core/types.go
@@ -201,7 +201,7 @@ func (n *YispNode) ToNative() (any, error) {
 	case KindParameter:
 		return "(parameter)", nil
 	case KindSymbol:
-		return "*" + n.Value.(string), nil
+		return fmt.Sprintf("*%v", n.Value), nil
 	case KindType:
 		return "(type)", nil
 	default:
diff --git a/core/util.go b/core/util.go
index 556ed6e..c2ee273 100644
--- a/core/util.go
+++ b/core/util.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"reflect"
 	"slices"
 )
 
@@ -243,6 +244,14 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 	}
 }
 
+// SameValue reports whether a and b, values of two nodes, are the same.
+func SameValue(a, b any) (bool, error) {
+	if t := reflect.TypeOf(a); t != nil && t == reflect.TypeOf(b) && !t.Comparable() {
+		return false, fmt.Errorf("values of type %T cannot be compared", a)
+	}
+	return a == b, nil
+}
+
 func IsZero(v any) bool {
 	if v == nil {
 		return true
diff --git a/engine/engine.go b/engine/engine.go
index af6146f..2827fbc 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -178,6 +178,10 @@ func (e *engine) Run(document io.Reader, env *core.Env, location string) (*core.
 			return nil, err
 		}
 
+		if parsed == nil {
+			continue
+		}
+
 		evaluated, err := e.Eval(parsed, env, core.EvalModeQuote)
 		if err != nil {
 			return nil, err
diff --git a/engine/eval.go b/engine/eval.go
index 78be504..6ccb81c 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -31,10 +31,13 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 
 	switch node.Kind {
 	case core.KindSymbol:
-		var ok bool
 		var body any
 
-		body, ok = env.Get(node.Value.(string))
+		name, ok := node.Value.(string)
+		if !ok {
+			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid symbol name: %T", node.Value))
+		}
+		body, ok = env.Get(name)
 		if !ok {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("undefined symbol: %s", node.Value))
 		}
@@ -183,8 +186,13 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				paramsNode := nodes[1]
 				bodyNode := nodes[2]
 
+				paramList, ok := paramsNode.Value.([]any)
+				if !ok {
+					return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("lambda requires a list of parameters, got %s", paramsNode.Kind))
+				}
+
 				params := make([]core.TypedSymbol, 0)
-				for _, item := range paramsNode.Value.([]any) {
+				for _, item := range paramList {
 					paramNode, ok := item.(*core.YispNode)
 					if !ok {
 						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param type: %T", item))
@@ -377,7 +385,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 						results.Set(k, v)
 					}
 				} else if val.Kind == core.KindArray {
-					for _, item := range val.Value.([]any) {
+					arr, ok := val.Value.([]any)
+					if !ok {
+						return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid merge item type: %T", val.Value))
+					}
+					for _, item := range arr {
 						node, ok := item.(*core.YispNode)
 						if !ok {
 							return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid merge item type: %T", item))
diff --git a/engine/parse.go b/engine/parse.go
index 9232107..f264254 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -18,6 +18,9 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 			return nil, nil
 		}
 		result, err = Parse(filename, node.Content[0])
+		if err != nil || result == nil {
+			return nil, err
+		}
 		result.Attr = core.Attribute{
 			Sources: []core.FilePos{
 				{
diff --git a/engine/render.go b/engine/render.go
index 248bdc8..6c6dd12 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -79,17 +79,20 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		if !ok {
 			return nil, fmt.Errorf("invalid array value. Actual type: %T", node.Value)
 		}
-		results := make([]*yaml.Node, len(arr))
-		for i, item := range arr {
+		results := make([]*yaml.Node, 0, len(arr))
+		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
-			var err error
-			results[i], err = e.renderYamlNodes(node)
+			content, err := e.renderYamlNodes(node)
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // has no YAML form
+				continue
+			}
+			results = append(results, content)
 		}
 		return &yaml.Node{
 			Kind:        yaml.SequenceNode,
@@ -115,6 +118,9 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // has no YAML form
+				continue
+			}
 
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
diff --git a/engine/util.go b/engine/util.go
index faacc54..e6f07e4 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -100,7 +100,11 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 		}
 	default:
 		// For other types, we just check if they're the same type and value
-		equal = firstNode.Value == secondNode.Value
+		var err error
+		equal, err = core.SameValue(firstNode.Value, secondNode.Value)
+		if err != nil {
+			return nil, core.NewEvaluationError(firstNode, err.Error())
+		}
 	}
 
 	// For != operation, invert the result
diff --git a/lib/lists.go b/lib/lists.go
index 75ae2be..afa6e47 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -129,7 +129,11 @@ func opListContains(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e c
 		if !ok {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if itemNode.Value == elemNode.Value {
+		same, err := core.SameValue(itemNode.Value, elemNode.Value)
+		if err != nil {
+			return nil, core.NewEvaluationError(elemNode, err.Error())
+		}
+		if same {
 			return &core.YispNode{
 				Kind:  core.KindBool,
 				Value: true,
@@ -307,22 +311,28 @@ func opReduce(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 		return nil, core.NewEvaluationError(listNode, "reduce: empty list")
 	}
 
-	accumulator := arr[0] // Start with the first element
+	accumulator, ok := arr[0].(*core.YispNode) // Start with the first element
+	if !ok {
+		return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", arr[0]))
+	}
 	for _, item := range arr[1:] {
 		itemNode, ok := item.(*core.YispNode)
 		if !ok {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		result, err := e.Apply(fnNode, []*core.YispNode{accumulator.(*core.YispNode), itemNode}, env, mode)
+		result, err := e.Apply(fnNode, []*core.YispNode{accumulator, itemNode}, env, mode)
 		if err != nil {
 			return nil, core.NewEvaluationErrorWithParent(fnNode, "failed to evaluate reduce function", err)
 		}
 		accumulator = result
 	}
 
-	return accumulator.(*core.YispNode), nil
+	return accumulator, nil
 }
 
+// maxIota bounds what a single, possibly mistyped number can make iota allocate
+const maxIota = 1_000_000
+
 // opIota generates a list of integers from 0 to n-1
 func opIota(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 	if len(cdr) < 1 {
@@ -339,6 +349,10 @@ func opIota(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 		return nil, core.NewEvaluationError(nNode, "iota requires a non-negative integer")
 	}
 
+	if n > maxIota {
+		return nil, core.NewEvaluationError(nNode, fmt.Sprintf("iota makes at most %d elements", maxIota))
+	}
+
 	start := 0
 	if len(cdr) >= 2 {
 		startNode := cdr[1]
diff --git a/lib/strings.go b/lib/strings.go
index c1cfc6d..7ac9830 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -78,13 +78,11 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 	case core.KindFloat:
 		value = fmt.Sprintf("%f", cdr[0].Value)
 	case core.KindBool:
-		if cdr[0].Value.(bool) {
-			value = "true"
-		} else {
-			value = "false"
-		}
-	default:
 		value = fmt.Sprintf("%v", cdr[0].Value)
+	case core.KindNull:
+		value = fmt.Sprintf("%v", cdr[0].Value)
+	default:
+		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("quote requires a scalar argument, got %v", cdr[0].Kind))
 	}
 
 	node := cdr[0]
@@ -115,7 +113,11 @@ func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	args := make([]any, len(argsNode))
 	for i, arg := range argsNode {
-		args[i] = arg.Value
+		native, err := arg.ToNative()
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(arg, "failed to format argument", err)
+		}
+		args[i] = native
 	}
 
 	return &core.YispNode{
-- 
2.43.0


From a6ad0ee956f5c9eeb492f2894e352b9da08cf36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 15/29] fix: a patched value never becomes part of itself

---
 lib/patch.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index 9f799c1..dd950df 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -871,6 +871,33 @@ func opOpPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 	return target, nil
 }
 
+// copyNode copies lists and maps. A value becomes part of the target as a copy,
+// for it may contain the target, and the target must not contain itself.
+func copyNode(node *core.YispNode) *core.YispNode {
+	copied := *node
+	switch value := node.Value.(type) {
+	case []any:
+		arr := make([]any, len(value))
+		for i, item := range value {
+			arr[i] = item
+			if itemNode, ok := item.(*core.YispNode); ok {
+				arr[i] = copyNode(itemNode)
+			}
+		}
+		copied.Value = arr
+	case *core.YispMap:
+		m := core.NewYispMap()
+		for key, item := range value.AllFromFront() {
+			if itemNode, ok := item.(*core.YispNode); ok {
+				item = copyNode(itemNode)
+			}
+			m.Set(key, item)
+		}
+		copied.Value = m
+	}
+	return &copied
+}
+
 // applyPatches applies an array of patch operations to a target node
 func applyPatches(target *core.YispNode, patchesArray []any) error {
 	// Apply each patch operation
@@ -929,7 +956,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("expected YispNode for value, got %T", valueAny))
 			}
 
-			err := addValue(target, path, valueNode)
+			err := addValue(target, path, copyNode(valueNode))
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("add operation failed: %v", err))
 			}
@@ -951,7 +978,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("expected YispNode for value, got %T", valueAny))
 			}
 
-			err := replaceValue(target, path, valueNode)
+			err := replaceValue(target, path, copyNode(valueNode))
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("replace operation failed: %v", err))
 			}
@@ -982,7 +1009,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("move operation (remove) failed: %v", err))
 			}
 			// Add to 'path'
-			err = addValue(target, path, value)
+			err = addValue(target, path, copyNode(value))
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("move operation (add) failed: %v", err))
 			}
@@ -1008,7 +1035,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (get) failed: %v", err))
 			}
 			// Add to 'path'
-			err = addValue(target, path, value)
+			err = addValue(target, path, copyNode(value))
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (add) failed: %v", err))
 			}
-- 
2.43.0


From 99a492163aa8033e5d6f2212cab264e15195bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 16/29] fix: a merged list never becomes part of itself

---
 core/util.go | 2 +-
 lib/k8s.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/util.go b/core/util.go
index c2ee273..943f1d9 100644
--- a/core/util.go
+++ b/core/util.go
@@ -157,7 +157,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
 			} else {
-				result = dstArray
+				result = slices.Clone(dstArray)
 				for _, srcItem := range srcArray {
 					srcNode, ok := srcItem.(*YispNode)
 					if !ok {
diff --git a/lib/k8s.go b/lib/k8s.go
index 313fefb..22acfd6 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -55,7 +55,7 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 			}
 
 			if patchID == targetID {
-				targetArray[i], err = core.DeepMergeYispNode(targetNode, patchNode, targetNode.Type)
+				targetArray[i], err = core.DeepMergeYispNode(targetNode, copyNode(patchNode), targetNode.Type)
 				if err != nil {
 					return nil, core.NewEvaluationErrorWithParent(patchNode, "failed to apply patch", err)
 				}
-- 
2.43.0


From bb8b0aeae9a0c9697c3484826eaad335394c143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 17/29] fix: endless recursion is an error, not a crash

---
 core/env.go     | 39 +++++++++++++++++++++++++++++++++++----
 core/error.go   | 16 +++++++++++++++-
 engine/apply.go | 10 +++++++++-
 engine/eval.go  |  5 ++++-
 lib/exec.go     |  6 ++++++
 5 files changed, 69 insertions(+), 7 deletions(-)

diff --git a/core/env.go b/core/env.go
index 04e2a84..bb5f636 100644
--- a/core/env.go
+++ b/core/env.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"maps"
 	"slices"
 	"strings"
@@ -10,6 +11,34 @@ import (
 type Env struct {
 	Parent *Env
 	Vars   map[string]*YispNode
+
+	// nesting counts the calls and included files this environment is inside of
+	nesting int
+}
+
+const (
+	maxNesting     = 5000
+	includeNesting = 50
+)
+
+// NestCall marks the environment as the one of a function called from caller.
+// It fails when the calls are nested too deep.
+func (e *Env) NestCall(caller *Env) error {
+	return e.nest(caller, 1)
+}
+
+// NestInclude marks the environment as the one of a file included from includer.
+// It fails when the files are nested too deep.
+func (e *Env) NestInclude(includer *Env) error {
+	return e.nest(includer, includeNesting)
+}
+
+func (e *Env) nest(outer *Env, weight int) error {
+	e.nesting = outer.nesting + weight
+	if e.nesting > maxNesting {
+		return errors.New("calls or includes are nested too deep (endless recursion?)")
+	}
+	return nil
 }
 
 // NewEnv creates a new environment with an empty variable map
@@ -68,8 +97,9 @@ func (e *Env) Depth() int {
 
 func (e *Env) Clone() *Env {
 	clone := &Env{
-		Parent: e.Parent,
-		Vars:   make(map[string]*YispNode),
+		Parent:  e.Parent,
+		Vars:    make(map[string]*YispNode),
+		nesting: e.nesting,
 	}
 	maps.Copy(clone.Vars, e.Vars)
 	return clone
@@ -77,8 +107,9 @@ func (e *Env) Clone() *Env {
 
 func (e *Env) CreateChild() *Env {
 	return &Env{
-		Parent: e,
-		Vars:   make(map[string]*YispNode),
+		Parent:  e,
+		Vars:    make(map[string]*YispNode),
+		nesting: e.nesting,
 	}
 }
 
diff --git a/core/error.go b/core/error.go
index fa5df4f..4cc7dde 100644
--- a/core/error.go
+++ b/core/error.go
@@ -2,6 +2,8 @@ package core
 
 import (
 	"fmt"
+	"slices"
+	"strings"
 )
 
 var EvaluationError = ErrorTypeEvaluation{Type: "YispErrorEvaluation"}
@@ -93,7 +95,19 @@ func (e *ErrorTypeEvaluation) Error() string {
 
 	} else {
 
-		return e.Parent.Error() + "\n" + e.String()
+		// the root cause first, then outwards
+		var chain []*ErrorTypeEvaluation
+		for err := e; err.Parent != nil; err = err.Parent {
+			chain = append(chain, err)
+		}
+
+		var message strings.Builder
+		message.WriteString(e.GetRoot().Error())
+		for _, err := range slices.Backward(chain) {
+			message.WriteString("\n" + err.String())
+		}
+
+		return message.String()
 	}
 }
 
diff --git a/engine/apply.go b/engine/apply.go
index ab856a3..a0d4733 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -25,6 +25,9 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 		}
 
 		newEnv := lambda.Clojure.CreateChild()
+		if err := newEnv.NestCall(env); err != nil {
+			return nil, core.NewEvaluationErrorWithParent(car, "failed to call lambda", err)
+		}
 		for i, node := range cdr {
 			if lambda.Arguments[i].Schema != nil {
 				err := lambda.Arguments[i].Schema.Validate(node)
@@ -361,7 +364,12 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 				continue
 			}
 
-			evaluated, err := core.CallEngineByPath(path, node.Attr.File(), core.NewEnv(), e)
+			newEnv := core.NewEnv()
+			if err := newEnv.NestInclude(env); err != nil {
+				return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to include file: %s", path), err)
+			}
+
+			evaluated, err := core.CallEngineByPath(path, node.Attr.File(), newEnv, e)
 			if err != nil {
 				return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to include file: %s", path), err)
 			}
diff --git a/engine/eval.go b/engine/eval.go
index 6ccb81c..0fa118f 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -286,8 +286,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 					}
 
 					newEnv := core.NewEnv()
+					err := newEnv.NestInclude(env)
+					if err != nil {
+						return nil, core.NewEvaluationErrorWithParent(node, "failed to include file", err)
+					}
 
-					var err error
 					_, err = core.CallEngineByPath(relpath, node.Attr.File(), newEnv, e)
 					if err != nil {
 						return nil, core.NewEvaluationErrorWithParent(node, "failed to include file", err)
diff --git a/lib/exec.go b/lib/exec.go
index 259416a..c76c880 100644
--- a/lib/exec.go
+++ b/lib/exec.go
@@ -145,6 +145,9 @@ func opCmd(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engin
 		}, nil
 	} else {
 
+		if err := env.NestInclude(env); err != nil {
+			return nil, core.NewEvaluationErrorWithParent(cdr[0], "failed to evaluate command output", err)
+		}
 		result, err := e.Run(stdout, env, cdr[0].Attr.File())
 		if err != nil {
 			return nil, core.NewEvaluationErrorWithParent(cdr[0], "failed to evaluate command output", err)
@@ -285,6 +288,9 @@ func opGoRun(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		}, nil
 	} else {
 
+		if err := env.NestInclude(env); err != nil {
+			return nil, core.NewEvaluationErrorWithParent(cdr[0], "failed to evaluate command output", err)
+		}
 		result, err := e.Run(stdout, env, cdr[0].Attr.File())
 		if err != nil {
 			return nil, core.NewEvaluationErrorWithParent(cdr[0], "failed to evaluate command output", err)
-- 
2.43.0


From f0e3f870c60c4b75536face3a10057625e4aca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 18/29] fix: a config path that cannot be resolved is an error,
 not a file to replace

---
 cmd/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 2898706..93ece28 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -17,11 +17,14 @@ import (
 func updateConfig(update func()) error {
 
 	path := viper.ConfigFileUsed()
-	if target, err := filepath.EvalSymlinks(path); err == nil {
+	target, err := filepath.EvalSymlinks(path)
+	if err == nil {
 		path = target
+	} else if !errors.Is(err, fs.ErrNotExist) {
+		return err
 	}
 
-	err := os.MkdirAll(filepath.Dir(path), os.ModePerm)
+	err = os.MkdirAll(filepath.Dir(path), os.ModePerm)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6120c3da5e062719ae9334f0b3a914148a8d809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:38 +0000
Subject: [PATCH 19/29] fix: strings that start with a line break, a tab or a
 space survive being written as YAML

---
 internal/yaml/emitterc.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index dde20e5..421f501 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -1378,6 +1378,11 @@ func yaml_emitter_analyze_scalar(emitter *yaml_emitter_t, value []byte) bool {
 	if trailing_space {
 		emitter.scalar_data.block_allowed = false
 	}
+	if leading_break || value[0] == '\t' {
+		// [Go] A block scalar takes its indentation from its first line, which
+		// then is an empty one, or one that would seem indented with a tab.
+		emitter.scalar_data.block_allowed = false
+	}
 	if break_space {
 		emitter.scalar_data.flow_plain_allowed = false
 		emitter.scalar_data.block_plain_allowed = false
@@ -1846,7 +1851,13 @@ func yaml_emitter_write_double_quoted_scalar(emitter *yaml_emitter_t, value []by
 
 func yaml_emitter_write_block_scalar_hints(emitter *yaml_emitter_t, value []byte) bool {
 	if is_space(value, 0) || is_break(value, 0) {
-		indent_hint := []byte{'0' + byte(emitter.best_indent)}
+		// [Go] The hint counts from the parent's indentation, and that step isn't
+		// best_indent everywhere (see yaml_emitter_increase_indent).
+		indent := emitter.indent
+		if parent := emitter.indents[len(emitter.indents)-1]; parent > 0 {
+			indent -= parent
+		}
+		indent_hint := []byte{'0' + byte(indent)}
 		if !yaml_emitter_write_indicator(emitter, indent_hint, false, false, false) {
 			return false
 		}
@@ -1942,11 +1953,11 @@ func yaml_emitter_write_folded_scalar(emitter *yaml_emitter_t, value []byte) boo
 	for i := 0; i < len(value); {
 		if is_break(value, i) {
 			if !breaks && !leading_spaces && value[i] == '\n' {
-				k := 0
-				for is_break(value, k) {
+				k := i
+				for k < len(value) && is_break(value, k) {
 					k += width(value[k])
 				}
-				if !is_blankz(value, k) {
+				if k < len(value) && !is_blankz(value, k) {
 					if !put_break(emitter) {
 						return false
 					}
-- 
2.43.0


From 9dd0ae191dade0964a7aaff0f2ee1e6af24b0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:44 +0000
Subject: [PATCH 20/29] fix: a result without documents renders as empty output
 instead of an error

---
 engine/render.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/render.go b/engine/render.go
index 6c6dd12..656a061 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -223,6 +223,7 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		buf := bytes.Buffer{}
 		enc := yaml.NewEncoder(&buf)
 		enc.SetIndent(2)
+		encoded := false
 		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
@@ -240,6 +241,11 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 			if err := enc.Encode(rendered); err != nil {
 				return "", err
 			}
+			encoded = true
+		}
+		if !encoded {
+			// an encoder that has written no document cannot be closed
+			return "", nil
 		}
 		if err := enc.Close(); err != nil {
 			return "", err
-- 
2.43.0


From 96a3c05a166e41ce6fb280ae8784f9770039b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 21/29] fix: decoding an alias without an anchor is an error,
 not a panic

---
 internal/yaml/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/yaml/decode.go b/internal/yaml/decode.go
index ae16220..a21d562 100644
--- a/internal/yaml/decode.go
+++ b/internal/yaml/decode.go
@@ -533,6 +533,9 @@ func (d *decoder) document(n *Node, out reflect.Value) (good bool) {
 }
 
 func (d *decoder) alias(n *Node, out reflect.Value) (good bool) {
+	if n.Alias == nil {
+		failf("unknown anchor '%s' referenced", n.Value)
+	}
 	if d.aliases[n] {
 		// TODO this could actually be allowed in some circumstances.
 		failf("anchor '%s' value contains itself", n.Value)
-- 
2.43.0


From 319c0b73b8a6fb7f22c9525705567afc46903f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 22/29] fix: closing a YAML encoder after a failed write
 repeats the error instead of writing again or panicking

---
 internal/yaml/emitterc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index 421f501..753aeb5 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -144,6 +144,10 @@ func yaml_emitter_set_emitter_error(emitter *yaml_emitter_t, problem string) boo
 
 // Emit an event.
 func yaml_emitter_emit(emitter *yaml_emitter_t, event *yaml_event_t) bool {
+	if emitter.error != yaml_NO_ERROR {
+		// what was written so far cannot be continued
+		return false
+	}
 	emitter.events = append(emitter.events, *event)
 	for !yaml_emitter_need_more_events(emitter) {
 		event := &emitter.events[emitter.events_head]
-- 
2.43.0


From 72a1ee2b24948d463159bd2f00941465a4277e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 23/29] fix: patching a value leaves the original as it was

---
 lib/k8s.go   | 6 +++++-
 lib/patch.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index 22acfd6..91c2180 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -26,6 +27,7 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 	if !ok {
 		return nil, core.NewEvaluationError(targets, fmt.Sprintf("invalid target type: %T", targets.Value))
 	}
+	targetArray = slices.Clone(targetArray) // the caller's value stays as it is
 
 	patchArray, ok := patches.Value.([]any)
 	if !ok {
@@ -64,7 +66,9 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		}
 	}
 
-	return targets, nil
+	patched := *targets
+	patched.Value = targetArray
+	return &patched, nil
 }
 
 func getManifestID(node *core.YispNode) (string, error) {
diff --git a/lib/patch.go b/lib/patch.go
index dd950df..6b6dcbf 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -816,7 +816,7 @@ func opOpPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 		return nil, core.NewEvaluationError(nil, fmt.Sprintf("patch requires 2 arguments, got %d", len(cdr)))
 	}
 
-	target := cdr[0]
+	target := copyNode(cdr[0]) // the caller's value stays as it is
 	patchesNode := cdr[1]
 
 	// Convert patches to array if it's not already
-- 
2.43.0


From 67e653bd6bc5f7724b872283dd232195251e9761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 24/29] fix: casting a value leaves the original and its parts
 as they were

---
 core/schema.go |  1 +
 core/types.go  | 26 ++++++++++++++++++++++++++
 engine/eval.go | 22 +++++++++++-----------
 lib/k8s.go     |  2 +-
 lib/patch.go   | 39 +++++++--------------------------------
 5 files changed, 46 insertions(+), 44 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 7f18aca..e926a51 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -563,6 +563,7 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 }
 
 func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
+	node = node.Copy() // parts of it may be values of something else
 	err := s.InterpolateDefaults(node)
 	if err != nil {
 		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
diff --git a/core/types.go b/core/types.go
index 093ae73..4e92657 100644
--- a/core/types.go
+++ b/core/types.go
@@ -152,6 +152,32 @@ func (n *YispNode) String() string {
 	}
 }
 
+// Copy copies the node with its lists and maps.
+func (n *YispNode) Copy() *YispNode {
+	copied := *n
+	switch value := n.Value.(type) {
+	case []any:
+		arr := make([]any, len(value))
+		for i, item := range value {
+			arr[i] = item
+			if itemNode, ok := item.(*YispNode); ok {
+				arr[i] = itemNode.Copy()
+			}
+		}
+		copied.Value = arr
+	case *YispMap:
+		m := NewYispMap()
+		for key, item := range value.AllFromFront() {
+			if itemNode, ok := item.(*YispNode); ok {
+				item = itemNode.Copy()
+			}
+			m.Set(key, item)
+		}
+		copied.Value = m
+	}
+	return &copied
+}
+
 func (n *YispNode) ToNative() (any, error) {
 	switch n.Kind {
 	case KindNull, KindBool, KindInt, KindFloat, KindString:
diff --git a/engine/eval.go b/engine/eval.go
index 0fa118f..7b08fe2 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -467,17 +467,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
-	if node.Anchor != "" {
-		env.Root().Set(node.Anchor, result) // anchor is global
-
-		if result.Kind == core.KindLambda {
-			lambda, ok := result.Value.(*core.Lambda)
-			if ok {
-				lambda.Clojure.Set(node.Anchor, result)
-			}
-		}
-	}
-
 	if node.Tag != "" && node.Tag != "!quote" && node.Tag != "!yisp" {
 		typeName := strings.TrimPrefix(node.Tag, "!")
 		if typeName != "" && !strings.HasPrefix(typeName, "!") {
@@ -495,5 +484,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
+	if node.Anchor != "" {
+		env.Root().Set(node.Anchor, result) // anchor is global
+
+		if result.Kind == core.KindLambda {
+			lambda, ok := result.Value.(*core.Lambda)
+			if ok {
+				lambda.Clojure.Set(node.Anchor, result)
+			}
+		}
+	}
+
 	return result, nil
 }
diff --git a/lib/k8s.go b/lib/k8s.go
index 91c2180..d8ae0cf 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -57,7 +57,7 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 			}
 
 			if patchID == targetID {
-				targetArray[i], err = core.DeepMergeYispNode(targetNode, copyNode(patchNode), targetNode.Type)
+				targetArray[i], err = core.DeepMergeYispNode(targetNode, patchNode.Copy(), targetNode.Type)
 				if err != nil {
 					return nil, core.NewEvaluationErrorWithParent(patchNode, "failed to apply patch", err)
 				}
diff --git a/lib/patch.go b/lib/patch.go
index 6b6dcbf..cada273 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -816,7 +816,7 @@ func opOpPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 		return nil, core.NewEvaluationError(nil, fmt.Sprintf("patch requires 2 arguments, got %d", len(cdr)))
 	}
 
-	target := copyNode(cdr[0]) // the caller's value stays as it is
+	target := cdr[0].Copy() // the caller's value stays as it is
 	patchesNode := cdr[1]
 
 	// Convert patches to array if it's not already
@@ -871,33 +871,6 @@ func opOpPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 	return target, nil
 }
 
-// copyNode copies lists and maps. A value becomes part of the target as a copy,
-// for it may contain the target, and the target must not contain itself.
-func copyNode(node *core.YispNode) *core.YispNode {
-	copied := *node
-	switch value := node.Value.(type) {
-	case []any:
-		arr := make([]any, len(value))
-		for i, item := range value {
-			arr[i] = item
-			if itemNode, ok := item.(*core.YispNode); ok {
-				arr[i] = copyNode(itemNode)
-			}
-		}
-		copied.Value = arr
-	case *core.YispMap:
-		m := core.NewYispMap()
-		for key, item := range value.AllFromFront() {
-			if itemNode, ok := item.(*core.YispNode); ok {
-				item = copyNode(itemNode)
-			}
-			m.Set(key, item)
-		}
-		copied.Value = m
-	}
-	return &copied
-}
-
 // applyPatches applies an array of patch operations to a target node
 func applyPatches(target *core.YispNode, patchesArray []any) error {
 	// Apply each patch operation
@@ -944,6 +917,8 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 			return core.NewEvaluationError(pathNode, fmt.Sprintf("expected string for path, got %T", pathNode.Value))
 		}
 
+		// A value becomes part of the target as a copy, for it may contain the
+		// target, and the target must not contain itself.
 		switch op {
 		case "add":
 			// Extract value
@@ -956,7 +931,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("expected YispNode for value, got %T", valueAny))
 			}
 
-			err := addValue(target, path, copyNode(valueNode))
+			err := addValue(target, path, valueNode.Copy())
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("add operation failed: %v", err))
 			}
@@ -978,7 +953,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("expected YispNode for value, got %T", valueAny))
 			}
 
-			err := replaceValue(target, path, copyNode(valueNode))
+			err := replaceValue(target, path, valueNode.Copy())
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("replace operation failed: %v", err))
 			}
@@ -1009,7 +984,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("move operation (remove) failed: %v", err))
 			}
 			// Add to 'path'
-			err = addValue(target, path, copyNode(value))
+			err = addValue(target, path, value.Copy())
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("move operation (add) failed: %v", err))
 			}
@@ -1035,7 +1010,7 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (get) failed: %v", err))
 			}
 			// Add to 'path'
-			err = addValue(target, path, copyNode(value))
+			err = addValue(target, path, value.Copy())
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("copy operation (add) failed: %v", err))
 			}
-- 
2.43.0


From d489619a16c149e1389b5aadff3fb67e66a90918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 25/29] fix: a second name for a function leaves the function
 as it was

---
 engine/eval.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 7b08fe2..a403c76 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -485,14 +485,17 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 	}
 
 	if node.Anchor != "" {
-		env.Root().Set(node.Anchor, result) // anchor is global
-
-		if result.Kind == core.KindLambda {
-			lambda, ok := result.Value.(*core.Lambda)
-			if ok {
-				lambda.Clojure.Set(node.Anchor, result)
-			}
+		if lambda, ok := result.Value.(*core.Lambda); ok && result.Kind == core.KindLambda {
+			// the function knows itself by its name; if it has another name
+			// elsewhere, that one does not change
+			named, function := *result, *lambda
+			function.Clojure = lambda.Clojure.Clone()
+			named.Value = &function
+			result = &named
+			function.Clojure.Set(node.Anchor, result)
 		}
+
+		env.Root().Set(node.Anchor, result) // anchor is global
 	}
 
 	return result, nil
-- 
2.43.0


From 35ae85488974dd25e4bf6459b148ed6fab3d4afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 26/29] fix: names defined in a function's body belong to the
 call, not to later calls

---
 core/env.go     | 20 ++++++++++++++++++--
 engine/apply.go |  2 +-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/core/env.go b/core/env.go
index bb5f636..8a8663e 100644
--- a/core/env.go
+++ b/core/env.go
@@ -14,6 +14,10 @@ type Env struct {
 
 	// nesting counts the calls and included files this environment is inside of
 	nesting int
+
+	// call marks the environment of a function call, which holds the names
+	// the function's body defines
+	call bool
 }
 
 const (
@@ -80,8 +84,17 @@ func NewEnv() *Env {
 	}
 }
 
+// CreateCall creates the environment of a call of a function defined in e.
+func (e *Env) CreateCall() *Env {
+	call := e.CreateChild()
+	call.call = true
+	return call.CreateChild()
+}
+
+// Root is where names are defined: the file's environment or, in a function,
+// that of the call.
 func (e *Env) Root() *Env {
-	if e.Parent == nil {
+	if e.Parent == nil || e.call {
 		return e
 	}
 	return e.Parent.Root()
@@ -90,7 +103,9 @@ func (e *Env) Root() *Env {
 func (e *Env) Depth() int {
 	depth := 0
 	for env := e; env != nil; env = env.Parent {
-		depth++
+		if !env.call {
+			depth++
+		}
 	}
 	return depth
 }
@@ -100,6 +115,7 @@ func (e *Env) Clone() *Env {
 		Parent:  e.Parent,
 		Vars:    make(map[string]*YispNode),
 		nesting: e.nesting,
+		call:    e.call,
 	}
 	maps.Copy(clone.Vars, e.Vars)
 	return clone
diff --git a/engine/apply.go b/engine/apply.go
index a0d4733..c3135e4 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -24,7 +24,7 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("lambda takes %d arguments, got %d", len(lambda.Arguments), len(cdr)))
 		}
 
-		newEnv := lambda.Clojure.CreateChild()
+		newEnv := lambda.Clojure.CreateCall()
 		if err := newEnv.NestCall(env); err != nil {
 			return nil, core.NewEvaluationErrorWithParent(car, "failed to call lambda", err)
 		}
-- 
2.43.0


From b263d2b27bc08df60d932b3a7be7428dc4a6e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 27/29] fix: type checks do not change the values they check

int-or-string numbers were turned into strings in place, wherever the value
was shared: other uses of it, other evaluations, concurrent ones.
---
 engine/apply.go  | 1 +
 engine/engine.go | 4 ++++
 lib/types.go     | 1 +
 3 files changed, 6 insertions(+)

diff --git a/engine/apply.go b/engine/apply.go
index c3135e4..5163c51 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -30,6 +30,7 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 		}
 		for i, node := range cdr {
 			if lambda.Arguments[i].Schema != nil {
+				node = node.Copy() // the check converts int-or-string values
 				err := lambda.Arguments[i].Schema.Validate(node)
 				if err != nil {
 					return nil, core.NewEvaluationErrorWithParent(node, "object does not satisfy type", err)
diff --git a/engine/engine.go b/engine/engine.go
index 2827fbc..7a8d50b 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -56,6 +56,7 @@ func (e *engine) EvaluateFileToYamlWithEnv(path string, env *core.Env) (string,
 	}
 
 	if !e.disableTypeCheck {
+		evaluated = evaluated.Copy() // the check converts int-or-string values
 		err = core.VerifyTypes(evaluated, e.allowUntypedManifest)
 		if err != nil {
 			return "", err
@@ -82,6 +83,7 @@ func (e *engine) EvaluateReaderToYamlWithEnv(reader io.Reader, env *core.Env, lo
 	}
 
 	if !e.disableTypeCheck {
+		evaluated = evaluated.Copy() // the check converts int-or-string values
 		err = core.VerifyTypes(evaluated, e.allowUntypedManifest)
 		if err != nil {
 			return "", err
@@ -109,6 +111,7 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 	}
 
 	if !e.disableTypeCheck {
+		evaluated = evaluated.Copy() // the check converts int-or-string values
 		err = core.VerifyTypes(evaluated, e.allowUntypedManifest)
 		if err != nil {
 			return "", err
@@ -141,6 +144,7 @@ func (e *engine) EvaluateBytesToYaml(data []byte, global map[string]any) (string
 	}
 
 	if !e.disableTypeCheck {
+		evaluated = evaluated.Copy() // the check converts int-or-string values
 		err = core.VerifyTypes(evaluated, e.allowUntypedManifest)
 		if err != nil {
 			return "", err
diff --git a/lib/types.go b/lib/types.go
index 04a1b78..7067b96 100644
--- a/lib/types.go
+++ b/lib/types.go
@@ -28,6 +28,7 @@ func opAssertType(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e cor
 		return nil, core.NewEvaluationError(schemaNode, fmt.Sprintf("invalid type value: %T", schemaNode.Value))
 	}
 
+	valueNode = valueNode.Copy() // the check converts int-or-string values
 	err := schema.Validate(valueNode)
 	if err != nil {
 		return nil, core.NewEvaluationErrorWithParent(valueNode, fmt.Sprintf("value does not match schema: %s", err.Error()), err)
-- 
2.43.0


From 8ce272de7f6ea05ff4a56f490ce15eafaca0cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 28/29] fix: keep a replaced file's permissions, or fail, when
 they cannot be read

---
 core/file.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/file.go b/core/file.go
index d5223b5..900bbae 100644
--- a/core/file.go
+++ b/core/file.go
@@ -1,6 +1,8 @@
 package core
 
 import (
+	"errors"
+	"io/fs"
 	"os"
 	"path/filepath"
 )
@@ -9,8 +11,11 @@ import (
 // has its complete old or its complete new content. It keeps its permissions.
 func ReplaceFile(path string, content []byte) (err error) {
 	mode := os.FileMode(0644)
-	if info, err := os.Stat(path); err == nil {
+	info, err := os.Stat(path)
+	if err == nil {
 		mode = info.Mode().Perm()
+	} else if !errors.Is(err, fs.ErrNotExist) {
+		return err
 	}
 
 	file, err := os.CreateTemp(filepath.Dir(path), ".tmp-*")
-- 
2.43.0


From 4c9342f4c7ac917f995d9b92341847b9cb78d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:21 +0000
Subject: [PATCH 29/29] fix: report the reader's error when a look for a
 comment meets it

---
 internal/yaml/scannerc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/yaml/scannerc.go b/internal/yaml/scannerc.go
index 0c203c4..783a456 100644
--- a/internal/yaml/scannerc.go
+++ b/internal/yaml/scannerc.go
@@ -2843,7 +2843,7 @@ func yaml_parser_scan_line_comment(parser *yaml_parser_t, token_mark yaml_mark_t
 
 	for peek := 0; peek < 512; peek++ {
 		if parser.unread < peek+1 && !yaml_parser_update_buffer(parser, peek+1) {
-			break
+			return false
 		}
 		if is_blank(parser.buffer, parser.buffer_pos+peek) {
 			continue
@@ -2921,7 +2921,7 @@ func yaml_parser_scan_comments(parser *yaml_parser_t, scan_mark yaml_mark_t) boo
 	var peek = 0
 	for ; peek < 512; peek++ {
 		if parser.unread < peek+1 && !yaml_parser_update_buffer(parser, peek+1) {
-			break
+			return false
 		}
 		column++
 		if is_blank(parser.buffer, parser.buffer_pos+peek) {
-- 
2.43.0

