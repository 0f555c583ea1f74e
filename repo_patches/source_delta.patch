From dacdcccf9dfbae76ba7d8e786166cd8ae2e9e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 01/40] fix: RDF reader reports stream errors and ignores how
 the stream delivers

---
 rdf/reader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rdf/reader.go b/rdf/reader.go
index 9bc3369..95d59f8 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -3,6 +3,7 @@
 package rdf
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -32,7 +33,14 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	if !convert.IsPtr(doc) {
 		return fmt.Errorf("doc to read into must be a pointer")
 	}
-	var rdfParserObj, err = rdfloader.LoadFromReaderObject(content)
+	// the RDF loader drops read errors of its input and is sensitive to short
+	// reads, so hand it the complete content
+	buf, err := io.ReadAll(content)
+	if err != nil {
+		return err
+	}
+
+	rdfParserObj, err := rdfloader.LoadFromReaderObject(bytes.NewReader(buf))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1259c697aa0feee7e7581b41525e09ee2281a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 02/40] fix: RDF readers return an error when one URI is both a
 package and a file

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_2/rdf/reader/parse_package.go | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index ffc7645..5c83803 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*v2_2.File), nil
+		file, ok := currState.object.(*v2_2.File)
+		if !ok {
+			return nil, fmt.Errorf("%s is used as a file and as another kind of element", fileNode.ID)
+		}
+		return file, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index bb4a331..b369102 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*v2_2.Package), nil
+		pkg, ok := currState.object.(*v2_2.Package)
+		if !ok {
+			return nil, fmt.Errorf("%s is used as a package and as another kind of element", packageNode.ID)
+		}
+		return pkg, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index cce0f9f..a2158e2 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*spdx.File), nil
+		file, ok := currState.object.(*spdx.File)
+		if !ok {
+			return nil, fmt.Errorf("%s is used as a file and as another kind of element", fileNode.ID)
+		}
+		return file, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index b868e7d..7b0443b 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*spdx.Package), nil
+		pkg, ok := currState.object.(*spdx.Package)
+		if !ok {
+			return nil, fmt.Errorf("%s is used as a package and as another kind of element", packageNode.ID)
+		}
+		return pkg, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
-- 
2.43.0


From f8da844158f99abfd40ed7eb0fb391fa528ee915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 03/40] fix: RDF readers parse every relationship once instead
 of once per path to it

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 4 ++--
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 1946933..6e5bc4b 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -32,8 +32,8 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 			object: reln,
 			Color:  WHITE,
 		}
-	} else if currState.Color == GREY {
-		// we have already started parsing this relationship node and we needn't parse it again.
+	} else {
+		// we have already started or finished parsing this relationship node and we needn't parse it again.
 		return nil
 	}
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index b1753db..ca9ac71 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -32,8 +32,8 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 			object: reln,
 			Color:  WHITE,
 		}
-	} else if currState.Color == GREY {
-		// we have already started parsing this relationship node and we needn't parse it again.
+	} else {
+		// we have already started or finished parsing this relationship node and we needn't parse it again.
 		return nil
 	}
 
-- 
2.43.0


From 4399313f2dee7b7d4a440164d079470beb7c4300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 04/40] fix: names and identifiers with JSON escape sequences
 are unescaped when read

---
 spdx/v2/common/annotation.go    |  6 ++++--
 spdx/v2/common/creation_info.go |  6 ++++--
 spdx/v2/common/identifier.go    | 18 ++++++++++++------
 spdx/v2/common/package.go       | 12 ++++++++----
 spdx/v2/common/unmarshal.go     | 21 +++++++++++++++++++++
 5 files changed, 49 insertions(+), 14 deletions(-)
 create mode 100644 spdx/v2/common/unmarshal.go

diff --git a/spdx/v2/common/annotation.go b/spdx/v2/common/annotation.go
index 096a36f..21154c7 100644
--- a/spdx/v2/common/annotation.go
+++ b/spdx/v2/common/annotation.go
@@ -19,8 +19,10 @@ type Annotator struct {
 // This function is also used when unmarshalling YAML
 func (a *Annotator) UnmarshalJSON(data []byte) error {
 	// annotator will simply be a string
-	annotatorStr := string(data)
-	annotatorStr = strings.Trim(annotatorStr, "\"")
+	annotatorStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	annotatorFields := strings.SplitN(annotatorStr, ":", 2)
 
diff --git a/spdx/v2/common/creation_info.go b/spdx/v2/common/creation_info.go
index 5fc52bc..12522f3 100644
--- a/spdx/v2/common/creation_info.go
+++ b/spdx/v2/common/creation_info.go
@@ -20,8 +20,10 @@ type Creator struct {
 // UnmarshalJSON takes an annotator in the typical one-line format and parses it into a Creator struct.
 // This function is also used when unmarshalling YAML
 func (c *Creator) UnmarshalJSON(data []byte) error {
-	str := string(data)
-	str = strings.Trim(str, "\"")
+	str, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 	fields := strings.SplitN(str, ":", 2)
 
 	if len(fields) != 2 {
diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 17396a4..eb548e1 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -27,8 +27,10 @@ func (d DocumentID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates DocumentRef- prefixes and removes them when processing DocumentIDs
 func (d *DocumentID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	documentID, err := trimDocumentIdPrefix(idStr)
 	if err != nil {
@@ -71,8 +73,10 @@ func (d ElementID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates SPDXRef- prefixes and removes them when processing ElementIDs
 func (d *ElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	elementID, err := trimElementIdPrefix(idStr)
 	if err != nil {
@@ -141,8 +145,10 @@ func (d DocElementID) MarshalJSON() ([]byte, error) {
 // This function is also used when unmarshalling YAML
 func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index 0bcbe7d..ca4b528 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -20,8 +20,10 @@ type Supplier struct {
 // This function is also used when unmarshalling YAML
 func (s *Supplier) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	supplierStr := string(data)
-	supplierStr = strings.Trim(supplierStr, "\"")
+	supplierStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	if supplierStr == "NOASSERTION" {
 		s.Supplier = supplierStr
@@ -63,8 +65,10 @@ type Originator struct {
 // This function is also used when unmarshalling YAML
 func (o *Originator) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	originatorStr := string(data)
-	originatorStr = strings.Trim(originatorStr, "\"")
+	originatorStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	if originatorStr == "NOASSERTION" {
 		o.Originator = originatorStr
diff --git a/spdx/v2/common/unmarshal.go b/spdx/v2/common/unmarshal.go
new file mode 100644
index 0000000..50e8716
--- /dev/null
+++ b/spdx/v2/common/unmarshal.go
@@ -0,0 +1,21 @@
+// SPDX-License-Identifier: Apache-2.0 OR GPL-2.0-or-later
+
+package common
+
+import (
+	"encoding/json"
+	"strings"
+)
+
+// unmarshalString returns the text a JSON string value stands for, with its
+// escape sequences resolved. A value that is not a JSON string is taken as is.
+func unmarshalString(data []byte) (string, error) {
+	if len(data) == 0 || data[0] != '"' {
+		return strings.Trim(string(data), "\""), nil
+	}
+	var str string
+	if err := json.Unmarshal(data, &str); err != nil {
+		return "", err
+	}
+	return str, nil
+}
-- 
2.43.0


From 7a068eafa8eb8e9c02230f5c3ebb3fb1ce957989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 05/40] fix: tag-value writer reports the errors of the stream
 it writes to

---
 tagvalue/writer.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/tagvalue/writer.go b/tagvalue/writer.go
index d77bd3a..ab7661a 100644
--- a/tagvalue/writer.go
+++ b/tagvalue/writer.go
@@ -22,13 +22,39 @@ import (
 // if any error is encountered.
 func Write(doc common.AnyDocument, w io.Writer) error {
 	doc = convert.FromPtr(doc)
+	ew := &errWriter{w: w}
+	var err error
 	switch doc := doc.(type) {
 	case v2_1.Document:
-		return v2_1_writer.RenderDocument(&doc, w)
+		err = v2_1_writer.RenderDocument(&doc, ew)
 	case v2_2.Document:
-		return v2_2_writer.RenderDocument(&doc, w)
+		err = v2_2_writer.RenderDocument(&doc, ew)
 	case v2_3.Document:
-		return v2_3_writer.RenderDocument(&doc, w)
+		err = v2_3_writer.RenderDocument(&doc, ew)
+	default:
+		err = fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
 	}
-	return fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
+	if err != nil {
+		return err
+	}
+	return ew.err
+}
+
+// errWriter remembers the first error of the io.Writer it wraps, and writes
+// nothing more once there has been one.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errWriter) Write(p []byte) (int, error) {
+	if e.err != nil {
+		return 0, e.err
+	}
+	n, err := e.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	e.err = err
+	return n, err
 }
-- 
2.43.0


From c38cdd73fb893c8ead6a83e7a5603c1110b04c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 06/40] fix: report generation returns the errors of the stream
 it writes to

---
 reporter/reporter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 7ef32d0..86cfc20 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -5,6 +5,7 @@
 package reporter
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"sort"
@@ -22,7 +23,8 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	totalFound, totalNotFound, foundCounts := countLicenses(pkg)
 
-	wr := tabwriter.NewWriter(w, 0, 0, 2, ' ', tabwriter.AlignRight)
+	var buf bytes.Buffer
+	wr := tabwriter.NewWriter(&buf, 0, 0, 2, ' ', tabwriter.AlignRight)
 
 	fmt.Fprintf(wr, "%d\t  License found\n", totalFound)
 	fmt.Fprintf(wr, "%d\t  License not found\n", totalNotFound)
@@ -50,8 +52,11 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	fmt.Fprintf(wr, "%d\t  TOTAL FOUND\n", totalFound)
 
-	wr.Flush()
-	return nil
+	if err := wr.Flush(); err != nil {
+		return err
+	}
+	_, err := buf.WriteTo(w)
+	return err
 }
 
 func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
-- 
2.43.0


From 005d132218e7a456b04af0fbdba4112585c80832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 07/40] fix: report lists licenses with equal counts in one
 fixed order

---
 reporter/reporter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 86cfc20..bed4a3b 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -45,7 +45,12 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 		counts = append(counts, entry)
 	}
 
-	sort.Slice(counts, func(i, j int) bool { return counts[i].count > counts[j].count })
+	sort.Slice(counts, func(i, j int) bool {
+		if counts[i].count != counts[j].count {
+			return counts[i].count > counts[j].count
+		}
+		return counts[i].lic < counts[j].lic
+	})
 
 	for _, c := range counts {
 		fmt.Fprintf(wr, "%d\t  %s\n", c.count, c.lic)
-- 
2.43.0


From 2f90092a17b775e3ec863734c70c797390fc6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 08/40] fix: tag-value readers read every file name excluded
 from a verification code

---
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 13 ++++++++-----
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 13 ++++++++-----
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 13 ++++++++-----
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 4d4c491..197a463 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -192,12 +192,15 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 		return common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames,
+	// separated by commas, are in second part, with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	names := sp[1]
+	if i := strings.LastIndex(names, ")"); i >= 0 {
+		names = names[:i]
+	}
+	fileNames := strings.Split(strings.TrimSpace(names), ", ")
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index c6a17b0..10bcadd 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -206,12 +206,15 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 		return common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames,
+	// separated by commas, are in second part, with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	names := sp[1]
+	if i := strings.LastIndex(names, ")"); i >= 0 {
+		names = names[:i]
+	}
+	fileNames := strings.Split(strings.TrimSpace(names), ", ")
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index b01fbef..467cef7 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -222,12 +222,15 @@ func extractCodeAndExcludes(value string) *common.PackageVerificationCode {
 		return &common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames,
+	// separated by commas, are in second part, with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return &common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	names := sp[1]
+	if i := strings.LastIndex(names, ")"); i >= 0 {
+		names = names[:i]
+	}
+	fileNames := strings.Split(strings.TrimSpace(names), ", ")
+	return &common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
-- 
2.43.0


From 3eed3fcdbf075c9c83220b45afe08d525fd430cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 09/40] fix: tag-value writers keep white space around a text

---
 spdx/v2/v2_1/tagvalue/writer/util.go | 2 +-
 spdx/v2/v2_2/tagvalue/writer/util.go | 2 +-
 spdx/v2/v2_3/tagvalue/writer/util.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index 5298ee0..5ee7c0b 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -8,7 +8,7 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	if strings.Contains(s, "\n") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index 5298ee0..5ee7c0b 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -8,7 +8,7 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	if strings.Contains(s, "\n") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index 5298ee0..5ee7c0b 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -8,7 +8,7 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	if strings.Contains(s, "\n") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
-- 
2.43.0


From c2516a92697d446162fcaddf835b1f441b354446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 10/40] fix: tag-value reader accepts lines of any length

---
 tagvalue/reader/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tagvalue/reader/reader.go b/tagvalue/reader/reader.go
index 786f7ea..3353345 100644
--- a/tagvalue/reader/reader.go
+++ b/tagvalue/reader/reader.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -22,6 +23,8 @@ func ReadTagValues(content io.Reader) ([]TagValuePair, error) {
 	r := &tvReader{}
 
 	scanner := bufio.NewScanner(content)
+	// a line may be of any length
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		// read each line, one by one
 		err := r.readNextLine(scanner.Text())
-- 
2.43.0


From 0b6548157f5068bc930fc9268134220444995e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 11/40] fix: licence searcher honours ignore patterns for
 specific files and directories

---
 idsearcher/idsearcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 7413bb4..c5e28e4 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -85,7 +85,8 @@ func BuildIDsDocument(packageName string, dirRoot string, idconfig *Config) (*sp
 		f.LicenseConcluded = "NOASSERTION"
 
 		// check whether the searcher should ignore this file
-		if utils.ShouldIgnore(f.FileName, idconfig.SearcherPathsIgnored) {
+		// (patterns are relative to dirRoot and begin with a slash)
+		if utils.ShouldIgnore(strings.TrimPrefix(f.FileName, "."), idconfig.SearcherPathsIgnored) {
 			continue
 		}
 
-- 
2.43.0


From 8d433a4cd0eb47dfde6f634e760de555d2431947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 12/40] fix: licence searcher takes no identifier from a line
 cut off by a read error

---
 idsearcher/idsearcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index c5e28e4..c17a67b 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -155,6 +155,10 @@ func searchFileIDs(filePath string) ([]string, error) {
 	scanner := bufio.NewScanner(f)
 
 	for scanner.Scan() {
+		// what precedes a read error is not a complete line
+		if scanner.Err() != nil {
+			break
+		}
 		if strings.Contains(scanner.Text(), "SPDX-License-Identifier:") {
 			strs := strings.SplitN(scanner.Text(), "SPDX-License-Identifier:", 2)
 
-- 
2.43.0


From 5e0eb00395152c4d715873cf5366642769e8085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 13/40] fix: RDF readers return files outside packages in one
 fixed order

---
 spdx/v2/v2_2/rdf/reader/parse_file.go | 5 ++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 5c83803..760a2ee 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -4,6 +4,8 @@ package reader
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -192,7 +194,8 @@ func (parser *rdfParser2_2) getFileTypeFromUri(uri string) (string, error) {
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
 func (parser *rdfParser2_2) setUnpackagedFiles() {
-	for fileID := range parser.files {
+	// in the order of their identifiers, not in the random order of the map
+	for _, fileID := range slices.Sorted(maps.Keys(parser.files)) {
 		if !parser.assocWithPackage[fileID] {
 			parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index a2158e2..44cb26a 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -4,6 +4,8 @@ package reader
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -200,7 +202,8 @@ func (parser *rdfParser2_3) getFileTypeFromUri(uri string) (string, error) {
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
 func (parser *rdfParser2_3) setUnpackagedFiles() {
-	for fileID := range parser.files {
+	// in the order of their identifiers, not in the random order of the map
+	for _, fileID := range slices.Sorted(maps.Keys(parser.files)) {
 		if !parser.assocWithPackage[fileID] {
 			parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
 		}
-- 
2.43.0


From 02ab2ed918ba96d6739ac6a89c16d642ffb0caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 14/40] fix: RDF reader does not pick one of several
 specVersions at random

---
 rdf/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdf/reader.go b/rdf/reader.go
index 95d59f8..7b48a1d 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -71,8 +71,10 @@ func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	version := ""
 	for _, node := range parser.Triples {
 		if node.Predicate.ID == "http://spdx.org/rdf/terms#specVersion" {
+			if version != "" && version != node.Object.ID {
+				return "", errors.New("RDF document has more than one specVersion")
+			}
 			version = node.Object.ID
-			break
 		}
 	}
 	if version == "" {
-- 
2.43.0


From 2ed803e27422ee595993470a74ade14fb0bb48c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 15/40] fix: licence searcher does not take an empty identifier
 for a licence

---
 idsearcher/idsearcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index c17a67b..328ce27 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -175,6 +175,9 @@ func searchFileIDs(filePath string) ([]string, error) {
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
 			lid := strings.TrimSpace(lidToExtract)
 			lid = stripTrash(lid)
+			if lid == "" {
+				continue
+			}
 			idsMap[lid] = 1
 		}
 	}
-- 
2.43.0


From b792afa5f605c03f27353eb2e5a5a4248b169d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 16/40] fix: licence searcher keeps the colon of a DocumentRef
 identifier

---
 idsearcher/idsearcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 328ce27..2dcbf72 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -201,7 +201,7 @@ func searchFileIDs(filePath string) ([]string, error) {
 }
 
 func stripTrash(lid string) string {
-	re := regexp.MustCompile(`[^\w\s\d.\-\+()]+`)
+	re := regexp.MustCompile(`[^\w\s\d.\-\+():]+`)
 	return re.ReplaceAllString(lid, "")
 }
 
-- 
2.43.0


From b102ec3ac26d01d0dc131b7512f367f58cd43eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 17/40] fix: RDF readers keep the order of the document

---
 spdx/v2/v2_2/rdf/reader/parser.go |  1 +
 spdx/v2/v2_2/rdf/reader/utils.go  | 15 +++++++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go |  1 +
 spdx/v2/v2_3/rdf/reader/utils.go  | 15 +++++++++++++++
 4 files changed, 32 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 2c61491..558040c 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -41,6 +41,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	// for every node in the set of subjects of all the triples,
 	// it provides a list of triples that are associated with that subject node.
 	nodeToTriples := gordfWriter.GetNodeToTriples(gordfParserObj.Triples)
+	restoreTripleOrder(nodeToTriples, gordfParserObj.Triples)
 	parser := NewParser2_2(gordfParserObj, nodeToTriples)
 
 	spdxDocumentNode, err := parser.getSpdxDocNode()
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 25db1fc..21b1d5c 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -51,6 +52,20 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// GetNodeToTriples returns the triples of a node in a random order; put them
+// back in the order in which the document has them.
+func restoreTripleOrder(nodeToTriples map[string][]*gordfParser.Triple, triples []*gordfParser.Triple) {
+	position := make(map[string]int, len(triples))
+	for i, triple := range triples {
+		position[triple.Hash()] = i
+	}
+	for _, nodeTriples := range nodeToTriples {
+		sort.Slice(nodeTriples, func(i, j int) bool {
+			return position[nodeTriples[i].Hash()] < position[nodeTriples[j].Hash()]
+		})
+	}
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 93a382e..e17a8a1 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -41,6 +41,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	// for every node in the set of subjects of all the triples,
 	// it provides a list of triples that are associated with that subject node.
 	nodeToTriples := gordfWriter.GetNodeToTriples(gordfParserObj.Triples)
+	restoreTripleOrder(nodeToTriples, gordfParserObj.Triples)
 	parser := NewParser2_3(gordfParserObj, nodeToTriples)
 
 	spdxDocumentNode, err := parser.getSpdxDocNode()
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index a242589..33904ba 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -51,6 +52,20 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// GetNodeToTriples returns the triples of a node in a random order; put them
+// back in the order in which the document has them.
+func restoreTripleOrder(nodeToTriples map[string][]*gordfParser.Triple, triples []*gordfParser.Triple) {
+	position := make(map[string]int, len(triples))
+	for i, triple := range triples {
+		position[triple.Hash()] = i
+	}
+	for _, nodeTriples := range nodeToTriples {
+		sort.Slice(nodeTriples, func(i, j int) bool {
+			return position[nodeTriples[i].Hash()] < position[nodeTriples[j].Hash()]
+		})
+	}
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
-- 
2.43.0


From 206135bb9b2a8e7638fc81a1289081b3acdb0c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 18/40] fix: rdf: do not list a described package twice

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 8 ++------
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 7629a92..2bed0df 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *v2_2.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// the package is added to the document when it is parsed
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 7601c4d..81144ee 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *spdx.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// the package is added to the document when it is parsed
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
-- 
2.43.0


From d6600e369c8adbd4d3bae79efb8f006da141935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 19/40] fix: rdf: do not repeat the lists of an element that is
 mentioned again

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 5 +++++
 spdx/v2/v2_2/rdf/reader/parse_package.go | 5 +++++
 spdx/v2/v2_2/rdf/reader/parser.go        | 1 +
 spdx/v2/v2_2/rdf/reader/types.go         | 4 ++++
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 5 +++++
 spdx/v2/v2_3/rdf/reader/parse_package.go | 5 +++++
 spdx/v2/v2_3/rdf/reader/parser.go        | 1 +
 spdx/v2/v2_3/rdf/reader/types.go         | 4 ++++
 8 files changed, 30 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 760a2ee..d53c37d 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -50,6 +50,11 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 	}
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if parser.parsedTriples[subTriple] {
+			// the element was mentioned, and parsed, before
+			continue
+		}
+		parser.parsedTriples[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index b369102..4f89ca7 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -57,6 +57,11 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if parser.parsedTriples[subTriple] {
+			// the element was mentioned, and parsed, before
+			continue
+		}
+		parser.parsedTriples[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 558040c..9f746ed 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -30,6 +30,7 @@ func NewParser2_2(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		files:            map[common.ElementID]*v2_2.File{},
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
+		parsedTriples:    map[*gordfParser.Triple]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 2e2d7b0..100f7f6 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -23,6 +23,10 @@ type rdfParser2_2 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// triples of packages and files that are already in the document. an
+	// element that is mentioned more than once is parsed each time.
+	parsedTriples map[*gordfParser.Triple]bool
 }
 
 type Color int
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 44cb26a..ecfc92e 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -50,6 +50,11 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 	}
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if parser.parsedTriples[subTriple] {
+			// the element was mentioned, and parsed, before
+			continue
+		}
+		parser.parsedTriples[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 7b0443b..88a8222 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -57,6 +57,11 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if parser.parsedTriples[subTriple] {
+			// the element was mentioned, and parsed, before
+			continue
+		}
+		parser.parsedTriples[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index e17a8a1..34a9eb8 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -30,6 +30,7 @@ func NewParser2_3(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		files:            map[common.ElementID]*spdx.File{},
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
+		parsedTriples:    map[*gordfParser.Triple]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index 1b0cd1b..d9f6083 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -23,6 +23,10 @@ type rdfParser2_3 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// triples of packages and files that are already in the document. an
+	// element that is mentioned more than once is parsed each time.
+	parsedTriples map[*gordfParser.Triple]bool
 }
 
 type Color int
-- 
2.43.0


From 76dc52ce6832744d8e96afc1f3b78b4171290bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 20/40] fix: rdf: read elements that are referenced and defined
 elsewhere

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 2 +-
 spdx/v2/v2_2/rdf/reader/parse_license.go | 4 ++--
 spdx/v2/v2_2/rdf/reader/parse_package.go | 2 +-
 spdx/v2/v2_2/rdf/reader/utils.go         | 9 +++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 2 +-
 spdx/v2/v2_3/rdf/reader/parse_license.go | 4 ++--
 spdx/v2/v2_3/rdf/reader/parse_package.go | 2 +-
 spdx/v2/v2_3/rdf/reader/utils.go         | 9 +++++++++
 8 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index d53c37d..292d04b 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -49,7 +49,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		file = existingFile
 	}
 
-	for _, subTriple := range parser.nodeToTriples(fileNode) {
+	for _, subTriple := range parser.elementToTriples(fileNode) {
 		if parser.parsedTriples[subTriple] {
 			// the element was mentioned, and parsed, before
 			continue
diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 0f80ed2..252a392 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -189,7 +189,7 @@ func (parser *rdfParser2_2) getDisjunctiveLicenseSetFromNode(node *gordfParser.N
 	licenseSet := DisjunctiveLicenseSet{
 		members: []AnyLicenseInfo{},
 	}
-	for _, triple := range parser.nodeToTriples(node) {
+	for _, triple := range parser.elementToTriples(node) {
 		switch triple.Predicate.ID {
 		case RDF_TYPE:
 			continue
@@ -208,7 +208,7 @@ func (parser *rdfParser2_2) getConjunctiveLicenseSetFromNode(node *gordfParser.N
 	licenseSet := ConjunctiveLicenseSet{
 		members: []AnyLicenseInfo{},
 	}
-	for _, triple := range parser.nodeToTriples(node) {
+	for _, triple := range parser.elementToTriples(node) {
 		switch triple.Predicate.ID {
 		case RDF_TYPE:
 			continue
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 4f89ca7..5bb1879 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -56,7 +56,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 	}
 
 	// iterate over all the triples associated with the provided package packageNode.
-	for _, subTriple := range parser.nodeToTriples(packageNode) {
+	for _, subTriple := range parser.elementToTriples(packageNode) {
 		if parser.parsedTriples[subTriple] {
 			// the element was mentioned, and parsed, before
 			continue
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 21b1d5c..a7ec268 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -52,6 +52,15 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// returns the triples of the element the node stands for: the element itself,
+// or the one that is referenced by rdf:resource.
+func (parser *rdfParser2_2) elementToTriples(node *gordfParser.Node) []*gordfParser.Triple {
+	if node != nil && node.NodeType == gordfParser.RESOURCELITERAL {
+		node = &gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+	}
+	return parser.nodeToTriples(node)
+}
+
 // GetNodeToTriples returns the triples of a node in a random order; put them
 // back in the order in which the document has them.
 func restoreTripleOrder(nodeToTriples map[string][]*gordfParser.Triple, triples []*gordfParser.Triple) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index ecfc92e..94f3c5d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -49,7 +49,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		file = existingFile
 	}
 
-	for _, subTriple := range parser.nodeToTriples(fileNode) {
+	for _, subTriple := range parser.elementToTriples(fileNode) {
 		if parser.parsedTriples[subTriple] {
 			// the element was mentioned, and parsed, before
 			continue
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index ae50105..047f4fd 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -189,7 +189,7 @@ func (parser *rdfParser2_3) getDisjunctiveLicenseSetFromNode(node *gordfParser.N
 	licenseSet := DisjunctiveLicenseSet{
 		members: []AnyLicenseInfo{},
 	}
-	for _, triple := range parser.nodeToTriples(node) {
+	for _, triple := range parser.elementToTriples(node) {
 		switch triple.Predicate.ID {
 		case RDF_TYPE:
 			continue
@@ -208,7 +208,7 @@ func (parser *rdfParser2_3) getConjunctiveLicenseSetFromNode(node *gordfParser.N
 	licenseSet := ConjunctiveLicenseSet{
 		members: []AnyLicenseInfo{},
 	}
-	for _, triple := range parser.nodeToTriples(node) {
+	for _, triple := range parser.elementToTriples(node) {
 		switch triple.Predicate.ID {
 		case RDF_TYPE:
 			continue
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 88a8222..501fdc8 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -56,7 +56,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 	}
 
 	// iterate over all the triples associated with the provided package packageNode.
-	for _, subTriple := range parser.nodeToTriples(packageNode) {
+	for _, subTriple := range parser.elementToTriples(packageNode) {
 		if parser.parsedTriples[subTriple] {
 			// the element was mentioned, and parsed, before
 			continue
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index 33904ba..4b7eb0e 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -52,6 +52,15 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// returns the triples of the element the node stands for: the element itself,
+// or the one that is referenced by rdf:resource.
+func (parser *rdfParser2_3) elementToTriples(node *gordfParser.Node) []*gordfParser.Triple {
+	if node != nil && node.NodeType == gordfParser.RESOURCELITERAL {
+		node = &gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+	}
+	return parser.nodeToTriples(node)
+}
+
 // GetNodeToTriples returns the triples of a node in a random order; put them
 // back in the order in which the document has them.
 func restoreTripleOrder(nodeToTriples map[string][]*gordfParser.Triple, triples []*gordfParser.Triple) {
-- 
2.43.0


From 01b76f891c4def668f93aeeb224afa3cc5d14273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 21/40] fix: rdf: keep every range of a snippet, and its file
 whatever the order

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 19 +++++++++++++------
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index bafb4dd..4399bb7 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -73,6 +73,12 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+
+	// the ranges may come before the file in the document
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -137,18 +143,19 @@ func (parser *rdfParser2_2) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 10f9be7..4eda82f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -70,6 +70,12 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+
+	// the ranges may come before the file in the document
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -134,18 +140,19 @@ func (parser *rdfParser2_3) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
-- 
2.43.0


From 3272a94c10a2450dacf99ef9c6420c009a551e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 22/40] fix: rdf: keep the structure of nested licence sets

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 20 ++++++++++++++++----
 spdx/v2/v2_3/rdf/reader/license_utils.go | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 87633a0..9405eba 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -80,14 +80,26 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// a set of the other kind among the members is written in parentheses
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	res := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, ok := member.(DisjunctiveLicenseSet); ok && len(set.members) > 1 {
+			res[i] = "(" + res[i] + ")"
+		}
+	}
+	return strings.Join(res, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
+// a set of the other kind among the members is written in parentheses
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
+	res := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, ok := member.(ConjunctiveLicenseSet); ok && len(set.members) > 1 {
+			res[i] = "(" + res[i] + ")"
+		}
+	}
+	return strings.Join(res, " OR ")
 }
 
 func (lic ExtractedLicensingInfo) ToLicenseString() string {
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 0faa740..edf6f5e 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -80,14 +80,26 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// a set of the other kind among the members is written in parentheses
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	res := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, ok := member.(DisjunctiveLicenseSet); ok && len(set.members) > 1 {
+			res[i] = "(" + res[i] + ")"
+		}
+	}
+	return strings.Join(res, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
+// a set of the other kind among the members is written in parentheses
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
+	res := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, ok := member.(ConjunctiveLicenseSet); ok && len(set.members) > 1 {
+			res[i] = "(" + res[i] + ")"
+		}
+	}
+	return strings.Join(res, " OR ")
 }
 
 func (lic ExtractedLicensingInfo) ToLicenseString() string {
-- 
2.43.0


From 46d9bc0a4b7557f9da9c33e4f503648745352379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 23/40] fix: rdf: keep the exception of a licence

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 3 +++
 spdx/v2/v2_3/rdf/reader/license_utils.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 9405eba..90cf22b 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -119,6 +119,9 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
+	if lic.licenseException.licenseExceptionId != "" {
+		return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
+	}
 	return lic.member.ToLicenseString()
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index edf6f5e..b82ae92 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -119,6 +119,9 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
+	if lic.licenseException.licenseExceptionId != "" {
+		return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
+	}
 	return lic.member.ToLicenseString()
 }
 
-- 
2.43.0


From ed51edc6037fc395f28e91a8749dda66c9c67f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 24/40] fix: rdf: keep the element that an annotation is about

---
 spdx/v2/v2_2/rdf/reader/parse_annotation.go    | 11 +++++++++++
 spdx/v2/v2_2/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_annotation.go    | 11 +++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go |  2 +-
 8 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_annotation.go b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
index bbbfc62..0249dee 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
+	"github.com/spdx/tools-golang/spdx/v2/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
 )
 
@@ -42,6 +43,16 @@ func (parser *rdfParser2_2) parseAnnotationFromNode(node *gordfParser.Node) (err
 	return setAnnotationToParser(parser, ann)
 }
 
+// parses an annotation of the element with the given id.
+func (parser *rdfParser2_2) parseAnnotationOf(elementID common.ElementID, node *gordfParser.Node) error {
+	if err := parser.parseAnnotationFromNode(node); err != nil {
+		return err
+	}
+	ann := parser.doc.Annotations[len(parser.doc.Annotations)-1]
+	ann.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: elementID}
+	return nil
+}
+
 func setAnnotationToParser(parser *rdfParser2_2, annotation *v2_2.Annotation) error {
 	if parser.doc == nil {
 		return errors.New("uninitialized spdx document")
diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 292d04b..5176e8a 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -122,7 +122,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(file.FileSPDXIdentifier, subTriple.Object)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 5bb1879..36c9bdd 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -157,7 +157,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(pkg.PackageSPDXIdentifier, subTriple.Object)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 2bed0df..64aa7e0 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -76,7 +76,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(parser.doc.SPDXIdentifier, subTriple.Object)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_annotation.go b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
index 012bcf5..c16b615 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
+	"github.com/spdx/tools-golang/spdx/v2/common"
 	spdx "github.com/spdx/tools-golang/spdx/v2/v2_3"
 )
 
@@ -42,6 +43,16 @@ func (parser *rdfParser2_3) parseAnnotationFromNode(node *gordfParser.Node) (err
 	return setAnnotationToParser(parser, ann)
 }
 
+// parses an annotation of the element with the given id.
+func (parser *rdfParser2_3) parseAnnotationOf(elementID common.ElementID, node *gordfParser.Node) error {
+	if err := parser.parseAnnotationFromNode(node); err != nil {
+		return err
+	}
+	ann := parser.doc.Annotations[len(parser.doc.Annotations)-1]
+	ann.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: elementID}
+	return nil
+}
+
 func setAnnotationToParser(parser *rdfParser2_3, annotation *spdx.Annotation) error {
 	if parser.doc == nil {
 		return errors.New("uninitialized spdx document")
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 94f3c5d..6c0c2a0 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -122,7 +122,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(file.FileSPDXIdentifier, subTriple.Object)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 501fdc8..3d80d56 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -169,7 +169,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(pkg.PackageSPDXIdentifier, subTriple.Object)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 81144ee..4edc20e 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -76,7 +76,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(parser.doc.SPDXIdentifier, subTriple.Object)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
-- 
2.43.0


From 67244e99e12c198d12d7e8a14d32a3ebab89ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 25/40] fix: rdf: read the primary package purpose given as a
 resource

---
 spdx/v2/v2_3/rdf/reader/parse_package.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 3d80d56..6af999a 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -228,7 +228,9 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 }
 
 func getPrimaryPackagePurpose(purpose string) string {
-	value := strings.ReplaceAll(purpose, "packagePurpose_", "")
+	value := getLastPartOfURI(strings.TrimSpace(purpose))
+	value = strings.TrimPrefix(value, "packagePurpose_")
+	value = strings.TrimPrefix(value, "purpose_")
 	value = strings.ReplaceAll(value, "_", "-")
 	value = strings.ToUpper(value)
 	switch value {
-- 
2.43.0


From f21dfefe04b73cb2e7a10b046609d93134d0fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 26/40] fix: rdf: read packages and files that nothing else
 contains

---
 spdx/v2/v2_2/rdf/reader/parser.go | 39 +++++++++++++++++++++++++++++--
 spdx/v2/v2_3/rdf/reader/parser.go | 39 +++++++++++++++++++++++++++++--
 2 files changed, 74 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 9f746ed..d514b7b 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"sort"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	gordfWriter "github.com/spdx/gordf/rdfwriter"
@@ -55,8 +56,11 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		return nil, err
 	}
 
-	// parsing other root elements
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	// parsing other root elements, in the order of their identifiers and not
+	// in the random order in which they are found
+	rootNodes := gordfWriter.GetRootNodes(parser.gordfParserObj.Triples)
+	sort.SliceStable(rootNodes, func(i, j int) bool { return rootNodes[i].ID < rootNodes[j].ID })
+	for _, rootNode := range rootNodes {
 		typeTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, &rootNode.ID, &RDF_TYPE, nil)
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
@@ -81,6 +85,11 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		}
 	}
 
+	err = parser.parseRemainingElements()
+	if err != nil {
+		return nil, err
+	}
+
 	// parsing packages and files sets the files to a files variable which is
 	// associated with the parser and not the document. following method is
 	// necessary to transfer the files which are not set in the packages to the
@@ -90,6 +99,32 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	return parser.doc, nil
 }
 
+// parses the packages and files that the document states but that nothing
+// reached so far refers to.
+func (parser *rdfParser2_2) parseRemainingElements() error {
+	typeTriples := gordfWriter.FilterTriples(parser.gordfParserObj.Triples, nil, &RDF_TYPE, nil)
+	// the triples come in a random order
+	sort.SliceStable(typeTriples, func(i, j int) bool {
+		return typeTriples[i].Subject.ID < typeTriples[j].Subject.ID
+	})
+	for _, triple := range typeTriples {
+		if parser.cache[triple.Subject.ID] != nil {
+			continue // it is already parsed.
+		}
+		switch triple.Object.ID {
+		case SPDX_PACKAGE:
+			if _, err := parser.getPackageFromNode(triple.Subject); err != nil {
+				return fmt.Errorf("error parsing a package: %v", err)
+			}
+		case SPDX_FILE:
+			if _, err := parser.getFileFromNode(triple.Subject); err != nil {
+				return fmt.Errorf("error parsing a file: %v", err)
+			}
+		}
+	}
+	return nil
+}
+
 // from the given parser object, returns the SpdxDocument Node defined in the root elements.
 // returns error if the document is associated with no SpdxDocument or
 // associated with more than one SpdxDocument node.
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 34a9eb8..6f97af9 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"sort"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	gordfWriter "github.com/spdx/gordf/rdfwriter"
@@ -55,8 +56,11 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		return nil, err
 	}
 
-	// parsing other root elements
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	// parsing other root elements, in the order of their identifiers and not
+	// in the random order in which they are found
+	rootNodes := gordfWriter.GetRootNodes(parser.gordfParserObj.Triples)
+	sort.SliceStable(rootNodes, func(i, j int) bool { return rootNodes[i].ID < rootNodes[j].ID })
+	for _, rootNode := range rootNodes {
 		typeTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, &rootNode.ID, &RDF_TYPE, nil)
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
@@ -81,6 +85,11 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		}
 	}
 
+	err = parser.parseRemainingElements()
+	if err != nil {
+		return nil, err
+	}
+
 	// parsing packages and files sets the files to a files variable which is
 	// associated with the parser and not the document. following method is
 	// necessary to transfer the files which are not set in the packages to the
@@ -90,6 +99,32 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	return parser.doc, nil
 }
 
+// parses the packages and files that the document states but that nothing
+// reached so far refers to.
+func (parser *rdfParser2_3) parseRemainingElements() error {
+	typeTriples := gordfWriter.FilterTriples(parser.gordfParserObj.Triples, nil, &RDF_TYPE, nil)
+	// the triples come in a random order
+	sort.SliceStable(typeTriples, func(i, j int) bool {
+		return typeTriples[i].Subject.ID < typeTriples[j].Subject.ID
+	})
+	for _, triple := range typeTriples {
+		if parser.cache[triple.Subject.ID] != nil {
+			continue // it is already parsed.
+		}
+		switch triple.Object.ID {
+		case SPDX_PACKAGE:
+			if _, err := parser.getPackageFromNode(triple.Subject); err != nil {
+				return fmt.Errorf("error parsing a package: %v", err)
+			}
+		case SPDX_FILE:
+			if _, err := parser.getFileFromNode(triple.Subject); err != nil {
+				return fmt.Errorf("error parsing a file: %v", err)
+			}
+		}
+	}
+	return nil
+}
+
 // from the given parser object, returns the SpdxDocument Node defined in the root elements.
 // returns error if the document is associated with no SpdxDocument or
 // associated with more than one SpdxDocument node.
-- 
2.43.0


From 4a077d6b6e31109fe28ca61313adfd0bc2a71116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 27/40] fix: rdf: decode character references and CDATA
 sections

---
 rdf/reader.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/rdf/reader.go b/rdf/reader.go
index 7b48a1d..5e732da 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -4,9 +4,11 @@ package rdf
 
 import (
 	"bytes"
+	"encoding/xml"
 	"errors"
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/spdx/gordf/rdfloader"
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -45,6 +47,8 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		return err
 	}
 
+	decodeNodes(rdfParserObj.Triples)
+
 	version, err := getSpdxVersion(rdfParserObj)
 	if err != nil {
 		return err
@@ -67,6 +71,35 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	return convert.Document(data.(common.AnyDocument), doc)
 }
 
+// the RDF loader returns texts and attribute values as they are written in the
+// file, with references to characters and in CDATA sections
+func decodeNodes(triples []*gordfParser.Triple) {
+	decoded := map[*gordfParser.Node]bool{}
+	for _, triple := range triples {
+		for _, node := range []*gordfParser.Node{triple.Subject, triple.Object} {
+			if !decoded[node] {
+				decoded[node] = true
+				node.ID = decodeText(node.ID)
+			}
+		}
+	}
+}
+
+// returns the text that is written in an XML file as the given string
+func decodeText(written string) string {
+	if text, ok := strings.CutPrefix(written, "<![CDATA["); ok {
+		return strings.TrimSuffix(text, "]]>")
+	}
+	if !strings.Contains(written, "&") {
+		return written
+	}
+	var text string
+	if err := xml.Unmarshal([]byte("<text>"+written+"</text>"), &text); err != nil {
+		return written
+	}
+	return text
+}
+
 func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	version := ""
 	for _, node := range parser.Triples {
-- 
2.43.0


From e074a82eea553644a290069d2274b4b5e30d438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 28/40] fix: rdf: read identifiers of documents without their
 prefixes

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 7 ++++---
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 64aa7e0..e442dae 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -92,7 +93,7 @@ func (parser *rdfParser2_2) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 4edc20e..d34d917 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -92,7 +93,7 @@ func (parser *rdfParser2_3) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
-- 
2.43.0


From 909c59df64d2176de97981190a5ba1ae0fa19489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 29/40] fix: rdf: read characters outside ASCII

---
 rdf/reader.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rdf/reader.go b/rdf/reader.go
index 5e732da..12f3e78 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/spdx/gordf/rdfloader"
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -90,6 +91,7 @@ func decodeText(written string) string {
 	if text, ok := strings.CutPrefix(written, "<![CDATA["); ok {
 		return strings.TrimSuffix(text, "]]>")
 	}
+	written = joinBytes(written)
 	if !strings.Contains(written, "&") {
 		return written
 	}
@@ -100,6 +102,22 @@ func decodeText(written string) string {
 	return text
 }
 
+// the RDF loader takes every byte of a text for a character; returns the text
+// whose UTF-8 encoding these bytes are
+func joinBytes(written string) string {
+	text := make([]byte, 0, len(written))
+	for _, r := range written {
+		if r > 0xff {
+			return written
+		}
+		text = append(text, byte(r))
+	}
+	if !utf8.Valid(text) {
+		return written
+	}
+	return string(text)
+}
+
 func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	version := ""
 	for _, node := range parser.Triples {
-- 
2.43.0


From 4f61fdef4cb66998386335622ae7fc9a7d828039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 30/40] fix: rdf: load triples without goroutines that share
 state

The parser of gordf visits the blocks of a document in goroutines that share an
error variable and the counter of blank nodes without a lock: errors got lost,
blank nodes got the same name, and a name that could not be resolved ended the
process.
---
 rdf/loader.go | 174 ++++++++++++++++++++++++++++++++++++++++++++++++++
 rdf/reader.go |   3 +-
 2 files changed, 175 insertions(+), 2 deletions(-)
 create mode 100644 rdf/loader.go

diff --git a/rdf/loader.go b/rdf/loader.go
new file mode 100644
index 0000000..d78cd6e
--- /dev/null
+++ b/rdf/loader.go
@@ -0,0 +1,174 @@
+// SPDX-License-Identifier: Apache-2.0 OR GPL-2.0-or-later
+
+package rdf
+
+import (
+	"bufio"
+	"fmt"
+	"io"
+	"strings"
+
+	gordfParser "github.com/spdx/gordf/rdfloader/parser"
+	xmlreader "github.com/spdx/gordf/rdfloader/xmlreader"
+	"github.com/spdx/gordf/uri"
+)
+
+// loader collects the triples of an RDF/XML document. It does what the parser
+// of gordf does, one block after the other: that one visits every block in a
+// goroutine of its own, and these share an error variable and the counter of
+// blank nodes without a lock, so that errors got lost, two blank nodes got one
+// name, and a block whose name could not be resolved ended the process.
+type loader struct {
+	parser     *gordfParser.Parser
+	blankNodes gordfParser.BlankNodeGetter
+	subjects   map[string]*gordfParser.Node
+	known      map[string]bool
+}
+
+// load returns a gordf parser that holds the triples of the given document
+func load(content io.Reader) (*gordfParser.Parser, error) {
+	reader := xmlreader.XMLReaderFromFileObject(bufio.NewReader(content))
+	root, err := reader.Read()
+	if err != nil {
+		return nil, err
+	}
+	l := loader{
+		parser:   gordfParser.New(),
+		subjects: map[string]*gordfParser.Node{},
+		known:    map[string]bool{},
+	}
+	// without children, this only reads the name spaces
+	err = l.parser.Parse(xmlreader.Block{OpeningTag: root.OpeningTag})
+	if err != nil {
+		return nil, err
+	}
+	namespace := l.parser.SchemaDefinition[""]
+	if err = l.loadNodes(root.Children, namespace.String(), nil); err != nil {
+		return nil, err
+	}
+	return l.parser, nil
+}
+
+// loadNodes loads node elements, and calls found for the node of each
+func (l *loader) loadNodes(blocks []*xmlreader.Block, base string, found func(*gordfParser.Node)) error {
+	for _, block := range blocks {
+		node, err := l.nodeOf(block.OpeningTag, base)
+		if err != nil {
+			return err
+		}
+		if found != nil {
+			found(node)
+		}
+		if err = l.loadBlock(block, node, base); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// loadBlock loads the type and the properties of a node, and all below them
+func (l *loader) loadBlock(block *xmlreader.Block, node *gordfParser.Node, base string) error {
+	if subject, ok := l.subjects[node.String()]; ok {
+		node = subject
+	} else {
+		l.subjects[node.String()] = node
+	}
+	for _, attr := range block.OpeningTag.Attrs {
+		if attr.SchemaName == "" && attr.Name == "xmlns" {
+			base = attr.Value
+			break
+		}
+	}
+	nodeType, err := l.resolve(block.OpeningTag.SchemaName, block.OpeningTag.Name)
+	if err != nil {
+		return err
+	}
+	l.add(node, gordfParser.RDFNS+"type", &gordfParser.Node{NodeType: gordfParser.IRI, ID: nodeType})
+
+	for _, property := range block.Children {
+		tag := property.OpeningTag
+		predicate, err := l.resolve(tag.SchemaName, tag.Name)
+		if err != nil {
+			return err
+		}
+		if len(property.Children) > 0 {
+			err = l.loadNodes(property.Children, base, func(object *gordfParser.Node) {
+				l.add(node, predicate, object)
+			})
+			if err != nil {
+				return err
+			}
+			continue
+		}
+		object := &gordfParser.Node{NodeType: gordfParser.LITERAL, ID: property.Value}
+		if i := l.attribute(tag, "resource"); i >= 0 {
+			object = &gordfParser.Node{NodeType: gordfParser.RESOURCELITERAL, ID: tag.Attrs[i].Value}
+		} else if i := l.attribute(tag, "nodeID"); i >= 0 {
+			object = &gordfParser.Node{NodeType: gordfParser.NODEIDLITERAL, ID: l.blankNodes.GetFromId(tag.Attrs[i].Value).ID}
+		}
+		l.add(node, predicate, object)
+	}
+	return nil
+}
+
+// nodeOf returns the node that an element with the given tag describes
+func (l *loader) nodeOf(tag xmlreader.Tag, base string) (*gordfParser.Node, error) {
+	id := ""
+	if i := l.attribute(tag, "ID"); i >= 0 {
+		id = "#" + tag.Attrs[i].Value
+	} else if i := l.attribute(tag, "about"); i >= 0 {
+		id = tag.Attrs[i].Value
+	} else {
+		node := l.blankNodes.Get()
+		if i := l.attribute(tag, "nodeID"); i >= 0 {
+			node = l.blankNodes.GetFromId(tag.Attrs[i].Value)
+		}
+		return &node, nil
+	}
+	if strings.HasPrefix(id, "#") {
+		baseURI, err := uri.NewURIRef(base)
+		if err != nil {
+			return nil, err
+		}
+		resolved := baseURI.AddFragment(id)
+		id = resolved.String()
+	}
+	return &gordfParser.Node{NodeType: gordfParser.IRI, ID: id}, nil
+}
+
+// attribute returns the index of the given attribute of the name space rdf, or -1
+func (l *loader) attribute(tag xmlreader.Tag, name string) int {
+	for i, attr := range tag.Attrs {
+		resolved, err := l.resolve(attr.SchemaName, attr.Name)
+		if err != nil {
+			break
+		}
+		if resolved == gordfParser.RDFNS+name {
+			return i
+		}
+	}
+	return -1
+}
+
+// resolve returns the URI that a name with a prefix stands for
+func (l *loader) resolve(prefix, name string) (string, error) {
+	namespace, ok := l.parser.SchemaDefinition[prefix]
+	if !ok {
+		return "", fmt.Errorf("undefined schema name: %v", prefix)
+	}
+	resolved := namespace.AddFragment(name)
+	return resolved.String(), nil
+}
+
+// add adds a triple, unless it is known already
+func (l *loader) add(subject *gordfParser.Node, predicate string, object *gordfParser.Node) {
+	triple := &gordfParser.Triple{
+		Subject:   subject,
+		Predicate: &gordfParser.Node{NodeType: gordfParser.IRI, ID: predicate},
+		Object:    object,
+	}
+	if hash := triple.Hash(); !l.known[hash] {
+		l.known[hash] = true
+		l.parser.Triples = append(l.parser.Triples, triple)
+	}
+}
diff --git a/rdf/reader.go b/rdf/reader.go
index 12f3e78..ab8ad9d 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -11,7 +11,6 @@ import (
 	"strings"
 	"unicode/utf8"
 
-	"github.com/spdx/gordf/rdfloader"
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/convert"
 	"github.com/spdx/tools-golang/spdx"
@@ -43,7 +42,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		return err
 	}
 
-	rdfParserObj, err := rdfloader.LoadFromReaderObject(bytes.NewReader(buf))
+	rdfParserObj, err := load(bytes.NewReader(buf))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5ea95e9e7cbd2bad9c78f0362fad95b1a1c30881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 31/40] fix: json: refuse an object or a list where an agent's
 name is expected

---
 spdx/v2/common/unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdx/v2/common/unmarshal.go b/spdx/v2/common/unmarshal.go
index 50e8716..800cb8e 100644
--- a/spdx/v2/common/unmarshal.go
+++ b/spdx/v2/common/unmarshal.go
@@ -4,12 +4,16 @@ package common
 
 import (
 	"encoding/json"
+	"fmt"
 	"strings"
 )
 
 // unmarshalString returns the text a JSON string value stands for, with its
 // escape sequences resolved. A value that is not a JSON string is taken as is.
 func unmarshalString(data []byte) (string, error) {
+	if len(data) > 0 && (data[0] == '{' || data[0] == '[') {
+		return "", fmt.Errorf("expected a string, got %s", data)
+	}
 	if len(data) == 0 || data[0] != '"' {
 		return strings.Trim(string(data), "\""), nil
 	}
-- 
2.43.0


From ec765d9126b1fe60c7fed8dd7a05df22d577cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 32/40] fix: spdxlib: only packages of the document are
 described packages, each once

---
 spdxlib/described_elements.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/spdxlib/described_elements.go b/spdxlib/described_elements.go
index 5a72781..f9ab18e 100644
--- a/spdxlib/described_elements.go
+++ b/spdxlib/described_elements.go
@@ -37,13 +37,28 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 		return nil, fmt.Errorf("multiple Packages in Document but Relationships slice is nil")
 	}
 
+	isPackage := map[common.ElementID]bool{}
+	for _, pkg := range doc.Packages {
+		isPackage[pkg.PackageSPDXIdentifier] = true
+	}
+
+	// returns the ID if it is one of this document's packages, the first time
+	// it is seen; what is described may also be a file or be somewhere else
+	packageID := func(id common.DocElementID) *common.ElementID {
+		if id.DocumentRefID != "" || !isPackage[id.ElementRefID] {
+			return nil
+		}
+		delete(isPackage, id.ElementRefID)
+		return &id.ElementRefID
+	}
+
 	eIDs, err := FilterRelationships(doc, func(relationship *spdx.Relationship) *common.ElementID {
 		refDocument := common.MakeDocElementID("", "DOCUMENT")
 
 		if relationship.Relationship == "DESCRIBES" && relationship.RefA == refDocument {
-			return &relationship.RefB.ElementRefID
+			return packageID(relationship.RefB)
 		} else if relationship.Relationship == "DESCRIBED_BY" && relationship.RefB == refDocument {
-			return &relationship.RefA.ElementRefID
+			return packageID(relationship.RefA)
 		}
 
 		return nil
@@ -53,7 +68,7 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 	}
 
 	if len(eIDs) == 0 {
-		return nil, fmt.Errorf("no DESCRIBES or DESCRIBED_BY relationships found for this Document")
+		return nil, fmt.Errorf("no DESCRIBES or DESCRIBED_BY relationships with Packages found for this Document")
 	}
 
 	eIDs = SortElementIDs(eIDs)
-- 
2.43.0


From 452478a8f1fc847862a13b051ee7041c98c009a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 33/40] fix: spdxlib: validation knows files of packages,
 snippets, other documents' elements and NONE

---
 spdxlib/documents.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/spdxlib/documents.go b/spdxlib/documents.go
index a6a34ca..382b28b 100644
--- a/spdxlib/documents.go
+++ b/spdxlib/documents.go
@@ -9,29 +9,41 @@ import (
 )
 
 // ValidateDocument returns an error if the Document is found to be invalid, or nil if the Document is valid.
-// Currently, this only verifies that all Element IDs mentioned in Relationships exist in the Document as either a
-// Package or an UnpackagedFile.
+// Currently, this only verifies that all Element IDs mentioned in Relationships exist in the Document as a Package, a
+// File or a Snippet. Elements of other documents and NONE and NOASSERTION are not looked for.
 func ValidateDocument(doc *spdx.Document) error {
 	// cache a map of package IDs for quick lookups
 	validElementIDs := make(map[common.ElementID]bool)
+	addFiles := func(files []*spdx.File) {
+		for _, file := range files {
+			validElementIDs[file.FileSPDXIdentifier] = true
+			for snippetID := range file.Snippets {
+				validElementIDs[snippetID] = true
+			}
+		}
+	}
 	for _, docPackage := range doc.Packages {
 		validElementIDs[docPackage.PackageSPDXIdentifier] = true
+		addFiles(docPackage.Files)
 	}
 
-	for _, unpackagedFile := range doc.Files {
-		validElementIDs[unpackagedFile.FileSPDXIdentifier] = true
+	addFiles(doc.Files)
+
+	for _, snippet := range doc.Snippets {
+		validElementIDs[snippet.SnippetSPDXIdentifier] = true
 	}
 
 	// add the Document element ID
 	validElementIDs[common.MakeDocElementID("", "DOCUMENT").ElementRefID] = true
 
 	for _, relationship := range doc.Relationships {
-		if !validElementIDs[relationship.RefA.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefA.ElementRefID))
-		}
-
-		if !validElementIDs[relationship.RefB.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefB.ElementRefID))
+		for _, ref := range []common.DocElementID{relationship.RefA, relationship.RefB} {
+			if ref.DocumentRefID != "" || ref.SpecialID != "" {
+				continue
+			}
+			if !validElementIDs[ref.ElementRefID] {
+				return fmt.Errorf("%s used in relationship but no such element exists", string(ref.ElementRefID))
+			}
 		}
 	}
 
-- 
2.43.0


From 0c04b3c326d22828a7632977115618dd9b5a4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 34/40] fix: rdf: keep the or-later sign, and licences and
 exceptions of operators given by URI

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 17 +++++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_license.go | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 252a392..010cdb2 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -72,6 +72,11 @@ func (parser *rdfParser2_2) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_2) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		// just the uri of a listed exception was found.
+		exception.licenseExceptionId = getLicenseStringFromURI(node.ID)
+		return exception, nil
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
@@ -101,6 +106,14 @@ func (parser *rdfParser2_2) getLicenseExceptionFromNode(node *gordfParser.Node)
 
 func (parser *rdfParser2_2) getSimpleLicensingInfoFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
 	simpleLicensingTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(simpleLicensingTriples) == 0 {
+		// just a license uri string was found.
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		if err != nil {
+			return SimpleLicensingInfo{}, err
+		}
+		return SimpleLicensingInfo{licenseID: lic.ToLicenseString()}, nil
+	}
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
@@ -149,6 +162,10 @@ func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
+			if operator.member.licenseID != "" {
+				// "this version or later" is written with a plus sign
+				operator.member.licenseID += "+"
+			}
 		default:
 			return operator, fmt.Errorf("unknown predicate %s", triple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index 047f4fd..f88a51d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -72,6 +72,11 @@ func (parser *rdfParser2_3) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_3) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		// just the uri of a listed exception was found.
+		exception.licenseExceptionId = getLicenseStringFromURI(node.ID)
+		return exception, nil
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
@@ -101,6 +106,14 @@ func (parser *rdfParser2_3) getLicenseExceptionFromNode(node *gordfParser.Node)
 
 func (parser *rdfParser2_3) getSimpleLicensingInfoFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
 	simpleLicensingTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(simpleLicensingTriples) == 0 {
+		// just a license uri string was found.
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		if err != nil {
+			return SimpleLicensingInfo{}, err
+		}
+		return SimpleLicensingInfo{licenseID: lic.ToLicenseString()}, nil
+	}
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
@@ -149,6 +162,10 @@ func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
+			if operator.member.licenseID != "" {
+				// "this version or later" is written with a plus sign
+				operator.member.licenseID += "+"
+			}
 		default:
 			return operator, fmt.Errorf("unknown predicate %s", triple.Predicate.ID)
 		}
-- 
2.43.0


From 87765d60b6e186c45dc71ed2e9cec5f5cec4b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 35/40] fix: rdf: read a copyright text given as the resource
 none or noassertion

---
 spdx/v2/v2_2/rdf/reader/parse_file.go         | 18 ++++++++++++++++--
 spdx/v2/v2_2/rdf/reader/parse_package.go      |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_file.go         | 18 ++++++++++++++++--
 spdx/v2/v2_3/rdf/reader/parse_package.go      |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go |  2 +-
 6 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 5176e8a..014ce99 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -89,10 +89,9 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
@@ -225,3 +224,18 @@ func getNoticeTextFromNode(node *gordfParser.Node) string {
 		return node.ID
 	}
 }
+
+// a copyright text is a literal or one of the special values, as a resource
+func getCopyrightTextFromNode(node *gordfParser.Node) string {
+	if node.NodeType == gordfParser.LITERAL {
+		return node.ID
+	}
+	switch node.ID {
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	default:
+		return node.ID
+	}
+}
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 36c9bdd..a703c5a 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -125,7 +125,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 3.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_SUMMARY: // 3.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index 4399bb7..d5a5656 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -57,7 +57,7 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getCopyrightTextFromNode(siTriple.Object)
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 6c0c2a0..47be3e5 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -89,10 +89,9 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
@@ -233,3 +232,18 @@ func getNoticeTextFromNode(node *gordfParser.Node) string {
 		return node.ID
 	}
 }
+
+// a copyright text is a literal or one of the special values, as a resource
+func getCopyrightTextFromNode(node *gordfParser.Node) string {
+	if node.NodeType == gordfParser.LITERAL {
+		return node.ID
+	}
+	switch node.ID {
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	default:
+		return node.ID
+	}
+}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 6af999a..12ec703 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -125,7 +125,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 7.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_SUMMARY: // 7.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 4eda82f..4d01b5f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -54,7 +54,7 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getCopyrightTextFromNode(siTriple.Object)
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
-- 
2.43.0


From 5bae9c523ef09f5f385ec69b3fe95680bea28aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:46 +0000
Subject: [PATCH 36/40] fix: convert: keep list elements without content
 instead of leaving nil ones

---
 convert/chain.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/convert/chain.go b/convert/chain.go
index e1607ec..d06e9c5 100644
--- a/convert/chain.go
+++ b/convert/chain.go
@@ -36,5 +36,33 @@ func Document(from common.AnyDocument, to common.AnyDocument) error {
 		reflect.ValueOf(to).Elem().Set(reflect.ValueOf(from))
 		return nil
 	}
-	return DocumentChain().Convert(from, to)
+	err := DocumentChain().Convert(from, to)
+	if err == nil {
+		fillNil(reflect.ValueOf(to))
+	}
+	return err
+}
+
+// fillNil replaces the nil elements of all lists that can be reached from v,
+// which is what the conversion makes of elements without content, by empty ones.
+func fillNil(v reflect.Value) {
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		fillNil(v.Elem())
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			fillNil(v.Field(i))
+		}
+	case reflect.Map:
+		for _, k := range v.MapKeys() {
+			fillNil(v.MapIndex(k))
+		}
+	case reflect.Slice:
+		for i := 0; i < v.Len(); i++ {
+			if e := v.Index(i); e.Kind() == reflect.Ptr && e.IsNil() {
+				e.Set(reflect.New(e.Type().Elem()))
+			}
+			fillNil(v.Index(i))
+		}
+	}
 }
-- 
2.43.0


From 3cc348e752faeb67bbbf2dcee9942a6dfce29aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 37/40] fix: json, yaml: ignore null elements of lists instead
 of returning nil ones

---
 convert/struct.go | 37 +++++++++++++++++++++++++++++++++++++
 json/reader.go    |  9 ++++++---
 yaml/reader.go    |  9 ++++++---
 3 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/convert/struct.go b/convert/struct.go
index 7223dbd..7d1e600 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -26,6 +26,43 @@ func IsPtr(obj common.AnyDocument) bool {
 	return t.Kind() == reflect.Ptr
 }
 
+// RemoveNil removes the nil elements from all lists that can be reached from the
+// document that doc points to.
+func RemoveNil(doc common.AnyDocument) {
+	removeNil(reflect.ValueOf(doc))
+}
+
+func removeNil(v reflect.Value) {
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		removeNil(v.Elem())
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			removeNil(v.Field(i))
+		}
+	case reflect.Map:
+		for _, k := range v.MapKeys() {
+			removeNil(v.MapIndex(k))
+		}
+	case reflect.Slice:
+		kept := 0
+		for i := 0; i < v.Len(); i++ {
+			e := v.Index(i)
+			if e.Kind() == reflect.Ptr && e.IsNil() {
+				continue
+			}
+			removeNil(e)
+			if kept != i {
+				v.Index(kept).Set(e)
+			}
+			kept++
+		}
+		if kept != v.Len() {
+			v.Set(v.Slice(0, kept))
+		}
+	}
+}
+
 func Describe(o interface{}) string {
 	value := reflect.ValueOf(o)
 	typ := value.Type()
diff --git a/json/reader.go b/json/reader.go
index f1a0b98..00aea64 100644
--- a/json/reader.go
+++ b/json/reader.go
@@ -60,24 +60,27 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
-		data = doc
+		data = &doc
 	case v2_2.Version:
 		var doc v2_2.Document
 		err = json.Unmarshal(buf.Bytes(), &doc)
 		if err != nil {
 			return err
 		}
-		data = doc
+		data = &doc
 	case v2_3.Version:
 		var doc v2_3.Document
 		err = json.Unmarshal(buf.Bytes(), &doc)
 		if err != nil {
 			return err
 		}
-		data = doc
+		data = &doc
 	default:
 		return fmt.Errorf("unsupported SDPX version: %s", version)
 	}
 
+	// null elements of lists state nothing
+	convert.RemoveNil(data)
+
 	return convert.Document(data, doc)
 }
diff --git a/yaml/reader.go b/yaml/reader.go
index c4b39d4..aa8e7a0 100644
--- a/yaml/reader.go
+++ b/yaml/reader.go
@@ -61,24 +61,27 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
-		data = doc
+		data = &doc
 	case v2_2.Version:
 		var doc v2_2.Document
 		err = yaml.Unmarshal(buf.Bytes(), &doc)
 		if err != nil {
 			return err
 		}
-		data = doc
+		data = &doc
 	case v2_3.Version:
 		var doc v2_3.Document
 		err = yaml.Unmarshal(buf.Bytes(), &doc)
 		if err != nil {
 			return err
 		}
-		data = doc
+		data = &doc
 	default:
 		return fmt.Errorf("unsupported SDPX version: %s", version)
 	}
 
+	// null elements of lists state nothing
+	convert.RemoveNil(data)
+
 	return convert.Document(data, doc)
 }
-- 
2.43.0


From c1a41236e1d1d677c2a15cf40d3ca32c8a729731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 38/40] fix: tag-value: delimit a text that contains <text>

---
 spdx/v2/v2_1/tagvalue/writer/util.go | 2 +-
 spdx/v2/v2_2/tagvalue/writer/util.go | 2 +-
 spdx/v2/v2_3/tagvalue/writer/util.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index 5ee7c0b..2294155 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -8,7 +8,7 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") || strings.TrimSpace(s) != s {
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index 5ee7c0b..2294155 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -8,7 +8,7 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") || strings.TrimSpace(s) != s {
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index 5ee7c0b..2294155 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -8,7 +8,7 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") || strings.TrimSpace(s) != s {
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
-- 
2.43.0


From c8b3bb8ba3995d785d2697f8b6d59ba418f1dab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:40 +0000
Subject: [PATCH 39/40] fix: rdf: refuse a licence URI that names no licence

---
 spdx/v2/v2_2/rdf/reader/constants.go | 4 ++--
 spdx/v2/v2_3/rdf/reader/constants.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/constants.go b/spdx/v2/v2_2/rdf/reader/constants.go
index f68fdd9..ccf80d9 100644
--- a/spdx/v2/v2_2/rdf/reader/constants.go
+++ b/spdx/v2/v2_2/rdf/reader/constants.go
@@ -163,7 +163,7 @@ func AllStandardLicenseIDS() []string {
 		"AGPL-3.0-or-later", "AGPL-3.0", "Aladdin", "AMDPLPA", "AML", "AMPAS",
 		"ANTLR-PD", "Apache-1.0", "Apache-1.1", "Apache-2.0", "APAFML", "APL-1.0",
 		"APSL-1.0", "APSL-1.1", "APSL-1.2", "APSL-2.0", "Artistic-1.0-cl8",
-		"Artistic-1.0-Perl", "Artistic-1.0", "Artistic-2.0", "",
+		"Artistic-1.0-Perl", "Artistic-1.0", "Artistic-2.0",
 		"Autoconf-exception-2.0", "Autoconf-exception-3.0", "Bahyph", "Barr",
 		"Beerware", "Bison-exception-2.2", "BitTorrent-1.0", "BitTorrent-1.1",
 		"blessing", "BlueOak-1.0.0", "Bootloader-exception", "Borceux", "BSD-1-Clause",
@@ -238,7 +238,7 @@ func AllStandardLicenseIDS() []string {
 		"OGL-UK-1.0", "OGL-UK-2.0", "OGL-UK-3.0", "OGTSL", "OLDAP-1.1", "OLDAP-1.2",
 		"OLDAP-1.3", "OLDAP-1.4", "OLDAP-2.0.1", "OLDAP-2.0", "OLDAP-2.1",
 		"OLDAP-2.2.1", "OLDAP-2.2.2", "OLDAP-2.2", "OLDAP-2.3", "OLDAP-2.4",
-		"OLDAP-2.5", "OLDAP-2.6", "OLDAP-2.7", "OLDAP-2.8", "OML", "",
+		"OLDAP-2.5", "OLDAP-2.6", "OLDAP-2.7", "OLDAP-2.8", "OML",
 		"OpenJDK-assembly-exception-1.0", "OpenSSL", "openvpn-openssl-exception",
 		"OPL-1.0", "OSET-PL-2.1", "OSL-1.0", "OSL-1.1", "OSL-2.0", "OSL-2.1",
 		"OSL-3.0", "Parity-6.0.0", "Parity-7.0.0", "PDDL-1.0", "PHP-3.0", "PHP-3.01",
diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index 4220602..c145f5b 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -167,7 +167,7 @@ func AllStandardLicenseIDS() []string {
 		"AGPL-3.0-or-later", "AGPL-3.0", "Aladdin", "AMDPLPA", "AML", "AMPAS",
 		"ANTLR-PD", "Apache-1.0", "Apache-1.1", "Apache-2.0", "APAFML", "APL-1.0",
 		"APSL-1.0", "APSL-1.1", "APSL-1.2", "APSL-2.0", "Artistic-1.0-cl8",
-		"Artistic-1.0-Perl", "Artistic-1.0", "Artistic-2.0", "",
+		"Artistic-1.0-Perl", "Artistic-1.0", "Artistic-2.0",
 		"Autoconf-exception-2.0", "Autoconf-exception-3.0", "Bahyph", "Barr",
 		"Beerware", "Bison-exception-2.2", "BitTorrent-1.0", "BitTorrent-1.1",
 		"blessing", "BlueOak-1.0.0", "Bootloader-exception", "Borceux", "BSD-1-Clause",
@@ -242,7 +242,7 @@ func AllStandardLicenseIDS() []string {
 		"OGL-UK-1.0", "OGL-UK-2.0", "OGL-UK-3.0", "OGTSL", "OLDAP-1.1", "OLDAP-1.2",
 		"OLDAP-1.3", "OLDAP-1.4", "OLDAP-2.0.1", "OLDAP-2.0", "OLDAP-2.1",
 		"OLDAP-2.2.1", "OLDAP-2.2.2", "OLDAP-2.2", "OLDAP-2.3", "OLDAP-2.4",
-		"OLDAP-2.5", "OLDAP-2.6", "OLDAP-2.7", "OLDAP-2.8", "OML", "",
+		"OLDAP-2.5", "OLDAP-2.6", "OLDAP-2.7", "OLDAP-2.8", "OML",
 		"OpenJDK-assembly-exception-1.0", "OpenSSL", "openvpn-openssl-exception",
 		"OPL-1.0", "OSET-PL-2.1", "OSL-1.0", "OSL-1.1", "OSL-2.0", "OSL-2.1",
 		"OSL-3.0", "Parity-6.0.0", "Parity-7.0.0", "PDDL-1.0", "PHP-3.0", "PHP-3.01",
-- 
2.43.0


From cf3df8bab3c43bfc051c3e541a33a6e2480989e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 40/40] fix: json, yaml: write snippets of files and
 annotations of elements read from other formats

---
 spdx/v2/v2_1/document.go | 88 ++++++++++++++++++++++++++++++++++++++++
 spdx/v2/v2_2/document.go | 87 +++++++++++++++++++++++++++++++++++++++
 spdx/v2/v2_3/document.go | 87 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 262 insertions(+)

diff --git a/spdx/v2/v2_1/document.go b/spdx/v2/v2_1/document.go
index cf824a4..a5af529 100644
--- a/spdx/v2/v2_1/document.go
+++ b/spdx/v2/v2_1/document.go
@@ -4,6 +4,9 @@
 package v2_1
 
 import (
+	"sort"
+
+	"github.com/spdx/tools-golang/json/marshal"
 	"github.com/spdx/tools-golang/spdx/v2/common"
 )
 
@@ -68,3 +71,88 @@ type Document struct {
 	// DEPRECATED in version 2.0 of spec
 	Reviews []*Review `json:"-"`
 }
+
+// MarshalJSON writes snippets and annotations where JSON and YAML have them:
+// tag-value and RDF documents keep the snippets of a file with the file, and
+// the annotations of packages and files with the document.
+func (d Document) MarshalJSON() ([]byte, error) {
+	type doc Document
+	d2 := doc(d)
+
+	about := map[common.ElementID][]Annotation{}
+	for _, a := range d.Annotations {
+		if a != nil && a.AnnotationSPDXIdentifier.DocumentRefID == "" {
+			id := a.AnnotationSPDXIdentifier.ElementRefID
+			about[id] = append(about[id], *a)
+		}
+	}
+	moved := map[common.ElementID]bool{}
+	annotate := func(id common.ElementID, own []Annotation) []Annotation {
+		if id == "" || id == d.SPDXIdentifier || moved[id] || len(about[id]) == 0 {
+			return own
+		}
+		moved[id] = true
+		return append(own[:len(own):len(own)], about[id]...)
+	}
+
+	listed := map[common.ElementID]bool{}
+	for _, s := range d.Snippets {
+		listed[s.SnippetSPDXIdentifier] = true
+	}
+	snippets := d.Snippets[:len(d.Snippets):len(d.Snippets)]
+	files := func(in []*File) []*File {
+		out := append([]*File(nil), in...)
+		for i, f := range out {
+			if f == nil {
+				continue
+			}
+			var ids []string
+			for id, s := range f.Snippets {
+				if s != nil && !listed[id] {
+					listed[id] = true
+					ids = append(ids, string(id))
+				}
+			}
+			sort.Strings(ids)
+			for _, id := range ids {
+				s := *f.Snippets[common.ElementID(id)]
+				if s.SnippetFromFileSPDXIdentifier == "" {
+					s.SnippetFromFileSPDXIdentifier = f.FileSPDXIdentifier
+				}
+				s.Ranges = append([]common.SnippetRange(nil), s.Ranges...)
+				for j := range s.Ranges {
+					for _, p := range []*common.SnippetRangePointer{&s.Ranges[j].StartPointer, &s.Ranges[j].EndPointer} {
+						if p.FileSPDXIdentifier == "" {
+							p.FileSPDXIdentifier = s.SnippetFromFileSPDXIdentifier
+						}
+					}
+				}
+				snippets = append(snippets, s)
+			}
+			f2 := *f
+			f2.Annotations = annotate(f.FileSPDXIdentifier, f.Annotations)
+			out[i] = &f2
+		}
+		return out
+	}
+
+	d2.Packages = append([]*Package(nil), d.Packages...)
+	for i, p := range d2.Packages {
+		if p == nil {
+			continue
+		}
+		p2 := *p
+		p2.Annotations = annotate(p.PackageSPDXIdentifier, p.Annotations)
+		p2.Files = files(p.Files)
+		d2.Packages[i] = &p2
+	}
+	d2.Files = files(d.Files)
+	d2.Snippets = snippets
+	d2.Annotations = nil
+	for _, a := range d.Annotations {
+		if a == nil || a.AnnotationSPDXIdentifier.DocumentRefID != "" || !moved[a.AnnotationSPDXIdentifier.ElementRefID] {
+			d2.Annotations = append(d2.Annotations, a)
+		}
+	}
+	return marshal.JSON(d2)
+}
diff --git a/spdx/v2/v2_2/document.go b/spdx/v2/v2_2/document.go
index 9d40f73..a5b0a98 100644
--- a/spdx/v2/v2_2/document.go
+++ b/spdx/v2/v2_2/document.go
@@ -6,7 +6,9 @@ package v2_2
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
+	"github.com/spdx/tools-golang/json/marshal"
 	"github.com/spdx/tools-golang/spdx/v2/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_1"
 )
@@ -81,6 +83,91 @@ func To_v2_1(_ Document, d *v2_1.Document) {
 	d.SPDXVersion = v2_1.Version
 }
 
+// MarshalJSON writes snippets and annotations where JSON and YAML have them:
+// tag-value and RDF documents keep the snippets of a file with the file, and
+// the annotations of packages and files with the document.
+func (d Document) MarshalJSON() ([]byte, error) {
+	type doc Document
+	d2 := doc(d)
+
+	about := map[common.ElementID][]Annotation{}
+	for _, a := range d.Annotations {
+		if a != nil && a.AnnotationSPDXIdentifier.DocumentRefID == "" {
+			id := a.AnnotationSPDXIdentifier.ElementRefID
+			about[id] = append(about[id], *a)
+		}
+	}
+	moved := map[common.ElementID]bool{}
+	annotate := func(id common.ElementID, own []Annotation) []Annotation {
+		if id == "" || id == d.SPDXIdentifier || moved[id] || len(about[id]) == 0 {
+			return own
+		}
+		moved[id] = true
+		return append(own[:len(own):len(own)], about[id]...)
+	}
+
+	listed := map[common.ElementID]bool{}
+	for _, s := range d.Snippets {
+		listed[s.SnippetSPDXIdentifier] = true
+	}
+	snippets := d.Snippets[:len(d.Snippets):len(d.Snippets)]
+	files := func(in []*File) []*File {
+		out := append([]*File(nil), in...)
+		for i, f := range out {
+			if f == nil {
+				continue
+			}
+			var ids []string
+			for id, s := range f.Snippets {
+				if s != nil && !listed[id] {
+					listed[id] = true
+					ids = append(ids, string(id))
+				}
+			}
+			sort.Strings(ids)
+			for _, id := range ids {
+				s := *f.Snippets[common.ElementID(id)]
+				if s.SnippetFromFileSPDXIdentifier == "" {
+					s.SnippetFromFileSPDXIdentifier = f.FileSPDXIdentifier
+				}
+				s.Ranges = append([]common.SnippetRange(nil), s.Ranges...)
+				for j := range s.Ranges {
+					for _, p := range []*common.SnippetRangePointer{&s.Ranges[j].StartPointer, &s.Ranges[j].EndPointer} {
+						if p.FileSPDXIdentifier == "" {
+							p.FileSPDXIdentifier = s.SnippetFromFileSPDXIdentifier
+						}
+					}
+				}
+				snippets = append(snippets, s)
+			}
+			f2 := *f
+			f2.Annotations = annotate(f.FileSPDXIdentifier, f.Annotations)
+			out[i] = &f2
+		}
+		return out
+	}
+
+	d2.Packages = append([]*Package(nil), d.Packages...)
+	for i, p := range d2.Packages {
+		if p == nil {
+			continue
+		}
+		p2 := *p
+		p2.Annotations = annotate(p.PackageSPDXIdentifier, p.Annotations)
+		p2.Files = files(p.Files)
+		d2.Packages[i] = &p2
+	}
+	d2.Files = files(d.Files)
+	d2.Snippets = snippets
+	d2.Annotations = nil
+	for _, a := range d.Annotations {
+		if a == nil || a.AnnotationSPDXIdentifier.DocumentRefID != "" || !moved[a.AnnotationSPDXIdentifier.ElementRefID] {
+			d2.Annotations = append(d2.Annotations, a)
+		}
+	}
+	return marshal.JSON(d2)
+}
+
 func (d *Document) UnmarshalJSON(b []byte) error {
 	type doc Document
 	type extras struct {
diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index 1c76750..c541981 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -6,7 +6,9 @@ package v2_3
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
+	"github.com/spdx/tools-golang/json/marshal"
 	"github.com/spdx/tools-golang/spdx/v2/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
 )
@@ -80,6 +82,91 @@ func To_v2_2(_ Document, d *v2_2.Document) {
 	d.SPDXVersion = v2_2.Version
 }
 
+// MarshalJSON writes snippets and annotations where JSON and YAML have them:
+// tag-value and RDF documents keep the snippets of a file with the file, and
+// the annotations of packages and files with the document.
+func (d Document) MarshalJSON() ([]byte, error) {
+	type doc Document
+	d2 := doc(d)
+
+	about := map[common.ElementID][]Annotation{}
+	for _, a := range d.Annotations {
+		if a != nil && a.AnnotationSPDXIdentifier.DocumentRefID == "" {
+			id := a.AnnotationSPDXIdentifier.ElementRefID
+			about[id] = append(about[id], *a)
+		}
+	}
+	moved := map[common.ElementID]bool{}
+	annotate := func(id common.ElementID, own []Annotation) []Annotation {
+		if id == "" || id == d.SPDXIdentifier || moved[id] || len(about[id]) == 0 {
+			return own
+		}
+		moved[id] = true
+		return append(own[:len(own):len(own)], about[id]...)
+	}
+
+	listed := map[common.ElementID]bool{}
+	for _, s := range d.Snippets {
+		listed[s.SnippetSPDXIdentifier] = true
+	}
+	snippets := d.Snippets[:len(d.Snippets):len(d.Snippets)]
+	files := func(in []*File) []*File {
+		out := append([]*File(nil), in...)
+		for i, f := range out {
+			if f == nil {
+				continue
+			}
+			var ids []string
+			for id, s := range f.Snippets {
+				if s != nil && !listed[id] {
+					listed[id] = true
+					ids = append(ids, string(id))
+				}
+			}
+			sort.Strings(ids)
+			for _, id := range ids {
+				s := *f.Snippets[common.ElementID(id)]
+				if s.SnippetFromFileSPDXIdentifier == "" {
+					s.SnippetFromFileSPDXIdentifier = f.FileSPDXIdentifier
+				}
+				s.Ranges = append([]common.SnippetRange(nil), s.Ranges...)
+				for j := range s.Ranges {
+					for _, p := range []*common.SnippetRangePointer{&s.Ranges[j].StartPointer, &s.Ranges[j].EndPointer} {
+						if p.FileSPDXIdentifier == "" {
+							p.FileSPDXIdentifier = s.SnippetFromFileSPDXIdentifier
+						}
+					}
+				}
+				snippets = append(snippets, s)
+			}
+			f2 := *f
+			f2.Annotations = annotate(f.FileSPDXIdentifier, f.Annotations)
+			out[i] = &f2
+		}
+		return out
+	}
+
+	d2.Packages = append([]*Package(nil), d.Packages...)
+	for i, p := range d2.Packages {
+		if p == nil {
+			continue
+		}
+		p2 := *p
+		p2.Annotations = annotate(p.PackageSPDXIdentifier, p.Annotations)
+		p2.Files = files(p.Files)
+		d2.Packages[i] = &p2
+	}
+	d2.Files = files(d.Files)
+	d2.Snippets = snippets
+	d2.Annotations = nil
+	for _, a := range d.Annotations {
+		if a == nil || a.AnnotationSPDXIdentifier.DocumentRefID != "" || !moved[a.AnnotationSPDXIdentifier.ElementRefID] {
+			d2.Annotations = append(d2.Annotations, a)
+		}
+	}
+	return marshal.JSON(d2)
+}
+
 func (d *Document) UnmarshalJSON(b []byte) error {
 	type doc Document
 	type extras struct {
-- 
2.43.0

