From 45e7edc669f3abf8f2fecdd19bcee7f1ac32e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 01/30] fix: do not panic on negative array indexes in property
 paths

---
 pkg/input/json_record.go | 2 +-
 pkg/input/record/path.go | 2 +-
 pkg/input/xml_record.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index fc2b70d..77f4c00 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -63,7 +63,7 @@ func (record *JsonRecord) getSubValue(data interface{}, path []string) (interfac
 
 		// Index does not exist: return nil (we must not output
 		// an error in this case, even if there is a sub-path)
-		if indexInPath >= len(dataArray) {
+		if indexInPath < 0 || indexInPath >= len(dataArray) {
 			return nil, nil
 		}
 
diff --git a/pkg/input/record/path.go b/pkg/input/record/path.go
index 17cfce0..d311f64 100644
--- a/pkg/input/record/path.go
+++ b/pkg/input/record/path.go
@@ -27,7 +27,7 @@ func GetSubValue(value interface{}, path []string) (interface{}, error) {
 		}
 
 		valueArray := value.([]interface{})
-		if index >= len(valueArray) {
+		if index < 0 || index >= len(valueArray) {
 			// Not having the required index is a common case that
 			// should not trigger an error, but get a nil value
 			return nil, nil
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 2f98b20..c9021ba 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -225,7 +225,7 @@ func (record *XmlRecord) getSubArrayValue(
 		return nil, fmt.Errorf("Cannot get sub-path '%v' because the requested key is '%v', but the value is an array", path, path[0])
 	}
 
-	if requestedIndex >= len(nodes) {
+	if requestedIndex < 0 || requestedIndex >= len(nodes) {
 		// Not having the required index is a common case that
 		// should not trigger an error, but get a nil value
 		return nil, nil
-- 
2.43.0


From ac0e37023f6281f7835d0579f5da4515b49a9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 02/30] fix: do not capture groups inside of the parser
 patterns, which shifted the route parameters

---
 pkg/parser/boolean.go | 2 +-
 pkg/parser/float.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/boolean.go b/pkg/parser/boolean.go
index 6951e17..5d31351 100644
--- a/pkg/parser/boolean.go
+++ b/pkg/parser/boolean.go
@@ -35,7 +35,7 @@ func (boolean *Boolean) GetRegexpPattern() string {
 	for _, value := range boolean.config.FalseValues {
 		values = append(values, regexp.QuoteMeta(value))
 	}
-	return "(" + strings.Join(values, "|") + ")"
+	return "(?:" + strings.Join(values, "|") + ")"
 }
 
 func (boolean *Boolean) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index 1ca2846..ed12867 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -34,7 +34,7 @@ func (float *Float) GetRegexpPattern() string {
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+([" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:[" + separator + "][0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
-- 
2.43.0


From 53b3b860d0e4a104e41d70dd50420251a4b32565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 03/30] fix: match the literal parts of the route paths
 literally

---
 pkg/service/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 020f6b3..a884e18 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -152,7 +152,7 @@ func (service *Http) createPathRegexp(
 	}
 
 	parts := paramRegexp.Split(routeConfig.Path, -1)
-	path := parts[0]
+	path := regexp.QuoteMeta(parts[0])
 	for partIndex := 1; partIndex < len(parts); partIndex++ {
 		paramIndex := partIndex - 1
 		paramName := params[paramIndex]
@@ -167,7 +167,7 @@ func (service *Http) createPathRegexp(
 		}
 
 		paramPattern := parser.GetRegexpPattern()
-		path = path + "(" + paramPattern + ")" + parts[partIndex]
+		path = path + "(" + paramPattern + ")" + regexp.QuoteMeta(parts[partIndex])
 	}
 
 	regexp, err := regexp.Compile("^" + path + "$")
-- 
2.43.0


From 7f1c87e68996ddceedc2c4dff2cd60d61b01df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 04/30] fix: close the sqlite results and report the errors
 that interrupted them

---
 pkg/index/fts5.go             | 15 +--------------
 pkg/index/sqlite.go           | 15 +--------------
 pkg/index/sqlite/positions.go | 27 +++++++++++++++++++++++++++
 3 files changed, 29 insertions(+), 28 deletions(-)
 create mode 100644 pkg/index/sqlite/positions.go

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 58b71b8..9b53d44 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -244,20 +244,7 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
-		}
-
-		return nil, nil
-	}, nil
+	return sqlitePackage.ReadPositions(rows)
 }
 
 func (sqlite *Fts5) Close() error {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 99990fc..b426cb7 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -254,20 +254,7 @@ func (sqlite *Sqlite) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
-		}
-
-		return nil, nil
-	}, nil
+	return sqlitePackage.ReadPositions(rows)
 }
 
 func (sqlite *Sqlite) Close() error {
diff --git a/pkg/index/sqlite/positions.go b/pkg/index/sqlite/positions.go
new file mode 100644
index 0000000..98a46a3
--- /dev/null
+++ b/pkg/index/sqlite/positions.go
@@ -0,0 +1,27 @@
+package sqlite
+
+import (
+	"database/sql"
+	"github.com/rodb-io/rodb/pkg/input/record"
+)
+
+// Reads all the positions from the given result and closes it, because the iterators
+// may be abandoned before their end, which would otherwise keep the connection in use
+func ReadPositions(rows *sql.Rows) (record.PositionIterator, error) {
+	defer rows.Close()
+
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var position record.Position
+		if err := rows.Scan(&position); err != nil {
+			return nil, err
+		}
+
+		positions = append(positions, position)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions.Iterate(), nil
+}
-- 
2.43.0


From 558c7a5819afe75ea4c4952b8e9214745e27a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 05/30] fix: use a single connection for private in-memory
 sqlite databases

---
 pkg/index/sqlite/open.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 55593a3..cbd165e 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -3,6 +3,7 @@ package sqlite
 import (
 	"database/sql"
 	_ "github.com/mattn/go-sqlite3"
+	"strings"
 )
 
 // We use the driver directly rather than the database/sql interfaces, because the generic
@@ -13,6 +14,11 @@ func Open(dsn string) (*sql.DB, error) {
 		return nil, err
 	}
 
+	// Each connection to an in-memory database opens a different (empty) one
+	if isPrivateMemoryDsn(dsn) {
+		db.SetMaxOpenConns(1)
+	}
+
 	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
 		return nil, err
 	}
@@ -22,3 +28,8 @@ func Open(dsn string) (*sql.DB, error) {
 
 	return db, nil
 }
+
+func isPrivateMemoryDsn(dsn string) bool {
+	isMemory := strings.Contains(dsn, ":memory:") || strings.Contains(dsn, "mode=memory")
+	return isMemory && !strings.Contains(dsn, "cache=shared")
+}
-- 
2.43.0


From 76c0ccd7c96a0151b2df9df5f4d9f25431dae763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 06/30] fix: index the values of the array properties, rather
 than failing on the array itself

---
 pkg/index/map.go      | 4 +++-
 pkg/index/wildcard.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index cc626a4..293b39c 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -83,7 +83,7 @@ func (mapIndex *Map) reindex() error {
 			}
 
 			if err := mapIndex.addValueToIndex(index, property, value, record.Position()); err != nil {
-				return fmt.Errorf("Cannot index the property '%v': ", property)
+				return fmt.Errorf("Cannot index the property '%v': %w", property, err)
 			}
 		}
 	}
@@ -106,6 +106,8 @@ func (mapIndex *Map) addValueToIndex(
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index acf7f23..0c6178e 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -119,7 +119,7 @@ func (wildcard *Wildcard) createIndex() error {
 			}
 
 			if err := wildcard.addValueToIndex(index, property, value, record.Position()); err != nil {
-				return fmt.Errorf("Cannot index the property '%v': ", property)
+				return fmt.Errorf("Cannot index the property '%v': %w", property, err)
 			}
 		}
 	}
@@ -199,6 +199,8 @@ func (wildcard *Wildcard) addValueToIndex(
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	stringValue, valueIsString := value.(string)
-- 
2.43.0


From 89f38ae23aa5e2342785fafc4ca0c48e41840204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 07/30] fix: do not panic when filtering with an array or an
 object

---
 pkg/index/map.go  | 4 ++++
 pkg/index/noop.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index 293b39c..7c9b17f 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -148,6 +148,10 @@ func (mapIndex *Map) GetRecordPositions(
 			return record.EmptyIterator, nil
 		}
 
+		if filter != nil && !reflect.TypeOf(filter).Comparable() {
+			return nil, fmt.Errorf("Cannot filter the value '%v' from property '%v' because it is not a primitive.", filter, propertyName)
+		}
+
 		indexedResults, foundIndexedResults := indexedValues[filter]
 		if !foundIndexedResults {
 			return record.EmptyIterator, nil
diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 564c1df..89cd11d 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -70,7 +70,7 @@ func (noop *Noop) GetRecordPositions(
 				}
 
 				value = reflect.ValueOf(value).Interface()
-				if value != filter {
+				if !reflect.DeepEqual(value, filter) {
 					matches = false
 					break
 				}
-- 
2.43.0


From 74e8e45b59f84035892ae612a8abcd7579b941f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 08/30] fix: send an error when the data cannot be encoded,
 rather than an empty success

---
 pkg/output/json_array.go  |  3 +--
 pkg/output/json_common.go | 20 ++++++++++++++++++++
 pkg/output/json_object.go |  3 +--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 5614835..d4c1535 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -1,7 +1,6 @@
 package output
 
 import (
-	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
@@ -132,7 +131,7 @@ func (jsonArray *JsonArray) Handle(
 		rowsData = append(rowsData, rowData)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(rowsData)
+	return sendJson(rowsData, sendError, sendSucces)
 }
 
 func (jsonArray *JsonArray) getLimit(params map[string]string) (uint, error) {
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index c787548..be37f97 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -1,14 +1,34 @@
 package output
 
 import (
+	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	relationshipPackage "github.com/rodb-io/rodb/pkg/output/relationship"
+	"io"
 )
 
+// Encodes everything before sending anything, because once the
+// success has been sent, it is not possible to send an error anymore
+func sendJson(
+	data interface{},
+	sendError func(err error) error,
+	sendSucces func() io.Writer,
+) error {
+	buffer := &bytes.Buffer{}
+	if err := json.NewEncoder(buffer).Encode(data); err != nil {
+		return sendError(err)
+	}
+
+	_, err := buffer.WriteTo(sendSucces())
+
+	return err
+}
+
 func checkRelationshipMatches(
 	inputs inputPackage.List,
 	relationship *relationshipPackage.RelationshipConfig,
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 8b9f15d..2bd4071 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -1,7 +1,6 @@
 package output
 
 import (
-	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
@@ -115,7 +114,7 @@ func (jsonObject *JsonObject) Handle(
 		return sendError(err)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(data)
+	return sendJson(data, sendError, sendSucces)
 }
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
-- 
2.43.0


From 1c7123a9630141258a756e48ffb22588fc22f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 09/30] fix: do not share the charset decoder between
 concurrent requests

---
 pkg/parser/string.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 99d6f92..609b95a 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/ianaindex"
 	"golang.org/x/text/transform"
@@ -9,26 +10,28 @@ import (
 )
 
 type String struct {
-	config  *StringConfig
-	decoder *encoding.Decoder
+	config   *StringConfig
+	encoding encoding.Encoding
 }
 
 func NewString(
 	config *StringConfig,
 ) (*String, error) {
-	var decoder *encoding.Decoder = nil
+	var charset encoding.Encoding = nil
 	if config.ConvertFromCharset != "" {
-		encoding, err := ianaindex.MIME.Encoding(config.ConvertFromCharset)
+		var err error
+		charset, err = ianaindex.MIME.Encoding(config.ConvertFromCharset)
 		if err != nil {
 			return nil, err
 		}
-
-		decoder = encoding.NewDecoder()
+		if charset == nil {
+			return nil, fmt.Errorf("The charset '%v' is not supported.", config.ConvertFromCharset)
+		}
 	}
 
 	return &String{
-		config:  config,
-		decoder: decoder,
+		config:   config,
+		encoding: charset,
 	}, nil
 }
 
@@ -46,7 +49,8 @@ func (str *String) GetRegexpPattern() string {
 
 func (str *String) Parse(value string) (interface{}, error) {
 	if str.config.ConvertFromCharset != "" {
-		rInUTF8 := transform.NewReader(strings.NewReader(value), str.decoder)
+		// The decoders have an internal state, so we cannot share one between concurrent calls
+		rInUTF8 := transform.NewReader(strings.NewReader(value), str.encoding.NewDecoder())
 		convertedValue, err := ioutil.ReadAll(rInUTF8)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 392de8ad9febe5f4ceed4ed996706f8a735b6b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 10/30] fix: do not evaluate the same xpath expression
 concurrently

---
 pkg/input/xml_config.go | 12 ++++++++++++
 pkg/input/xml_record.go |  8 ++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index ef4be62..ecb6733 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -3,10 +3,12 @@ package input
 import (
 	"errors"
 	"fmt"
+	"github.com/antchfx/xmlquery"
 	"github.com/antchfx/xpath"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"sync"
 )
 
 type XmlInputPropertyType string
@@ -35,6 +37,7 @@ type XmlPropertyConfig struct {
 	Items         *XmlPropertyConfig   `yaml:"items"`
 	Properties    []*XmlPropertyConfig `yaml:"properties"`
 	CompiledXPath *xpath.Expr
+	xPathLock     sync.Mutex
 }
 
 func (config *XmlConfig) GetName() string {
@@ -178,3 +181,12 @@ func (config *XmlPropertyConfig) Validate(
 
 	return nil
 }
+
+// Evaluating an expression modifies it's internal state,
+// so a single expression cannot be evaluated concurrently
+func (config *XmlPropertyConfig) evaluateXPath(node *xmlquery.Node) interface{} {
+	config.xPathLock.Lock()
+	defer config.xPathLock.Unlock()
+
+	return config.CompiledXPath.Evaluate(xmlquery.CreateXPathNavigator(node))
+}
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index c9021ba..591b338 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -98,9 +98,7 @@ func (record *XmlRecord) getAllValues(
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluateXPath(node)
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -275,9 +273,7 @@ func (record *XmlRecord) getSubValue(
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluateXPath(node)
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0


From 80f40ca7cd415d117ecc8dd74c07e69f4a3c2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 11/30] fix: report the errors of the file checks in the
 configuration, rather than panicking

---
 pkg/input/csv_config.go    | 2 ++
 pkg/input/json_config.go   | 3 +++
 pkg/input/xml_config.go    | 2 ++
 pkg/service/http_config.go | 4 ++++
 4 files changed, 11 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 8abae79..86935d6 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -67,6 +67,8 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	fileInfo, err := os.Stat(config.Path)
 	if os.IsNotExist(err) {
 		return errors.New("The csv file '" + config.Path + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("Error checking the csv file '%v': %w", config.Path, err)
 	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index 489cba3..0fec77c 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"errors"
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
@@ -39,6 +40,8 @@ func (config *JsonConfig) Validate(parsers map[string]parser.Config, log *logrus
 	fileInfo, err := os.Stat(config.Path)
 	if os.IsNotExist(err) {
 		return errors.New("The json file '" + config.Path + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("Error checking the json file '%v': %w", config.Path, err)
 	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index ecb6733..c7bdfe9 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -73,6 +73,8 @@ func (config *XmlConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	fileInfo, err := os.Stat(config.Path)
 	if os.IsNotExist(err) {
 		return errors.New("The xml file '" + config.Path + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("Error checking the xml file '%v': %w", config.Path, err)
 	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 98c78e0..b5e50eb 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -108,6 +108,8 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	certificateFileInfo, err := os.Stat(config.CertificatePath)
 	if os.IsNotExist(err) {
 		return errors.New("certificatePath: The file '" + config.CertificatePath + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("certificatePath: Error checking the file '%v': %w", config.CertificatePath, err)
 	}
 	if certificateFileInfo.IsDir() {
 		return errors.New("certificatePath: The path '" + config.CertificatePath + "' is not a file")
@@ -119,6 +121,8 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	privateKeyFile, err := os.Stat(config.PrivateKeyPath)
 	if os.IsNotExist(err) {
 		return errors.New("privateKeyFile: The file '" + config.PrivateKeyPath + "' does not exist")
+	} else if err != nil {
+		return fmt.Errorf("privateKeyFile: Error checking the file '%v': %w", config.PrivateKeyPath, err)
 	}
 	if privateKeyFile.IsDir() {
 		return errors.New("privateKeyFile: The path '" + config.PrivateKeyPath + "' is not a file")
-- 
2.43.0


From ebc8b943bf89c0a2f277db792858884c5c5090bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 12/30] fix: report the empty definitions in the configuration,
 rather than panicking

---
 pkg/config/config.go              | 20 ++++++++++++++++++++
 pkg/index/sqlite_config.go        |  4 ++++
 pkg/input/csv_config.go           |  4 ++++
 pkg/input/record/sort_config.go   |  5 +++++
 pkg/input/xml_config.go           |  4 ++++
 pkg/output/parameter/config.go    |  4 ++++
 pkg/output/relationship/config.go |  9 +++++++++
 pkg/service/http_config.go        |  4 ++++
 8 files changed, 54 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 6d79d5e..d4eac08 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -66,6 +66,10 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 	}
 
 	for _, parser := range parsedConfig.Parsers {
+		if parser.parser == nil {
+			return nil, fmt.Errorf("An empty parser has been declared.")
+		}
+
 		name := parser.parser.GetName()
 		if _, exists := config.Parsers[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for parser.", name)
@@ -73,6 +77,10 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Parsers[name] = parser.parser
 	}
 	for _, input := range parsedConfig.Inputs {
+		if input.input == nil {
+			return nil, fmt.Errorf("An empty input has been declared.")
+		}
+
 		name := input.input.GetName()
 		if _, exists := config.Inputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for input.", name)
@@ -80,6 +88,10 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Inputs[name] = input.input
 	}
 	for _, index := range parsedConfig.Indexes {
+		if index.index == nil {
+			return nil, fmt.Errorf("An empty index has been declared.")
+		}
+
 		name := index.index.GetName()
 		if _, exists := config.Indexes[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for index.", name)
@@ -87,6 +99,10 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Indexes[name] = index.index
 	}
 	for _, service := range parsedConfig.Services {
+		if service.service == nil {
+			return nil, fmt.Errorf("An empty service has been declared.")
+		}
+
 		name := service.service.GetName()
 		if _, exists := config.Services[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for service.", name)
@@ -94,6 +110,10 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Services[name] = service.service
 	}
 	for _, output := range parsedConfig.Outputs {
+		if output.output == nil {
+			return nil, fmt.Errorf("An empty output has been declared.")
+		}
+
 		name := output.output.GetName()
 		if _, exists := config.Outputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for output.", name)
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 4e96b6e..7cecf4d 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -81,6 +81,10 @@ func (config *SqliteConfig) DoesHandleInput(input input.Config) bool {
 }
 
 func (config *SqlitePropertyConfig) Validate(log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("the definition is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 86935d6..77c8ae3 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -100,6 +100,10 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 }
 
 func (config *CsvColumnConfig) Validate(parsers map[string]parser.Config, log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("the definition is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 30ee23b..846ccff 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -1,6 +1,7 @@
 package record
 
 import (
+	"errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -18,6 +19,10 @@ func (config *SortConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("the definition is empty")
+	}
+
 	config.Logger = log
 
 	// Property will be validated at runtime, because some fields
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index c7bdfe9..96f8958 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -102,6 +102,10 @@ func (config *XmlPropertyConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("the definition is empty")
+	}
+
 	if nameRequired && config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/output/parameter/config.go b/pkg/output/parameter/config.go
index bb842a0..7f69ba5 100644
--- a/pkg/output/parameter/config.go
+++ b/pkg/output/parameter/config.go
@@ -22,6 +22,10 @@ func (config *ParameterConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("the definition is empty")
+	}
+
 	if config.Property == "" {
 		return errors.New("property is empty")
 	}
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index b741f2c..7f8bbb0 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -1,6 +1,7 @@
 package relationship
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -29,6 +30,10 @@ func (config *RelationshipConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("the definition is empty")
+	}
+
 	if config.Limit == 0 && config.IsArray {
 		log.Debug(logPrefix + "limit is not set. All relationships will be returned.")
 	}
@@ -91,6 +96,10 @@ func (config *RelationshipMatchConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("the definition is empty")
+	}
+
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index b5e50eb..46702c7 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -132,6 +132,10 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 }
 
 func (config *HttpRouteConfig) Validate(outputs map[string]output.Config, log *logrus.Entry) error {
+	if config == nil {
+		return errors.New("the definition is empty")
+	}
+
 	if config.Output == "" {
 		return fmt.Errorf("output is empty. This field is required")
 	}
-- 
2.43.0


From d96f830bbde09bc0faf85a7a2b01436dea63ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 13/30] fix: report the errors met between two json records,
 rather than ending the input

---
 pkg/input/json.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/input/json.go b/pkg/input/json.go
index 58e1fa2..a195cdb 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -128,7 +128,14 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 
 	iterator := func() (record.Record, error) {
 		if !jsonDecoder.More() {
-			return nil, nil
+			// It may be the end of the file, but also a read error or an unexpected token
+			if _, err := jsonDecoder.Token(); err == io.EOF {
+				return nil, nil
+			} else if err != nil {
+				return nil, fmt.Errorf("Cannot read json data: %w", err)
+			}
+
+			return nil, fmt.Errorf("Cannot read json data: unexpected token at position %v", jsonDecoder.InputOffset())
 		}
 
 		position := jsonDecoder.InputOffset()
-- 
2.43.0


From 10ec8ba7bea2c18a10bcbea728307541cfed027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 14/30] fix: refuse the null json records, which panicked when
 loading their relationships

---
 pkg/input/json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/input/json.go b/pkg/input/json.go
index a195cdb..abeeaf7 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -79,6 +79,9 @@ func (jsonInput *Json) Get(position record.Position) (record.Record, error) {
 	if err := jsonDecoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("Cannot read json data: %w", err)
 	}
+	if data == nil {
+		return nil, fmt.Errorf("Cannot read json data: expected an object at position %v, got null", position)
+	}
 
 	return NewJsonRecord(
 		jsonInput.config,
@@ -146,6 +149,9 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 		} else if err != nil {
 			return nil, fmt.Errorf("Cannot read json data: %w", err)
 		}
+		if data == nil {
+			return nil, fmt.Errorf("Cannot read json data: expected an object at position %v, got null", position)
+		}
 
 		record := NewJsonRecord(
 			jsonInput.config,
-- 
2.43.0


From 7717448f76d292d932995a08672dac2afd308bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 15/30] fix: write all the wildcard index data before marking
 it as completed

---
 pkg/index/wildcard.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 0c6178e..7e85cf3 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -124,11 +124,15 @@ func (wildcard *Wildcard) createIndex() error {
 		}
 	}
 
+	// The index must only be marked as completed once all of it's data has been written
+	if err := indexStream.Flush(); err != nil {
+		return err
+	}
+
 	metadata.SetCompleted(true)
 	if err := metadata.Save(); err != nil {
 		return err
 	}
-
 	if err := indexStream.Flush(); err != nil {
 		return err
 	}
-- 
2.43.0


From 2376db25a58c290b77e6ccc2aad27fc84e49bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 16/30] fix: close the wildcard index file

---
 pkg/index/wildcard.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 7e85cf3..7546222 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -12,9 +12,10 @@ import (
 )
 
 type Wildcard struct {
-	config *WildcardConfig
-	input  input.Input
-	index  map[string]*wildcardPackage.TreeNode
+	config    *WildcardConfig
+	input     input.Input
+	index     map[string]*wildcardPackage.TreeNode
+	indexFile *os.File
 }
 
 func NewWildcard(
@@ -138,6 +139,7 @@ func (wildcard *Wildcard) createIndex() error {
 	}
 
 	wildcard.index = index
+	wildcard.indexFile = indexFile
 
 	indexStat, err := indexFile.Stat()
 	if err != nil {
@@ -185,6 +187,7 @@ func (wildcard *Wildcard) loadIndex() error {
 	}
 
 	wildcard.index = index
+	wildcard.indexFile = indexFile
 
 	wildcard.config.Logger.Infof("Successfully loaded index")
 
@@ -272,5 +275,5 @@ func (wildcard *Wildcard) GetRecordPositions(
 }
 
 func (wildcard *Wildcard) Close() error {
-	return nil
+	return wildcard.indexFile.Close()
 }
-- 
2.43.0


From 6082111eeb096e05de3e512c61425da3d3b1de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 17/30] fix: do not panic when loading a wildcard index from an
 unrelated file

---
 pkg/index/wildcard/metadata.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/index/wildcard/metadata.go b/pkg/index/wildcard/metadata.go
index c5596f4..4bdbf41 100644
--- a/pkg/index/wildcard/metadata.go
+++ b/pkg/index/wildcard/metadata.go
@@ -156,11 +156,16 @@ func (metadata *Metadata) Unserialize(data io.Reader) error {
 	if err := binary.Read(data, binary.BigEndian, &rootNodeOffsetCount); err != nil {
 		return err
 	}
-	metadata.rootNodeOffsets = make([]TreeNodeOffset, int(rootNodeOffsetCount))
+
+	// Not allocating everything from the beginning, because the
+	// count cannot be trusted if the file is not a wildcard index
+	metadata.rootNodeOffsets = make([]TreeNodeOffset, 0)
 	for i := int64(0); i < rootNodeOffsetCount; i++ {
-		if err := binary.Read(data, binary.BigEndian, &metadata.rootNodeOffsets[i]); err != nil {
+		var offset TreeNodeOffset
+		if err := binary.Read(data, binary.BigEndian, &offset); err != nil {
 			return err
 		}
+		metadata.rootNodeOffsets = append(metadata.rootNodeOffsets, offset)
 	}
 
 	return nil
-- 
2.43.0


From 0b5d90c676b1b883868c3528011f76f4966abb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 18/30] fix: accept the rtrim collation

---
 pkg/index/fts5_config.go   | 2 +-
 pkg/index/sqlite_config.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/index/fts5_config.go b/pkg/index/fts5_config.go
index 886ccea..cc720e0 100644
--- a/pkg/index/fts5_config.go
+++ b/pkg/index/fts5_config.go
@@ -7,7 +7,7 @@ import (
 	"github.com/sirupsen/logrus"
 )
 
-var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type Fts5Config struct {
 	Name       string   `yaml:"name"`
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 7cecf4d..0032c65 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -9,7 +9,7 @@ import (
 	"strings"
 )
 
-var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type SqliteConfig struct {
 	Name       string                  `yaml:"name"`
-- 
2.43.0


From 23fb168cb4df7654f8ef567e5c8f0db32b06ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 19/30] fix: refuse the split parsers using themselves

---
 pkg/parser/split_config.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/parser/split_config.go b/pkg/parser/split_config.go
index 9b95813..7ff9e2d 100644
--- a/pkg/parser/split_config.go
+++ b/pkg/parser/split_config.go
@@ -62,6 +62,21 @@ func (config *SplitConfig) Validate(parsers map[string]Config, log *logrus.Entry
 		return fmt.Errorf("Parser '%v' not found in parsers list.", config.Parser)
 	}
 
+	// Refusing the split parsers that end-up using themselves, because they would never stop
+	alreadyUsed := map[*SplitConfig]bool{config: true}
+	current := config
+	for {
+		next, nextIsSplit := parsers[current.Parser].(*SplitConfig)
+		if !nextIsSplit {
+			break
+		}
+		if alreadyUsed[next] {
+			return fmt.Errorf("split.parser: The parser '%v' ends-up using itself.", next.Name)
+		}
+		alreadyUsed[next] = true
+		current = next
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 06d502731d01ae5e305f13fc6d1588c533aebbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 20/30] fix: document the right type for the jsonArray output

---
 docs/schema/outputs/json-array.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/schema/outputs/json-array.yaml b/docs/schema/outputs/json-array.yaml
index 4ad52ac..744222d 100644
--- a/docs/schema/outputs/json-array.yaml
+++ b/docs/schema/outputs/json-array.yaml
@@ -54,7 +54,7 @@ properties:
     description: |
       The name of this output, which any other component will use to refer to it.
   type:
-    const: "jsonObject"
+    const: "jsonArray"
   input:
     type: string
     description: |
-- 
2.43.0


From f7eff320f91d86cc3948203e8509b281d84cf346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 21/30] fix: close the input file when the iteration cannot
 start

---
 pkg/input/csv.go | 1 +
 pkg/input/xml.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 3e92cf3..0670e51 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -184,6 +184,7 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 	if csvInput.config.IgnoreFirstRow {
 		_, err = csvReader.Read()
 		if err != nil {
+			_ = file.Close()
 			return nil, nil, err
 		}
 	}
diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 2141dd7..a7989ae 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -140,6 +140,7 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 		xmlInput.config.RecordXPath,
 	)
 	if err != nil {
+		_ = file.Close()
 		return nil, nil, err
 	}
 
-- 
2.43.0


From 7ac3a82db49dd4355a6dd054799d07134183b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 22/30] fix: close the input file when the search of the noop
 index fails

---
 pkg/index/noop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 89cd11d..4dedb06 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -47,6 +47,8 @@ func (noop *Noop) GetRecordPositions(
 
 			record, err := inputIterator()
 			if err != nil {
+				closed = true
+				_ = end()
 				return nil, err
 			}
 			if record == nil {
@@ -57,6 +59,8 @@ func (noop *Noop) GetRecordPositions(
 			for propertyName, filter := range filters {
 				value, err := record.Get(propertyName)
 				if err != nil {
+					closed = true
+					_ = end()
 					return nil, err
 				}
 
-- 
2.43.0


From 9b0fa9e7c0cab9528842cf5679ec797bfb7857a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 23/30] fix: do not index a record several times under the same
 value in the map index

An array with the same value several times added the position of the record
once per occurrence, so the record was returned several times.
---
 pkg/index/map.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index 7c9b17f..aaa3e2c 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -102,6 +102,11 @@ func (mapIndex *Map) addValueToIndex(
 ) error {
 	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
 		for _, valueArrayValue := range valueArray {
+			if mapIndex.isIndexed(index[property], valueArrayValue, position) {
+				// The same value can be there several times in the array
+				continue
+			}
+
 			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position); err != nil {
 				return err
 			}
@@ -125,6 +130,22 @@ func (mapIndex *Map) addValueToIndex(
 	return nil
 }
 
+// Returns true if the given position is the last one indexed for the given value
+func (mapIndex *Map) isIndexed(
+	propertyIndex mapPropertyIndex,
+	value interface{},
+	position record.Position,
+) bool {
+	switch value.(type) {
+	case []interface{}, map[string]interface{}:
+		return false
+	}
+
+	positions := propertyIndex[value]
+
+	return len(positions) > 0 && positions[len(positions)-1] == position
+}
+
 func (mapIndex *Map) GetRecordPositions(
 	input input.Input,
 	filters map[string]interface{},
-- 
2.43.0


From b0356359f97f9324816c5a8e265447028711c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 24/30] fix: refuse contradictory values given for the same
 property by several parameters

One of the values replaced the other one, in a random order, and the
records were only filtered by one of them.
---
 pkg/output/json_array.go  | 5 +++++
 pkg/output/json_object.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index d4c1535..b44e35f 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -8,6 +8,7 @@ import (
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
 	"io"
+	"reflect"
 	"strconv"
 )
 
@@ -193,6 +194,10 @@ func (jsonArray *JsonArray) getFiltersPerIndex(params map[string]string) (map[st
 			filtersPerIndex[paramConfig.Index] = indexFilters
 		}
 
+		if otherValue, otherExists := indexFilters[paramConfig.Property]; otherExists && !reflect.DeepEqual(otherValue, parsedParamValue) {
+			return nil, errors.New("Several parameters have different values for the property '" + paramConfig.Property + "'.")
+		}
+
 		indexFilters[paramConfig.Property] = parsedParamValue
 	}
 
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 2bd4071..25df1fe 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -8,6 +8,7 @@ import (
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
 	"io"
+	"reflect"
 )
 
 type JsonObject struct {
@@ -130,6 +131,11 @@ func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string)
 		if err != nil {
 			return nil, err
 		}
+
+		if otherValue, otherExists := indexFilters[param.Property]; otherExists && !reflect.DeepEqual(otherValue, paramValue) {
+			return nil, errors.New("Several parameters have different values for the property '" + param.Property + "'.")
+		}
+
 		indexFilters[param.Property] = paramValue
 	}
 
-- 
2.43.0


From c82670da45fdf79179db4b29d400f3f203e92994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 25/30] fix: match the relationships with the properties of the
 record only

A relationship which had the name of a property replaced it, so that
another relationship matched on this property found the related data
instead, or not, depending on the order of the map.
---
 pkg/output/json_common.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index be37f97..f612a96 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -116,9 +116,16 @@ func loadRelationships(
 	inputs inputPackage.List,
 	rootInput string,
 ) (map[string]interface{}, error) {
+	// The relationships are always matched with the properties of the record, even
+	// when another relationship has the same name as one of them and replaces it
+	properties := make(map[string]interface{}, len(data))
+	for propertyName, value := range data {
+		properties[propertyName] = value
+	}
+
 	for relationshipName, relationshipConfig := range relationships {
 		filtersPerIndex, err := getRelationshipFiltersPerIndex(
-			data,
+			properties,
 			relationshipConfig.Match,
 			relationshipName,
 		)
-- 
2.43.0


From b4eda4681480017713cadf95d036b5925484951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 26/30] fix: wait for the running requests before the end of
 the shutdown

---
 pkg/service/http.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index a884e18..33f6975 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -311,6 +311,19 @@ func (service *Http) Wait() error {
 }
 
 func (service *Http) Close() error {
+	// The servers stop serving as soon as their shutdown begins,
+	// while some requests might still be running
+	service.waitGroup.Add(1)
+	err := service.shutdown()
+	service.waitGroup.Done()
+	if err != nil {
+		return err
+	}
+
+	return service.Wait()
+}
+
+func (service *Http) shutdown() error {
 	if service.config.Http != nil {
 		if err := service.httpServer.Shutdown(context.Background()); err != nil {
 			return err
@@ -323,5 +336,5 @@ func (service *Http) Close() error {
 		}
 	}
 
-	return service.Wait()
+	return nil
 }
-- 
2.43.0


From 4f20cac25549f230e5cff49411c496266bc905e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 27/30] fix: refuse a relationship without the properties to
 match or sort on

The documentation requires parentProperty, childProperty and the property
of a sort, but an empty one was accepted, and made every request fail.
---
 pkg/input/record/sort_config.go   | 4 ++++
 pkg/output/relationship/config.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 846ccff..f777cbe 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -25,6 +25,10 @@ func (config *SortConfig) Validate(
 
 	config.Logger = log
 
+	if config.Property == "" {
+		return errors.New("property is empty. This field is required.")
+	}
+
 	// Property will be validated at runtime, because some fields
 	// cannot be checked before runtime (json parsing for example)
 
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index 7f8bbb0..7b33ab7 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -100,6 +100,14 @@ func (config *RelationshipMatchConfig) Validate(
 		return errors.New("the definition is empty")
 	}
 
+	if config.ParentProperty == "" {
+		return errors.New("parentProperty is empty. This field is required.")
+	}
+
+	if config.ChildProperty == "" {
+		return errors.New("childProperty is empty. This field is required.")
+	}
+
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
-- 
2.43.0


From 3ea1c99b085ce94ac34e77494e2125be599cc850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 28/30] fix: refuse an index without any property

The documentation requires at least one. An index which has none could not
be used by anything, or failed to be created with an SQL error.
---
 pkg/index/fts5_config.go     | 4 ++++
 pkg/index/map_config.go      | 4 ++++
 pkg/index/sqlite_config.go   | 4 ++++
 pkg/index/wildcard_config.go | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/index/fts5_config.go b/pkg/index/fts5_config.go
index cc720e0..607829c 100644
--- a/pkg/index/fts5_config.go
+++ b/pkg/index/fts5_config.go
@@ -46,6 +46,10 @@ func (config *Fts5Config) Validate(inputs map[string]input.Config, log *logrus.E
 		return fmt.Errorf("sqlite.input: Input '%v' not found in inputs list.", config.Input)
 	}
 
+	if len(config.Properties) == 0 {
+		return errors.New("fts5.properties is empty. At least one is required.")
+	}
+
 	alreadyExistingProperties := make(map[string]bool)
 	for _, propertyName := range config.Properties {
 		if _, alreadyExists := alreadyExistingProperties[propertyName]; alreadyExists {
diff --git a/pkg/index/map_config.go b/pkg/index/map_config.go
index 14a4063..c89b97a 100644
--- a/pkg/index/map_config.go
+++ b/pkg/index/map_config.go
@@ -27,6 +27,10 @@ func (config *MapConfig) Validate(inputs map[string]input.Config, log *logrus.En
 		return fmt.Errorf("map.input: Input '%v' not found in inputs list.", config.Input)
 	}
 
+	if len(config.Properties) == 0 {
+		return errors.New("map.properties is empty. At least one is required.")
+	}
+
 	alreadyExistingProperties := make(map[string]bool)
 	for _, propertyName := range config.Properties {
 		if _, alreadyExists := alreadyExistingProperties[propertyName]; alreadyExists {
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 0032c65..544eadb 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -42,6 +42,10 @@ func (config *SqliteConfig) Validate(inputs map[string]input.Config, log *logrus
 		return fmt.Errorf("sqlite.input: Input '%v' not found in inputs list.", config.Input)
 	}
 
+	if len(config.Properties) == 0 {
+		return errors.New("sqlite.properties is empty. At least one is required.")
+	}
+
 	alreadyExistingProperties := make(map[string]bool)
 	for propertyIndex, property := range config.Properties {
 		logPrefix := fmt.Sprintf("sqlite.properties[%v].", propertyIndex)
diff --git a/pkg/index/wildcard_config.go b/pkg/index/wildcard_config.go
index d8cba6d..14f4920 100644
--- a/pkg/index/wildcard_config.go
+++ b/pkg/index/wildcard_config.go
@@ -45,6 +45,10 @@ func (config *WildcardConfig) Validate(inputs map[string]input.Config, log *logr
 		return fmt.Errorf("wildcard.input: Input '%v' not found in inputs list.", config.Input)
 	}
 
+	if len(config.Properties) == 0 {
+		return errors.New("wildcard.properties is empty. At least one is required.")
+	}
+
 	alreadyExistingProperties := make(map[string]bool)
 	for _, propertyName := range config.Properties {
 		if _, alreadyExists := alreadyExistingProperties[propertyName]; alreadyExists {
-- 
2.43.0


From 4a135b426070cd92d04f1a25b82b0cca135cc96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 29/30] fix: the documented example of the fts5 index set
 tokenize twice

A duplicate key is refused when reading the configuration.
---
 docs/schema/indexes/fts5.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/schema/indexes/fts5.yaml b/docs/schema/indexes/fts5.yaml
index d1f69e1..eb7231d 100644
--- a/docs/schema/indexes/fts5.yaml
+++ b/docs/schema/indexes/fts5.yaml
@@ -15,7 +15,7 @@ examples:
     type: fts5
     dsn: ./articles.rodb
     input: articles
-    tokenize: [2, 3]
+    prefix: [2, 3]
     tokenize: "unicode61 remove_diacritics 0 tokenchars '-_'"
     properties:
       - id
-- 
2.43.0


From 0395d8f3ac0c26dd4fd95b27e3e348f22418fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 30/30] fix: limits over 2^63 made the process panic, or gave
 no record

---
 pkg/output/json_array.go  |  2 +-
 pkg/output/json_common.go | 13 +++++--------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index b44e35f..ca1246b 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -108,7 +108,7 @@ func (jsonArray *JsonArray) Handle(
 	}
 
 	rowsData := make([]interface{}, 0)
-	for len(rowsData) < int(limit) {
+	for uint(len(rowsData)) < limit {
 		position, err := nextPosition()
 		if err != nil {
 			return sendError(err)
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index f612a96..65b7e96 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -177,16 +177,13 @@ func loadRelationships(
 			relationshipRecords = relationshipRecords.Sort(relationshipConfig.Sort)
 		}
 
-		count := 0
+		limit := uint(1)
 		if relationshipConfig.IsArray {
-			count = int(relationshipConfig.Limit)
-		} else {
-			count = 1
+			limit = relationshipConfig.Limit
 		}
-		if count == 0 {
-			count = len(relationshipRecords)
-		} else if len(relationshipRecords) < count {
-			count = len(relationshipRecords)
+		count := len(relationshipRecords)
+		if limit != 0 && limit < uint(count) {
+			count = int(limit)
 		}
 
 		relationshipItems := make([]map[string]interface{}, 0, count)
-- 
2.43.0

