From 19c5301c3db73d0fa024d5149a166b96c3cebb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 01/31] fix: skip patterns that cannot be encoded instead of
 filtering with an empty prefix

ToByteSubscriptions logged the error and went on to subscribe the empty
filter string, which every tag matches.
---
 filtering/subscriptions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index ddbdfa4..28281fc 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -129,6 +129,7 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 			pfs, err := tdt.MakePrefixFilterString(tf[0], fields)
 			if err != nil {
 				log.Print(err)
+				continue
 			}
 			bsub[pfs] = &PartialSubscription{
 				Offset:    0,
-- 
2.43.0


From 8100fc32d336214b31f1d0948f9e22f623133707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 02/31] fix: do not panic on identifiers shorter than a filter

A truncated or empty identifier from the reader made FilterObject.Match
index out of range and the patricia trie panic, which ended the filtering
core.
---
 filtering/filter_object.go | 4 ++++
 filtering/patricia_trie.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/filtering/filter_object.go b/filtering/filter_object.go
index f047b0e..fc3e054 100644
--- a/filtering/filter_object.go
+++ b/filtering/filter_object.go
@@ -56,6 +56,10 @@ func (f *FilterObject) HasByteAt(bo int) bool {
 
 // Match returns true if the id is captured by this filter
 func (f *FilterObject) Match(id []byte) bool {
+	// an id too short to cover the filter is never captured
+	if f.ByteOffset+f.ByteSize > len(id) {
+		return false
+	}
 	for i := 0; i < f.ByteSize; i++ {
 		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
 			return false
diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 85dfca7..8668b41 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -413,7 +413,8 @@ func (ptn *PatriciaTrieNode) search(id []byte) (reportURIs []string) {
 	nextBitOffset := ptn.filterObject.Offset + ptn.filterObject.Size
 	nb, err := getNextBit(id, nextBitOffset)
 	if err != nil {
-		panic(err)
+		// the id ends before the next filter
+		return
 	}
 	if nb == '1' && ptn.one != nil {
 		reportURIs = append(reportURIs, ptn.one.search(id)...)
-- 
2.43.0


From badbef692df9923af46ae0c027ef8d4ca9e96416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 03/31] fix: reject EPCs with an undefined partition or
 out-of-range fields

Translating an empty identifier indexed out of range, and a company prefix
or reference with more digits than its partition allows made strings.Repeat
panic; an undefined partition gave an identity made up of the serial only.
---
 tdt/core.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/tdt/core.go b/tdt/core.go
index f4e3877..7ba029a 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -81,15 +81,57 @@ func (c *Core) Translate(pc []byte, id []byte) (string, error) {
 	return c.buildProprietary(id)
 }
 
+// epcField returns the value of n bits of the id from the bit offset
+func epcField(id []byte, offset int, n int) *big.Int {
+	z := new(big.Int)
+	for i := offset; i < offset+n; i++ {
+		z.Lsh(z, 1)
+		if id[i/8]>>uint(7-i%8)&1 == 1 {
+			z.SetBit(z, 0, 1)
+		}
+	}
+	return z
+}
+
+// validateEPC returns an error if the partition value of the id is undefined
+// or a field following it has more digits than the partition allows
+func validateEPC(id []byte, pt PartitionTable, refBits, refDigits PartitionTableKey) error {
+	if len(id) != 12 {
+		return errors.New("Invalid ID")
+	}
+	partition := int((id[1] & 28) >> 2) // 28: 00011100
+	for cpLength, v := range pt {
+		if v[PValue] != partition {
+			continue
+		}
+		if len(epcField(id, 14, v[CPBits]).String()) > cpLength {
+			return errors.New("Invalid company prefix")
+		}
+		// no digit is allotted to the reference in some partition
+		if v[refDigits] > 0 && len(epcField(id, 14+v[CPBits], v[refBits]).String()) > v[refDigits] {
+			return errors.New("Invalid reference")
+		}
+		return nil
+	}
+	return errors.New("Invalid partition")
+}
+
 func (c *Core) buildEPC(id []byte) (string, error) {
 	urn := ""
 
+	if len(id) == 0 {
+		return "", errors.New("Invalid ID")
+	}
+
 	// EPC Header
 	switch id[0] {
 	case 48: /* ------------- SGTIN-96 00110000 ------------- */
 		if len(id) != 12 {
 			return "", errors.New("Invalid ID")
 		}
+		if err := validateEPC(id, SGTIN96PartitionTable, IRBits, IRDigits); err != nil {
+			return "", err
+		}
 		urn = "urn:epc:id:sgtin:"
 		// FILTER
 		//urn += strconv.Itoa(int((id[1]&224)>>5)) + "." // 224: 11100000
@@ -266,6 +308,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 		if len(id) != 12 {
 			return "", errors.New("Invalid ID")
 		}
+		if err := validateEPC(id, SSCC96PartitionTable, EBits, EDigits); err != nil {
+			return "", err
+		}
 		urn = "urn:epc:id:sscc:"
 		// FILTER
 		//urn += strconv.Itoa(int((id[1]&224)>>5)) + "." // 224: 11100000
@@ -437,6 +482,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 		if len(id) != 12 {
 			return "", errors.New("Invalid ID")
 		}
+		if err := validateEPC(id, GRAI96PartitionTable, ATBits, ATDigits); err != nil {
+			return "", err
+		}
 		urn = "urn:epc:id:grai:"
 		// FILTER
 		//urn += strconv.Itoa(int((id[1]&224)>>5)) + "." // 224: 11100000
@@ -615,6 +663,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 		if len(id) != 12 {
 			return "", errors.New("Invalid ID")
 		}
+		if err := validateEPC(id, GIAI96PartitionTable, IARBits, IARDigits); err != nil {
+			return "", err
+		}
 		urn = "urn:epc:id:giai:"
 		// FILTER
 		//urn += strconv.Itoa(int((id[1]&224)>>5)) + "." // 224: 11100000
-- 
2.43.0


From cd2d2de3ebdc2a3853e2ca9be4a6d0f59cd4bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 04/31] fix: remove only the trailing padding from 6-bit
 encoded identifiers

Padding characters inside the text were dropped too, so a damaged
identifier was given the identity of another item.
---
 tdt/core.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tdt/core.go b/tdt/core.go
index 7ba029a..59c0f5e 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -945,10 +945,8 @@ func parse6BitEncodedByteSliceToString(in []byte) (string, error) {
 			// c = 01000000 | c
 			c |= 64
 		}
-		// if c is NOT SPACE(100000), append the c
-		if c^32 != 0 {
-			buf = append(buf, c)
-		}
+		buf = append(buf, c)
 	}
-	return string(buf), nil
+	// remove the padding of SPACE(100000)
+	return strings.TrimRight(string(buf), " "), nil
 }
-- 
2.43.0


From afedee73a05445587aacbe9b6ca8de4bfc43c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 05/31] fix: compute the ISO 17363 check digit from owner code
 and category

NewPrefixFilterISO17363 passed the data identifier and the owner code, which
is never 10 characters with the serial number, so that a full iso17363
pattern could not be subscribed.
---
 tdt/iso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdt/iso.go b/tdt/iso.go
index 496bb84..8fdd5bb 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -79,7 +79,7 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	} else if 6 < len(csn) {
 		return "", fmt.Errorf("Invalid csn: %v", csn)
 	}
-	cd, err := getISO6346CD(fields[0] + fields[1] + csn)
+	cd, err := getISO6346CD(fields[1] + fields[2] + csn)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 5c49173b38514ac3dccf7e1ec01d9005ccae527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:48 +0000
Subject: [PATCH 06/31] fix: refuse EPC pattern fields that cannot be encoded

Wildcards, company prefixes of an undefined length and values too large for
their field used to become filters for something else, or random filters.
---
 tdt/epc.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/tdt/epc.go b/tdt/epc.go
index 7bc64d3..506f15e 100644
--- a/tdt/epc.go
+++ b/tdt/epc.go
@@ -9,6 +9,7 @@ package tdt
 import (
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 
 	"github.com/iomz/go-llrp/binutil"
@@ -172,12 +173,49 @@ func getSerial(s string, serialLength int) (serial []rune) {
 	return serial
 }
 
+// validateFields returns an error if a field value cannot be encoded in the
+// scheme: fields are the filter value, company prefix, reference, and serial
+func validateFields(fields []string, pt PartitionTable, refBits PartitionTableKey, serialBits int) error {
+	bits := []int{3, 0, 0, serialBits}
+	for i, field := range fields {
+		if i >= len(bits) {
+			return fmt.Errorf("unknown fields provided %q", fields)
+		}
+		if i == 1 {
+			pr, ok := pt[len(field)]
+			if !ok {
+				return fmt.Errorf("invalid company prefix: %q", fields)
+			}
+			bits[1], bits[2] = pr[CPBits], pr[refBits]
+			if refBits == IARBits {
+				bits[2] = 63 // longer references are encoded as they are
+			}
+		}
+		if i == 2 && len(field) == 0 && refBits == ATBits && pt[len(fields[1])][ATDigits] == 0 {
+			continue // no digit is allotted to the asset type
+		}
+		for _, c := range field {
+			if c < '0' || c > '9' {
+				return fmt.Errorf("invalid field value: %q", fields)
+			}
+		}
+		n, ok := new(big.Int).SetString(field, 10)
+		if !ok || n.BitLen() > bits[i] {
+			return fmt.Errorf("invalid field value: %q", fields)
+		}
+	}
+	return nil
+}
+
 // NewPrefixFilterGIAI96 takes field values in a slice and return a prefix filter string
 func NewPrefixFilterGIAI96(fields []string) (string, error) {
 	nFields := len(fields) // filter, companyPrefix, indivisualAssetReference
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := validateFields(fields, GIAI96PartitionTable, IARBits, 0); err != nil {
+		return "", err
+	}
 
 	// filter
 	filter := getFilter(fields[0])
@@ -207,6 +245,9 @@ func NewPrefixFilterGRAI96(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := validateFields(fields, GRAI96PartitionTable, ATBits, 38); err != nil {
+		return "", err
+	}
 
 	// filter
 	filter := getFilter(fields[0])
@@ -242,6 +283,9 @@ func NewPrefixFilterSGTIN96(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := validateFields(fields, SGTIN96PartitionTable, IRBits, 38); err != nil {
+		return "", err
+	}
 
 	// filter
 	filter := getFilter(fields[0])
@@ -277,6 +321,9 @@ func NewPrefixFilterSSCC96(fields []string) (string, error) {
 	if nFields == 0 {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
+	if err := validateFields(fields, SSCC96PartitionTable, EBits, 0); err != nil {
+		return "", err
+	}
 
 	// filter
 	filter := getFilter(fields[0])
-- 
2.43.0


From afc374704cd7e4018ad3d2fcbe510dfdee3320e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 07/31] fix: splay a matched node within its own list

A nested subset node was moved to the root of the whole tree, which lost the
other subsets of its parent and made the node match without its parent.
---
 filtering/splay_tree.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 6e9b33a..f8ae3cc 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -76,7 +76,7 @@ func (st *SplayTree) Name() string {
 
 // Search returns a pureIdentity of the llrp.ReadEvent if found any subscription without err
 func (st *SplayTree) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
-	reportURIs = st.root.splaySearch(st, nil, re.ID)
+	reportURIs = st.root.splaySearch(&st.root, nil, re.ID)
 	if len(reportURIs) == 0 {
 		return pureIdentity, reportURIs, fmt.Errorf("no match found for %v", re.ID)
 	}
@@ -316,13 +316,15 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 	}
 }
 
-func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id []byte) []string {
+// splaySearch returns the matches in the list of nodes starting at root,
+// and moves the matched node to the top of the list
+func (stn *SplayTreeNode) splaySearch(root **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
 		matches = append(matches, stn.reportURI)
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
-			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
+			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
 		}
 		// Do Splay
 		// 0. Check if this is the root node, do nothing if so
@@ -330,13 +332,13 @@ func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id [
 			// 1. Remove this node by connecting parent to the next mismatchNext node
 			parent.mismatchNext = stn.mismatchNext
 			// 2. Insert self to root
-			stn.mismatchNext = st.root
-			st.root = stn
+			stn.mismatchNext = *root
+			*root = stn
 		}
 		return matches
 	}
 	if stn.mismatchNext != nil {
-		return stn.mismatchNext.splaySearch(st, stn, id)
+		return stn.mismatchNext.splaySearch(root, stn, id)
 	}
 	return matches
 }
-- 
2.43.0


From b37da46de6f417076447ab70286b63c61fc68a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:08 +0000
Subject: [PATCH 08/31] fix: report the subscription at the root of a patricia
 trie

---
 filtering/patricia_trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 8668b41..33d23ff 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -439,6 +439,10 @@ func NewPatriciaTrie(sub Subscriptions) Engine {
 	}
 	pt.root = &PatriciaTrieNode{}
 	pt.root.filterObject = NewFilter(p1, 0)
+	// check if the common prefix is itself a filter
+	if psub, ok := bsub[p1]; ok {
+		pt.root.reportURI = psub.ReportURI
+	}
 	pt.root.build(p1, bsub)
 
 	// initialize the tdt.Core
-- 
2.43.0


From b2e8eaa5cbd21f90640583833dc7ed16c1a61906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 09/31] fix: do not panic searching a splay tree without
 subscriptions

---
 filtering/splay_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index f8ae3cc..136159b 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -320,6 +320,9 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 // and moves the matched node to the top of the list
 func (stn *SplayTreeNode) splaySearch(root **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
+	if stn.filterObject == nil { // there's no subscription
+		return matches
+	}
 	if stn.filterObject.Match(id) {
 		matches = append(matches, stn.reportURI)
 		if stn.matchNext != nil {
-- 
2.43.0


From 1cd97ec534a235889157614181ce450c06c4a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:27 +0000
Subject: [PATCH 10/31] fix: report to every subscriber of the same pattern

Only one, arbitrary, report URI was kept for each encoded pattern.
---
 filtering/list.go          |  2 +-
 filtering/patricia_trie.go |  4 +---
 filtering/splay_tree.go    |  2 +-
 filtering/subscriptions.go | 24 +++++++++++++++++++++---
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/filtering/list.go b/filtering/list.go
index 1a9a8e1..cfe9ad7 100644
--- a/filtering/list.go
+++ b/filtering/list.go
@@ -109,7 +109,7 @@ func (list *List) Name() string {
 func (list *List) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
 	for _, em := range list.filters {
 		if em.filter.Match(re.ID) {
-			reportURIs = append(reportURIs, em.reportURI)
+			reportURIs = append(reportURIs, splitReportURIs(em.reportURI)...)
 		}
 	}
 	if len(reportURIs) == 0 {
diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 33d23ff..a9d0d48 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -405,9 +405,7 @@ func (ptn *PatriciaTrieNode) search(id []byte) (reportURIs []string) {
 	}
 
 	// if the id matched with this node, return reportURI
-	if len(ptn.reportURI) != 0 {
-		reportURIs = append(reportURIs, ptn.reportURI)
-	}
+	reportURIs = append(reportURIs, splitReportURIs(ptn.reportURI)...)
 
 	// Determine next filter
 	nextBitOffset := ptn.filterObject.Offset + ptn.filterObject.Size
diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 136159b..803f94e 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -324,7 +324,7 @@ func (stn *SplayTreeNode) splaySearch(root **SplayTreeNode, parent *SplayTreeNod
 		return matches
 	}
 	if stn.filterObject.Match(id) {
-		matches = append(matches, stn.reportURI)
+		matches = append(matches, splitReportURIs(stn.reportURI)...)
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
 			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 28281fc..3b83e7c 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -30,6 +30,17 @@ type PartialSubscription struct {
 	Subset    ByteSubscriptions
 }
 
+// reportURISeparator separates the URIs subscribing to the same filter in a ReportURI
+const reportURISeparator = "\n"
+
+// splitReportURIs returns the URIs contained in a ReportURI
+func splitReportURIs(reportURI string) []string {
+	if len(reportURI) == 0 {
+		return nil
+	}
+	return strings.Split(reportURI, reportURISeparator)
+}
+
 // Subscriptions contains a slice of urn:epc:pat as values and a URI to report events as keys
 type Subscriptions map[string][]string
 
@@ -119,8 +130,8 @@ func (sub Subscriptions) UnmarshalBinary(data []byte) (err error) {
 // ToByteSubscriptions preprocess the subscription and convert them in bytes
 func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 	bsub := ByteSubscriptions{}
-	for reportURI, patterns := range sub {
-		for _, pat := range patterns {
+	for _, reportURI := range sub.Keys() {
+		for _, pat := range sub[reportURI] {
 			tf := strings.Split(strings.TrimPrefix(pat, "urn:epc:pat:"), ":")
 			if len(tf) != 2 { // should only containts a type and fields
 				continue
@@ -131,9 +142,16 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 				log.Print(err)
 				continue
 			}
+			reportURIs := []string{reportURI}
+			if psub, ok := bsub[pfs]; ok { // another subscriber for the same filter
+				reportURIs = splitReportURIs(psub.ReportURI)
+				if reportURIs[len(reportURIs)-1] != reportURI {
+					reportURIs = append(reportURIs, reportURI)
+				}
+			}
 			bsub[pfs] = &PartialSubscription{
 				Offset:    0,
-				ReportURI: reportURI,
+				ReportURI: strings.Join(reportURIs, reportURISeparator),
 				Subset:    ByteSubscriptions{},
 			}
 		}
-- 
2.43.0


From 7a7b64e8370f8a578c4e72418d3f0c5719fbff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:34 +0000
Subject: [PATCH 11/31] fix: match whole pattern fields and the filter value in
 the legacy engine

---
 filtering/legacy_engine.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 9b65599..386a434 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/iomz/go-llrp"
@@ -104,28 +105,24 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 			pattern := seq[4]
 
 			switch patternType {
-			case "giai-96":
-				fields := strings.Split(seq[4], ".")
-				// remove filter value in tag uri to match with the received PureIdentity
-				pattern = "giai:" + strings.Join(fields[1:], ".")
-			case "grai-96":
-				fields := strings.Split(seq[4], ".")
-				// remove filter value in tag uri to match with the received PureIdentity
-				pattern = "grai:" + strings.Join(fields[1:], ".")
-			case "sgtin-96":
-				fields := strings.Split(seq[4], ".")
-				// remove filter value in tag uri to match with the received PureIdentity
-				pattern = "sgtin:" + strings.Join(fields[1:], ".")
-			case "sscc-96":
+			case "giai-96", "grai-96", "sgtin-96", "sscc-96":
 				fields := strings.Split(seq[4], ".")
+				// the filter value is not in the PureIdentity
+				if fv, err := strconv.Atoi(fields[0]); err != nil || fv != int(re.ID[1]>>5) {
+					continue
+				}
 				// remove filter value in tag uri to match with the received PureIdentity
-				pattern = "sscc:" + strings.Join(fields[1:], ".")
-			case "iso17363":
-				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
-			case "iso17365":
+				pattern = strings.TrimSuffix(patternType, "-96") + ":" + strings.Join(fields[1:], ".")
+				// the last field in the pattern must match as a whole
+				if !strings.HasSuffix(pattern, ":") {
+					pattern += "."
+				}
+			case "iso17363", "iso17365":
 				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
+			default:
+				continue
 			}
-			if strings.HasPrefix(strings.TrimPrefix(pureIdentity, "urn:epc:id:"), pattern) {
+			if strings.HasPrefix(strings.TrimPrefix(pureIdentity, "urn:epc:id:")+".", pattern) {
 				reportURIs = append(reportURIs, reportURI)
 			}
 		}
-- 
2.43.0


From 7944cc7fd1cec9c2124ecfa7bb2d9a62f17260bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 12/31] fix: restore legacy engines and patricia tries
 completely

The filters of a legacy engine were not restored, and the zero branch of a
patricia trie only if there was a one branch.
---
 filtering/legacy_engine.go | 8 ++++++--
 filtering/patricia_trie.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 386a434..16a73a3 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -149,6 +149,7 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	le.filters = Subscriptions{}
 	for i := 0; i < legacyEngineSize; i++ {
 		var f string
 		// filter
@@ -160,12 +161,15 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		var reportURIs []string
-		for j := 0; j < legacyEngineSize; j++ {
+		for j := 0; j < reportURIsSize; j++ {
 			// reportURI
 			var dest string
-			err = dec.Decode(&dest)
+			if err = dec.Decode(&dest); err != nil {
+				return
+			}
 			reportURIs = append(reportURIs, dest)
 		}
+		le.filters[f] = reportURIs
 	}
 
 	// tdt.Core
diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index a9d0d48..fa8949b 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -171,7 +171,7 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 	if err = dec.Decode(&hasZero); err != nil {
 		return
 	}
-	if hasOne {
+	if hasZero {
 		err = dec.Decode(&ptn.zero)
 	} else {
 		ptn.zero = nil
-- 
2.43.0


From f4073c2dac452c6bda2db2d6f77ff3a350d3c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 13/31] fix: count an event and its match together, with a
 finite throughput

The match was counted by the searching goroutine before the event, racing with
the interval report, and searches under a microsecond made the throughput
infinite.
---
 filtering/engine.go           |  6 ------
 filtering/engine_generator.go | 29 +++++++++++++++++++----------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/filtering/engine.go b/filtering/engine.go
index 1f6ab42..2930edb 100644
--- a/filtering/engine.go
+++ b/filtering/engine.go
@@ -8,7 +8,6 @@ package filtering
 import (
 	"fmt"
 	"log"
-	"time"
 
 	"github.com/iomz/go-llrp"
 )
@@ -40,11 +39,6 @@ var AvailableEngines = Engines{
 }
 
 /* internal helper func */
-// timeTrack measures the time it taken from the start
-func timeTrack(start time.Time, tpech chan time.Duration) {
-	tpech <- time.Since(start)
-}
-
 // findPartialLCP discovers the the commonPrefix of which the majority share
 // reutrns the prefix and the size of the majority in len(l)
 func findPartialLCP(l []string) (string, int) {
diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 77f0d4b..1eccfa6 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -8,7 +8,6 @@ package filtering
 import (
 	"context"
 	"log"
-	"math"
 	"time"
 
 	//"reflect"
@@ -23,7 +22,7 @@ type EngineGenerator struct {
 	Name                string
 	Engine              Engine
 	managementChannel   chan ManagementMessage
-	timePerEventChannel chan time.Duration
+	timePerEventChannel chan eventTime
 	totalTime           int64
 	CurrentThroughput   float64
 	EventCount          int64
@@ -31,6 +30,12 @@ type EngineGenerator struct {
 	statInterval        int
 }
 
+// eventTime is the time taken by a search, and if it matched
+type eventTime struct {
+	elapsed time.Duration
+	matched bool
+}
+
 // NewEngineGenerator returns the pointer to a new EngineGenerator instance
 func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc chan ManagementMessage) *EngineGenerator {
 	eg := &EngineGenerator{
@@ -64,7 +69,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 		},
 	)
 
-	eg.timePerEventChannel = make(chan time.Duration)
+	eg.timePerEventChannel = make(chan eventTime)
 	go func() {
 		intervalTicker := time.NewTicker(time.Duration(eg.statInterval) * time.Second)
 
@@ -75,8 +80,11 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					log.Fatalf("throughput monitor in EngingGenerator[%s] died", eg.Name)
 				}
 				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.Nanoseconds())
-				eg.totalTime += t.Nanoseconds() / 1000 // microseconds
+				eg.totalTime += t.elapsed.Nanoseconds()
 				eg.EventCount++
+				if t.matched {
+					eg.MatchedCount++
+				}
 			case <-intervalTicker.C:
 				//log.Printf("%v, %v, %v", eg.Name, eg.EventCount, eg.MatchedCount)
 				eg.managementChannel <- ManagementMessage{
@@ -85,9 +93,9 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					EventCount:   eg.EventCount,
 					MatchedCount: eg.MatchedCount,
 				}
-				throughput := float64(eg.EventCount) / float64(eg.totalTime)
-				if throughput != 0 && !math.IsNaN(throughput) {
-					eg.CurrentThroughput = throughput
+				if eg.EventCount != 0 && eg.totalTime > 0 {
+					// events per microsecond
+					eg.CurrentThroughput = float64(eg.EventCount) * 1000 / float64(eg.totalTime)
 					eg.managementChannel <- ManagementMessage{
 						Type:              EngineStatus,
 						EngineName:        eg.Name,
@@ -106,10 +114,11 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 
 // Search do search in the generated engine
 func (eg *EngineGenerator) Search(re llrp.ReadEvent) (string, []string, error) {
-	defer timeTrack(time.Now(), eg.timePerEventChannel)
+	start := time.Now()
 	pureIdentity, reportURIs, err := eg.Engine.Search(re)
-	if len(reportURIs) != 0 {
-		eg.MatchedCount++
+	eg.timePerEventChannel <- eventTime{
+		elapsed: time.Since(start),
+		matched: len(reportURIs) != 0,
 	}
 	return pureIdentity, reportURIs, err
 }
-- 
2.43.0


From fa92e7cb2e623d06a09d0cc949815bbcd5e83a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 14/31] fix: select the engine in use once per search and
 replace it atomically

A search could run twice in the same engine or with an engine replaced half-way,
and two replacements could overwrite each other.
---
 filtering/engine_factory.go | 73 ++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 0bf2319..5e25e4e 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -25,25 +25,42 @@ type EngineFactory struct {
 	deploymentPriority   map[string]uint8
 	enginePerformance    sync.Map
 	currentEngineName    string
+	currentEngineMutex   sync.RWMutex
 	statInterval         int
 }
 
+// currentEngine returns the name of the engine in use
+func (ef *EngineFactory) currentEngine() string {
+	ef.currentEngineMutex.RLock()
+	defer ef.currentEngineMutex.RUnlock()
+	return ef.currentEngineName
+}
+
+// replaceEngine sets the engine in use to the name replace returns for the
+// current one, and returns both names
+func (ef *EngineFactory) replaceEngine(replace func(current string) string) (previous string, current string) {
+	ef.currentEngineMutex.Lock()
+	defer ef.currentEngineMutex.Unlock()
+	previous = ef.currentEngineName
+	ef.currentEngineName = replace(previous)
+	return previous, ef.currentEngineName
+}
+
 // IsActive returns false if no engine is available
 func (ef *EngineFactory) IsActive() bool {
-	if len(ef.currentEngineName) == 0 {
-		return false
-	}
-	return true
+	return len(ef.currentEngine()) != 0
 }
 
 // Search is a wrapper for Search() with the current EngineGenerator
 func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
+	// the current engine can be replaced while searching
+	current := ef.currentEngine()
 	for name, eg := range ef.productionSystem {
-		if name != ef.currentEngineName && eg.FSM.Is("ready") {
+		if name != current && eg.FSM.Is("ready") {
 			_, _, _ = eg.Search(re)
 		}
 	}
-	return ef.productionSystem[ef.currentEngineName].Search(re)
+	return ef.productionSystem[current].Search(re)
 }
 
 // NewEngineFactory returns the pointer to a new EngineFactory instance
@@ -104,13 +121,18 @@ func (ef *EngineFactory) Run() {
 					}
 					return true
 				})
-				if ef.currentEngineName != ename && len(ename) != 0 {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
-					ef.currentEngineName = ename
+				previous, current := ef.replaceEngine(func(current string) string {
+					if len(ename) != 0 {
+						return ename
+					}
+					return current
+				})
+				if previous != current {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", current, previous)
 				}
 				ef.mainChannel <- ManagementMessage{
 					Type:       SelectedEngine,
-					EngineName: ef.currentEngineName,
+					EngineName: current,
 				}
 			}
 		}
@@ -165,25 +187,26 @@ func (ef *EngineFactory) Run() {
 				*/
 			case OnEngineGenerated:
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
-				if len(ef.currentEngineName) == 0 {
-					log.Printf("[EngineFactory] set %s as an initial engine", msg.EngineGeneratorInstance.Name)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
-					ef.mainChannel <- ManagementMessage{
-						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+				previous, current := ef.replaceEngine(func(current string) string {
+					name := msg.EngineGeneratorInstance.Name
+					if len(current) == 0 || ef.deploymentPriority[current] < ef.deploymentPriority[name] {
+						return name
 					}
+					return current
+				})
+				if previous == current {
+					log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, current)
 					continue
 				}
-				if ef.deploymentPriority[ef.currentEngineName] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
-					ef.mainChannel <- ManagementMessage{
-						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
-					}
-					continue
+				if len(previous) == 0 {
+					log.Printf("[EngineFactory] set %s as an initial engine", current)
+				} else {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s", current, previous)
+				}
+				ef.mainChannel <- ManagementMessage{
+					Type:       SelectedEngine,
+					EngineName: current,
 				}
-				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
 			case TrafficStatus:
 				ef.mainChannel <- msg // bypass the status message from generators to main
 			case EngineStatus:
-- 
2.43.0


From ff727dcc045b84a61de57173bf8740f12d78eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:16 +0000
Subject: [PATCH 15/31] fix: do not consume the announcements sent to the main
 channel

---
 filtering/engine_factory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 5e25e4e..e2bd523 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -101,9 +101,9 @@ func NewEngineFactory(sub Subscriptions, statInterval int, mc chan ManagementMes
 // Run starts the engine factory to react with the ManagementChannel
 func (ef *EngineFactory) Run() {
 	log.Println("[EngineFactory] start running")
-	// set channels from EngineGenerators + main
-	cases := make([]reflect.SelectCase, len(ef.generatorChannels)+1)
-	for i, ch := range append(ef.generatorChannels, ef.mainChannel) {
+	// set channels from EngineGenerators
+	cases := make([]reflect.SelectCase, len(ef.generatorChannels))
+	for i, ch := range ef.generatorChannels {
 		cases[i] = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
 	}
 	go func() {
-- 
2.43.0


From df5d58c1a330e84ccf1020ac2e055c0d1dd0fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 16/31] fix: keep filtering and recover when InfluxDB fails or
 hangs

A failed write ended the middleware, a write without an answer blocked it, and
every point was written again with all the following ones.
---
 cmd/gosstrak-fc/main.go    | 12 +++++------
 monitoring/stat_manager.go | 44 +++++++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index ff9734e..1f5e370 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -141,26 +141,26 @@ func run() {
 			switch msg.Type {
 			case filtering.TrafficStatus:
 				if *enableStat {
-					sm.StatMessageChannel <- monitoring.StatMessage{
+					sm.Send(monitoring.StatMessage{
 						Type:  monitoring.Traffic,
 						Value: []interface{}{msg.EventCount, msg.MatchedCount},
 						Name:  msg.EngineName,
-					}
+					})
 				}
 			case filtering.EngineStatus:
 				if *enableStat {
-					sm.StatMessageChannel <- monitoring.StatMessage{
+					sm.Send(monitoring.StatMessage{
 						Type:  monitoring.EngineThroughput,
 						Value: []interface{}{msg.CurrentThroughput},
 						Name:  msg.EngineName,
-					}
+					})
 				}
 			case filtering.SelectedEngine:
 				if *enableStat {
-					sm.StatMessageChannel <- monitoring.StatMessage{
+					sm.Send(monitoring.StatMessage{
 						Type: monitoring.SelectedEngine,
 						Name: msg.EngineName,
-					}
+					})
 				}
 			}
 		}
diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index acfbe27..bedd191 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -13,11 +13,28 @@ import (
 	client "github.com/influxdata/influxdb1-client/v2"
 )
 
+const (
+	// writeTimeout limits the time to write a stat to InfluxDB
+	writeTimeout = 5 * time.Second
+	// queueSize is the number of stats to keep while InfluxDB is not responding
+	queueSize = 128
+)
+
 // StatManager receives stat and publish them to InfluxDB
 type StatManager struct {
 	StatMessageChannel chan StatMessage
 }
 
+// Send passes a stat to the StatManager without waiting,
+// the stat is dropped if too many stats are queued already
+func (sm *StatManager) Send(msg StatMessage) {
+	select {
+	case sm.StatMessageChannel <- msg:
+	default:
+		log.Printf("[StatManager] dropped a stat for %s", msg.Name)
+	}
+}
+
 // NewStatManager creates a new instance of StatManager
 func NewStatManager(mode string, addr string, user string, pass string, db string) *StatManager {
 	// create a new HTTPClient
@@ -25,23 +42,15 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 		Addr:     addr,
 		Username: user,
 		Password: pass,
+		Timeout:  writeTimeout,
 	})
 	if err != nil {
 		log.Fatal(err)
 	}
 	defer c.Close()
 
-	// create a new point batch
-	bp, err := client.NewBatchPoints(client.BatchPointsConfig{
-		Database:  db,
-		Precision: "ns",
-	})
-	if err != nil {
-		log.Fatal(err)
-	}
-
 	// make the stat message channel
-	smc := make(chan StatMessage)
+	smc := make(chan StatMessage, queueSize)
 
 	go func() {
 		for {
@@ -93,13 +102,24 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			}
 			pt, err := client.NewPoint(measurement, tags, fields, time.Now())
 			if err != nil {
-				log.Fatal(err)
+				log.Print(err)
+				continue
+			}
+
+			// create a new point batch
+			bp, err := client.NewBatchPoints(client.BatchPointsConfig{
+				Database:  db,
+				Precision: "ns",
+			})
+			if err != nil {
+				log.Print(err)
+				continue
 			}
 			bp.AddPoint(pt)
 
 			// write the batch
 			if err := c.Write(bp); err != nil {
-				log.Fatal(err)
+				log.Print(err)
 			}
 		}
 		// close client resources
-- 
2.43.0


From 932b0dbbb893f155add49a3e7ebce2e9da3224b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 17/31] fix: refuse LLRP messages of an impossible length

A length below the header size underflowed to almost 4 GiB.
---
 cmd/gosstrak-fc/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index 1f5e370..5240439 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -32,6 +32,8 @@ const (
 	// BufferSize is a general size for a buffer
 	BufferSize = 64 * 1024 // 64 KiB
 	QueueSize  = 128
+	// MaxMessageSize is the largest LLRP message accepted
+	MaxMessageSize = 16 * 1024 * 1024 // 16 MiB
 )
 
 // Environmental variables
@@ -274,9 +276,13 @@ func run() {
 		// length containts the size of the entire message in octets
 		// starting from bit offset 0, hence, the message size is
 		// length - 10 bytes
+		messageLength := binary.BigEndian.Uint32(length)
+		if messageLength < 10 || messageLength > MaxMessageSize {
+			log.Fatalf("Invalid LLRP Message Length: %v\n", messageLength)
+		}
 		var messageValue []byte
-		if messageSize := binary.BigEndian.Uint32(length) - 10; messageSize != 0 {
-			messageValue = make([]byte, binary.BigEndian.Uint32(length)-10)
+		if messageSize := messageLength - 10; messageSize != 0 {
+			messageValue = make([]byte, messageSize)
 			_, err = io.ReadFull(conn, messageValue)
 			if err != nil {
 				log.Fatal(err)
-- 
2.43.0


From 6059ae942ec0a9b229581901b69e1f19f1860787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:49 +0000
Subject: [PATCH 18/31] fix: fail when the output of gobtags cannot be written

---
 cmd/gobtags/main.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmd/gobtags/main.go b/cmd/gobtags/main.go
index 1fb7478..af463fd 100644
--- a/cmd/gobtags/main.go
+++ b/cmd/gobtags/main.go
@@ -6,6 +6,7 @@
 package main
 
 import (
+	"encoding/gob"
 	"log"
 	"os"
 	"strconv"
@@ -38,10 +39,25 @@ func makeUint16PC(s string) (uint16, error) {
 	return uint16(pc64), err
 }
 
+// save writes the object to the file, and returns an error unless it is complete
+func save(path string, object interface{}) error {
+	file, err := os.Create(path)
+	if err != nil {
+		return err
+	}
+	if err := gob.NewEncoder(file).Encode(object); err != nil {
+		file.Close()
+		return err
+	}
+	return file.Close()
+}
+
 func main() {
 	kingpin.MustParse(app.Parse(os.Args[1:]))
 	tags := llrp.LoadTagsFromCSV(*inFile)
-	binutil.Save(*outFile, &tags)
+	if err := save(*outFile, &tags); err != nil {
+		log.Fatal(err)
+	}
 	/*
 		var tagBuf bytes.Buffer
 		enc := gob.NewEncoder(&tagBuf)
-- 
2.43.0


From 1886d98b522102ef7865feaec3643c082f11f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:05 +0000
Subject: [PATCH 19/31] fix: do not panic on empty identifiers in the legacy
 engine

---
 filtering/legacy_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 16a73a3..206b3c1 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -108,7 +108,7 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 			case "giai-96", "grai-96", "sgtin-96", "sscc-96":
 				fields := strings.Split(seq[4], ".")
 				// the filter value is not in the PureIdentity
-				if fv, err := strconv.Atoi(fields[0]); err != nil || fv != int(re.ID[1]>>5) {
+				if fv, err := strconv.Atoi(fields[0]); err != nil || len(re.ID) < 2 || fv != int(re.ID[1]>>5) {
 					continue
 				}
 				// remove filter value in tag uri to match with the received PureIdentity
-- 
2.43.0


From 407b1e8d32612cbf59393c6033dc520e744957c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:00 +0000
Subject: [PATCH 20/31] fix: announce engine replacements in the order they
 take effect

---
 filtering/engine_factory.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index e2bd523..05310c7 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -26,6 +26,7 @@ type EngineFactory struct {
 	enginePerformance    sync.Map
 	currentEngineName    string
 	currentEngineMutex   sync.RWMutex
+	announcementMutex    sync.Mutex // keeps the announcements in the order of the replacements
 	statInterval         int
 }
 
@@ -121,6 +122,7 @@ func (ef *EngineFactory) Run() {
 					}
 					return true
 				})
+				ef.announcementMutex.Lock()
 				previous, current := ef.replaceEngine(func(current string) string {
 					if len(ename) != 0 {
 						return ename
@@ -134,6 +136,7 @@ func (ef *EngineFactory) Run() {
 					Type:       SelectedEngine,
 					EngineName: current,
 				}
+				ef.announcementMutex.Unlock()
 			}
 		}
 	}()
@@ -187,6 +190,7 @@ func (ef *EngineFactory) Run() {
 				*/
 			case OnEngineGenerated:
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
+				ef.announcementMutex.Lock()
 				previous, current := ef.replaceEngine(func(current string) string {
 					name := msg.EngineGeneratorInstance.Name
 					if len(current) == 0 || ef.deploymentPriority[current] < ef.deploymentPriority[name] {
@@ -195,6 +199,7 @@ func (ef *EngineFactory) Run() {
 					return current
 				})
 				if previous == current {
+					ef.announcementMutex.Unlock()
 					log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, current)
 					continue
 				}
@@ -207,6 +212,7 @@ func (ef *EngineFactory) Run() {
 					Type:       SelectedEngine,
 					EngineName: current,
 				}
+				ef.announcementMutex.Unlock()
 			case TrafficStatus:
 				ef.mainChannel <- msg // bypass the status message from generators to main
 			case EngineStatus:
-- 
2.43.0


From dd55fca62f5ef25133474dff7fec0a91720d7d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 21/31] fix: the legacy engine matches ISO patterns written in
 lowercase like the other engines

---
 filtering/legacy_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 206b3c1..27d4476 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -118,7 +118,7 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 					pattern += "."
 				}
 			case "iso17363", "iso17365":
-				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
+				pattern = patternType + ":" + strings.Replace(strings.ToUpper(pattern), ".", "", -1)
 			default:
 				continue
 			}
-- 
2.43.0


From 19663045afa88f0e63c7116275e418f05827648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:56 +0000
Subject: [PATCH 22/31] fix: filters are made from every pattern the loader
 accepts, whatever the case of its prefix

---
 filtering/subscriptions.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 3b83e7c..470c0e6 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -132,7 +132,10 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 	bsub := ByteSubscriptions{}
 	for _, reportURI := range sub.Keys() {
 		for _, pat := range sub[reportURI] {
-			tf := strings.Split(strings.TrimPrefix(pat, "urn:epc:pat:"), ":")
+			if strings.HasPrefix(strings.ToLower(pat), "urn:epc:pat:") { // as in LoadSubscriptionsFromCSVFile
+				pat = pat[len("urn:epc:pat:"):]
+			}
+			tf := strings.Split(pat, ":")
 			if len(tf) != 2 { // should only containts a type and fields
 				continue
 			}
-- 
2.43.0


From 57145c04c84118591051557759c861953cb1d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:14 +0000
Subject: [PATCH 23/31] fix: the legacy engine reads the fields of patterns
 like the other engines

---
 filtering/legacy_engine.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 27d4476..80ce300 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -108,7 +108,7 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 			case "giai-96", "grai-96", "sgtin-96", "sscc-96":
 				fields := strings.Split(seq[4], ".")
 				// the filter value is not in the PureIdentity
-				if fv, err := strconv.Atoi(fields[0]); err != nil || len(re.ID) < 2 || fv != int(re.ID[1]>>5) {
+				if fv, err := strconv.ParseUint(fields[0], 10, 3); err != nil || len(re.ID) < 2 || byte(fv) != re.ID[1]>>5 {
 					continue
 				}
 				// remove filter value in tag uri to match with the received PureIdentity
@@ -118,6 +118,18 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 					pattern += "."
 				}
 			case "iso17363", "iso17365":
+				fields := strings.Split(pattern, ".")
+				if len(fields) > 4 {
+					continue
+				}
+				// the container serial number has 6 digits
+				if patternType == "iso17363" && len(fields) == 4 {
+					if len(fields[3]) > 6 {
+						continue
+					}
+					fields[3] = strings.Repeat("0", 6-len(fields[3])) + fields[3]
+					pattern = strings.Join(fields, ".")
+				}
 				pattern = patternType + ":" + strings.Replace(strings.ToUpper(pattern), ".", "", -1)
 			default:
 				continue
-- 
2.43.0


From 7137634b0bec25ab7d80236c2802cd96023e2571 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 02:44:48 +0000
Subject: [PATCH 24/31] fix: running out of file descriptors does not end the
 middleware

A failing accept at the management port ended the process (log.Fatal), and
at the event capture server ended the server, so that enough clients could
stop the filtering. Temporary failures are now retried.
---
 cmd/ale-ec/main.go      | 6 ++++++
 cmd/gosstrak-fc/main.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cmd/ale-ec/main.go b/cmd/ale-ec/main.go
index 4a2c505..3a102e8 100644
--- a/cmd/ale-ec/main.go
+++ b/cmd/ale-ec/main.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"time"
 
 	"github.com/alecthomas/kingpin/v2"
 	"github.com/moby/spdystream"
@@ -41,6 +42,11 @@ func main() {
 		c, err := listener.Accept()
 		if err != nil {
 			log.Print(err)
+			// running out of file descriptors must not end the server
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				time.Sleep(100 * time.Millisecond)
+				continue
+			}
 			break
 		}
 
diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index 5240439..a360e0e 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -188,6 +188,12 @@ func run() {
 		for {
 			c, err := managementListener.Accept()
 			if err != nil {
+				// running out of file descriptors must not stop the filtering
+				if ne, ok := err.(net.Error); ok && ne.Temporary() {
+					log.Print(err)
+					time.Sleep(100 * time.Millisecond)
+					continue
+				}
 				log.Fatal(err)
 				break
 			}
-- 
2.43.0


From 88e8ea4dfc8d1f54b7dbfedecbd7fc22057e431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 25/31] fix: adding to and deleting from the list engine keeps
 the other subscribers of a filter

---
 filtering/list.go          | 27 ++++++++++++++++++++-------
 filtering/subscriptions.go | 22 ++++++++++++++++++++++
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/filtering/list.go b/filtering/list.go
index cfe9ad7..1801656 100644
--- a/filtering/list.go
+++ b/filtering/list.go
@@ -39,8 +39,10 @@ func (list *List) AddSubscription(sub Subscriptions) {
 			filter:    NewFilter(fs, bsub[fs].Offset),
 			reportURI: bsub[fs].ReportURI,
 		}
-		if list.filters.IndexOf(em) < 0 {
+		if i := list.filters.indexOfFilter(em.filter); i < 0 {
 			list.filters = append(list.filters, em)
+		} else { // another subscriber for the same filter
+			list.filters[i].reportURI = addReportURIs(list.filters[i].reportURI, em.reportURI)
 		}
 	}
 }
@@ -50,12 +52,12 @@ func (list *List) DeleteSubscription(sub Subscriptions) {
 	bsub := sub.ToByteSubscriptions()
 	// store ExactMatch in sorted order from sub
 	for _, fs := range bsub.Keys() {
-		em := &ExactMatch{
-			filter:    NewFilter(fs, bsub[fs].Offset),
-			reportURI: bsub[fs].ReportURI,
-		}
-		if i := list.filters.IndexOf(em); i > -1 {
-			list.filters = append(list.filters[:i], list.filters[i+1:]...)
+		if i := list.filters.indexOfFilter(NewFilter(fs, bsub[fs].Offset)); i > -1 {
+			em := list.filters[i]
+			em.reportURI = removeReportURIs(em.reportURI, bsub[fs].ReportURI)
+			if len(em.reportURI) == 0 {
+				list.filters = append(list.filters[:i], list.filters[i+1:]...)
+			}
 		}
 	}
 }
@@ -71,6 +73,17 @@ func (lf ListFilters) IndexOf(em *ExactMatch) int {
 	return -1
 }
 
+// indexOfFilter check the index of the ExactMatch with the filter
+// returns -1 if not exist
+func (lf ListFilters) indexOfFilter(filter *FilterObject) int {
+	for i, a := range lf {
+		if reflect.DeepEqual(a.filter, filter) {
+			return i
+		}
+	}
+	return -1
+}
+
 // Dump returs a string representation of the PatriciaTrie
 func (list *List) Dump() string {
 	writer := &bytes.Buffer{}
diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 470c0e6..04414d8 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -41,6 +41,28 @@ func splitReportURIs(reportURI string) []string {
 	return strings.Split(reportURI, reportURISeparator)
 }
 
+// addReportURIs returns the ReportURI with the URIs in added which it doesn't contain yet
+func addReportURIs(reportURI string, added string) string {
+	reportURIs := splitReportURIs(reportURI)
+	for _, uri := range splitReportURIs(added) {
+		if stringIndexInSlice(uri, reportURIs) < 0 {
+			reportURIs = append(reportURIs, uri)
+		}
+	}
+	return strings.Join(reportURIs, reportURISeparator)
+}
+
+// removeReportURIs returns the ReportURI without the URIs in removed
+func removeReportURIs(reportURI string, removed string) string {
+	reportURIs := []string{}
+	for _, uri := range splitReportURIs(reportURI) {
+		if stringIndexInSlice(uri, splitReportURIs(removed)) < 0 {
+			reportURIs = append(reportURIs, uri)
+		}
+	}
+	return strings.Join(reportURIs, reportURISeparator)
+}
+
 // Subscriptions contains a slice of urn:epc:pat as values and a URI to report events as keys
 type Subscriptions map[string][]string
 
-- 
2.43.0


From 235e6041f7239f6ff14327015bf6fd603fd87694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 26/31] fix: the legacy engine deletes every given pattern and
 keeps its own copy of added ones

---
 filtering/legacy_engine.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 80ce300..a766cbb 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -21,13 +21,14 @@ type LegacyEngine struct {
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
 		if reportURIs, ok := le.filters[f]; !ok {
-			le.filters[f] = sub[f]
+			le.filters[f] = append([]string{}, sub[f]...)
 		} else {
 			for _, dest := range sub[f] {
 				if stringIndexInSlice(dest, reportURIs) < 0 {
-					le.filters[f] = append(le.filters[f], dest)
+					reportURIs = append(reportURIs, dest)
 				}
 			}
+			le.filters[f] = reportURIs
 		}
 	}
 }
@@ -40,9 +41,10 @@ func (le *LegacyEngine) DeleteSubscription(sub Subscriptions) {
 		} else {
 			for _, dest := range sub[f] {
 				if i := stringIndexInSlice(dest, reportURIs); i > -1 {
-					le.filters[f] = append(reportURIs[:i], reportURIs[i+1:]...)
+					reportURIs = append(reportURIs[:i], reportURIs[i+1:]...)
 				}
 			}
+			le.filters[f] = reportURIs
 			if len(le.filters[f]) == 0 {
 				delete(le.filters, f)
 			}
-- 
2.43.0


From 9835b2c517a814575a54601181b87e224549e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 27/31] fix: adding to and deleting from the patricia trie
 keeps other subscribers and filters

---
 filtering/patricia_trie.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index fa8949b..ff225e3 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -186,10 +186,8 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 func (ptn *PatriciaTrieNode) add(fs string, reportURI string) {
 	if strings.HasPrefix(fs, ptn.filterObject.String) { // fs \in pt.FilterObject.String
 		if fs == ptn.filterObject.String { // the identical filter
-			// if the reportURI is different, update it
-			if ptn.reportURI != reportURI {
-				ptn.reportURI = reportURI
-			}
+			// if there are new reportURIs, add them
+			ptn.reportURI = addReportURIs(ptn.reportURI, reportURI)
 			return //end
 		}
 		//} else if len(fs) < pt.filterObject.Size { // Needs a reconstruction
@@ -204,7 +202,15 @@ func (ptn *PatriciaTrieNode) add(fs string, reportURI string) {
 		ptn.reportURI = ""
 		currentOffset := ptn.filterObject.Offset
 		ptn.filterObject = NewFilter(newCommonPrefix, currentOffset)
-		if ncpLength >= len(fs) {
+		if ncpLength >= len(fs) { // this node is the filter to add
+			ptn.reportURI = reportURI
+			ptn.one, ptn.zero = nil, nil
+			switch newNode.filterObject.String[0] {
+			case '1':
+				ptn.one = newNode
+			case '0':
+				ptn.zero = newNode
+			}
 			return
 		}
 		switch fs[ncpLength] {
@@ -314,6 +320,10 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 
 	// This is the filter to delete
 	if fs == ptn.filterObject.String {
+		ptn.reportURI = removeReportURIs(ptn.reportURI, reportURI)
+		if len(ptn.reportURI) != 0 { // the filter has other subscribers
+			return
+		}
 		if ptn.one != nil && ptn.zero != nil { // node in the middle
 			ptn.reportURI = ""
 		} else if ptn.one != nil { // has only one node
@@ -337,20 +347,18 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		switch fs[ptn.filterObject.Size] {
 		case '1':
 			if ptn.one != nil {
-				if fs[ptn.filterObject.Size:] == ptn.one.filterObject.String &&
+				ptn.one.delete(fs[ptn.filterObject.Size:], reportURI)
+				if len(ptn.one.reportURI) == 0 &&
 					ptn.one.one == nil && ptn.one.zero == nil {
 					ptn.one = nil
-				} else {
-					ptn.one.delete(fs[ptn.filterObject.Size:], reportURI)
 				}
 			}
 		case '0':
 			if ptn.zero != nil {
-				if fs[ptn.filterObject.Size:] == ptn.zero.filterObject.String &&
+				ptn.zero.delete(fs[ptn.filterObject.Size:], reportURI)
+				if len(ptn.zero.reportURI) == 0 &&
 					ptn.zero.one == nil && ptn.zero.zero == nil {
 					ptn.zero = nil
-				} else {
-					ptn.zero.delete(fs[ptn.filterObject.Size:], reportURI)
 				}
 			}
 		}
-- 
2.43.0


From fef44866c7ca615abcb276170f9a37bb3a4e185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 28/31] fix: adding to and deleting from the splay tree keeps
 other subscribers, filters and the last node

---
 filtering/splay_tree.go | 54 +++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 803f94e..cc99723 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -182,12 +182,15 @@ func (stn *SplayTreeNode) UnmarshalBinary(data []byte) (err error) {
 
 // add a set of subscriptions if not exists yet
 func (stn *SplayTreeNode) add(fs string, reportURI string) {
+	if stn.filterObject == nil { // there's no subscription
+		stn.filterObject = NewFilter(fs, 0)
+		stn.reportURI = reportURI
+		return
+	}
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // the identical filter
-			// if the reportURI is different, update it
-			if stn.reportURI != reportURI {
-				stn.reportURI = reportURI
-			}
+			// if there are new reportURIs, add them
+			stn.reportURI = addReportURIs(stn.reportURI, reportURI)
 		} else { // it's a subset (matching branch) of the current node, and there's no matchNext node
 			if stn.matchNext == nil {
 				stn.matchNext = &SplayTreeNode{}
@@ -197,6 +200,27 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 				stn.matchNext.add(fs[stn.filterObject.Size:], reportURI)
 			}
 		}
+	} else if strings.HasPrefix(stn.filterObject.String, fs) { // the current node is a subset of fs
+		subset := &SplayTreeNode{
+			reportURI:    stn.reportURI,
+			filterObject: NewFilter(stn.filterObject.String[len(fs):], stn.filterObject.Offset+len(fs)),
+			matchNext:    stn.matchNext,
+		}
+		stn.filterObject = NewFilter(fs, stn.filterObject.Offset)
+		stn.reportURI = reportURI
+		stn.matchNext = subset
+		// move the other subsets of fs from the mismatching branch
+		for parent := stn; parent.mismatchNext != nil; {
+			next := parent.mismatchNext
+			if !strings.HasPrefix(next.filterObject.String, fs) {
+				parent = next
+				continue
+			}
+			parent.mismatchNext = next.mismatchNext
+			next.filterObject = NewFilter(next.filterObject.String[len(fs):], next.filterObject.Offset+len(fs))
+			next.mismatchNext = subset.mismatchNext
+			subset.mismatchNext = next
+		}
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext == nil { // there's no mismatchNext node
 			stn.mismatchNext = &SplayTreeNode{}
@@ -234,9 +258,17 @@ func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 
 // delete a set of subscriptions if not exists yet
 func (stn *SplayTreeNode) delete(fs string, reportURI string) {
+	if stn.filterObject == nil { // there's no subscription
+		return
+	}
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
-			if stn.matchNext == nil && stn.mismatchNext == nil { // something wrong
+			stn.reportURI = removeReportURIs(stn.reportURI, reportURI)
+			if len(stn.reportURI) != 0 { // the filter has other subscribers
+				return
+			}
+			if stn.matchNext == nil && stn.mismatchNext == nil { // nothing is left at this node
+				stn.filterObject = nil
 			} else if stn.matchNext != nil { // if there is subset, keep the node as an aggregation node
 				if stn.matchNext.mismatchNext != nil {
 					stn.reportURI = ""
@@ -253,21 +285,17 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 			}
 		} else { // it's a subset (matching branch) of the current node, and there's no matchNext node
 			if stn.matchNext != nil { // if there's a matchNext node
-				if fs[stn.filterObject.Size:] == stn.matchNext.filterObject.String &&
-					stn.matchNext.matchNext == nil && stn.matchNext.mismatchNext == nil { // the matchNext is to delete
+				stn.matchNext.delete(fs[stn.filterObject.Size:], reportURI)
+				if stn.matchNext.filterObject == nil { // nothing is left in the matchNext
 					stn.matchNext = nil
-				} else {
-					stn.matchNext.delete(fs[stn.filterObject.Size:], reportURI)
 				}
 			}
 		}
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext != nil { // there's a mismatchNext node
-			if fs == stn.mismatchNext.filterObject.String &&
-				stn.mismatchNext.matchNext == nil && stn.mismatchNext.mismatchNext == nil {
+			stn.mismatchNext.delete(fs, reportURI)
+			if stn.mismatchNext.filterObject == nil { // nothing is left in the mismatchNext
 				stn.mismatchNext = nil
-			} else {
-				stn.mismatchNext.delete(fs, reportURI)
 			}
 		}
 	}
-- 
2.43.0


From 3db3acbdee44d2f48793f77883a0e44360de3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:29 +0000
Subject: [PATCH 29/31] fix: let go of mirrored streams whose client went away

A stream whose reply or copy failed was left open with nobody reading it, which
blocked Serve for ever when a client went away with data under way: its
goroutines were never released.
---
 cmd/ale-ec/main.go      | 33 ++++++++++++++++++++++++++++++++-
 cmd/gosstrak-fc/main.go | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/cmd/ale-ec/main.go b/cmd/ale-ec/main.go
index 3a102e8..a76b25e 100644
--- a/cmd/ale-ec/main.go
+++ b/cmd/ale-ec/main.go
@@ -6,8 +6,10 @@
 package main
 
 import (
+	"io"
 	"log"
 	"net"
+	"net/http"
 	"os"
 	"time"
 
@@ -26,6 +28,35 @@ var (
 	port = app.Flag("port", "Listening port.").Short('p').Default("9323").String()
 )
 
+// mirrorStream mirrors a stream like spdystream.MirrorStreamHandler does, but
+// gives the stream up as soon as its client cannot be written to anymore: a
+// stream that nobody reads blocks the connection from being cleaned up.
+func mirrorStream(stream *spdystream.Stream) {
+	if err := stream.SendReply(http.Header{}, false); err != nil {
+		stream.Reset()
+		return
+	}
+
+	go func() {
+		if _, err := io.Copy(stream, stream); err != nil {
+			stream.Reset()
+			return
+		}
+		stream.Close()
+	}()
+	go func() {
+		for {
+			header, err := stream.ReceiveHeader()
+			if err != nil {
+				return
+			}
+			if err := stream.SendHeader(header, false); err != nil {
+				return
+			}
+		}
+	}()
+}
+
 func main() {
 	kingpin.MustParse(app.Parse(os.Args[1:]))
 
@@ -55,7 +86,7 @@ func main() {
 			log.Print(err)
 			continue
 		}
-		go spdyConn.Serve(spdystream.MirrorStreamHandler)
+		go spdyConn.Serve(mirrorStream)
 
 		// go func() {
 		// 	for {
diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index a360e0e..ea0f703 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -10,6 +10,7 @@ import (
 	"io"
 	"log"
 	"net"
+	"net/http"
 	"os"
 	"path"
 	"runtime"
@@ -117,6 +118,35 @@ func getPackagePath() string {
 	return path.Dir(filename)
 }
 
+// mirrorStream mirrors a stream like spdystream.MirrorStreamHandler does, but
+// gives the stream up as soon as its client cannot be written to anymore: a
+// stream that nobody reads blocks the connection from being cleaned up.
+func mirrorStream(stream *spdystream.Stream) {
+	if err := stream.SendReply(http.Header{}, false); err != nil {
+		stream.Reset()
+		return
+	}
+
+	go func() {
+		if _, err := io.Copy(stream, stream); err != nil {
+			stream.Reset()
+			return
+		}
+		stream.Close()
+	}()
+	go func() {
+		for {
+			header, err := stream.ReceiveHeader()
+			if err != nil {
+				return
+			}
+			if err := stream.SendHeader(header, false); err != nil {
+				return
+			}
+		}
+	}()
+}
+
 func run() {
 	log.Println("initializing gosstrak-fc for master mode...")
 
@@ -202,7 +232,7 @@ func run() {
 				log.Print(err)
 				continue
 			}
-			go spdyConn.Serve(spdystream.MirrorStreamHandler)
+			go spdyConn.Serve(mirrorStream)
 
 			// receiver, err := t.WaitReceiveChannel()
 			// if err != nil {
-- 
2.43.0


From 02d7866df0bdfd4f60d599c00cb786bdc449905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:27 +0000
Subject: [PATCH 30/31] fix: restore engines from their images whole

What an engine held before remained in parts of it when an image was restored
into it, and an image that was refused left it half changed.
---
 filtering/legacy_engine.go | 5 +++--
 filtering/list.go          | 8 ++++++--
 filtering/patricia_trie.go | 8 ++++++--
 filtering/splay_tree.go    | 8 ++++++--
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index a766cbb..492b269 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -163,7 +163,7 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
-	le.filters = Subscriptions{}
+	filters := Subscriptions{}
 	for i := 0; i < legacyEngineSize; i++ {
 		var f string
 		// filter
@@ -183,8 +183,9 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 			}
 			reportURIs = append(reportURIs, dest)
 		}
-		le.filters[f] = reportURIs
+		filters[f] = reportURIs
 	}
+	le.filters = filters
 
 	// tdt.Core
 	le.tdtCore = tdt.NewCore()
diff --git a/filtering/list.go b/filtering/list.go
index 1801656..65ae097 100644
--- a/filtering/list.go
+++ b/filtering/list.go
@@ -148,6 +148,7 @@ func (list *List) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	var filters []*ExactMatch
 	for i := 0; i < listSize; i++ {
 		em := ExactMatch{}
 		// Notify
@@ -155,9 +156,12 @@ func (list *List) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		// Filter
-		err = dec.Decode(&em.filter)
-		list.filters = append(list.filters, &em)
+		if err = dec.Decode(&em.filter); err != nil {
+			return
+		}
+		filters = append(filters, &em)
 	}
+	list.filters = filters
 
 	// tdt.Core
 	list.tdtCore = tdt.NewCore()
diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index ff225e3..be4f4a8 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -94,8 +94,12 @@ func (pt *PatriciaTrie) UnmarshalBinary(data []byte) (err error) {
 		return errors.New("Wrong Filtering Engine: " + typeOfEngine)
 	}
 
-	// Decode PatriciaTrieNode
-	err = dec.Decode(&pt.root)
+	// Decode PatriciaTrieNode, nothing of a previous one may remain
+	root := &PatriciaTrieNode{}
+	if err = dec.Decode(root); err != nil {
+		return
+	}
+	pt.root = root
 
 	// tdt.Core
 	pt.tdtCore = tdt.NewCore()
diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index cc99723..3559d2d 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -94,8 +94,12 @@ func (st *SplayTree) UnmarshalBinary(data []byte) (err error) {
 		return errors.New("Wrong Filtering Engine: " + typeOfEngine)
 	}
 
-	// Decode SplayTreeNode
-	err = dec.Decode(&st.root)
+	// Decode SplayTreeNode, nothing of a previous one may remain
+	root := &SplayTreeNode{}
+	if err = dec.Decode(root); err != nil {
+		return
+	}
+	st.root = root
 
 	// tdt.Core
 	st.tdtCore = tdt.NewCore()
-- 
2.43.0


From 9fe76360ca782f1a1717c974bac0db47972a652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:58 +0000
Subject: [PATCH 31/31] fix: number the messages from the --initialMessageID
 given

---
 cmd/gosstrak-fc/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index ea0f703..ad8cb49 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -105,8 +105,8 @@ var (
 	// start command
 	cmdStart = app.Command("start", "Start the gosstrak-fc.")
 
-	// Current messageID
-	currentMessageID = uint32(*llrpInitialMessageID)
+	// Current messageID, set from the flag once it is parsed
+	currentMessageID uint32
 )
 
 func getPackagePath() string {
@@ -348,6 +348,7 @@ func run() {
 func main() {
 	app.Version(version)
 	parse := kingpin.MustParse(app.Parse(os.Args[1:]))
+	currentMessageID = uint32(*llrpInitialMessageID)
 
 	// Create cache directory if not exists
 	// TODO: set OS specific dataCacheDir
-- 
2.43.0

