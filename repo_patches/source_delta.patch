From 6c83e435eaabdacb51bf56be1dfc2e04d4597bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 01/60] fix: package-level lookups before any configuration
 panic on the empty locale list

---
 gotext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index 059403c..908ec96 100644
--- a/gotext.go
+++ b/gotext.go
@@ -68,7 +68,7 @@ func init() {
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
 
-	if globalConfig.locales == nil || rebuildCache {
+	if len(globalConfig.locales) == 0 || rebuildCache {
 		var locales []*Locale
 		for _, language := range globalConfig.languages {
 			locales = append(locales, NewLocale(globalConfig.library, language))
@@ -90,7 +90,7 @@ func loadLocales(rebuildCache bool) {
 func GetDomain() string {
 	var dom string
 	globalConfig.RLock()
-	if globalConfig.locales != nil {
+	if len(globalConfig.locales) > 0 {
 		// All locales have the same domain
 		dom = globalConfig.locales[0].GetDomain()
 	}
-- 
2.43.0


From bd241de977622a48e73fc043a68f9adef21cae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 02/60] fix: concurrent package-level lookups read a locale's
 domain map without its lock

---
 gotext.go | 6 +++---
 locale.go | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index 908ec96..a53b0b7 100644
--- a/gotext.go
+++ b/gotext.go
@@ -77,7 +77,7 @@ func loadLocales(rebuildCache bool) {
 	}
 
 	for _, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[globalConfig.domain]; !ok || rebuildCache {
+		if rebuildCache || !locale.hasDomain(globalConfig.domain) {
 			locale.AddDomain(globalConfig.domain)
 		}
 		locale.SetDomain(globalConfig.domain)
@@ -252,7 +252,7 @@ func GetD(dom, str string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
@@ -275,7 +275,7 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
diff --git a/locale.go b/locale.go
index 381e560..24285b8 100644
--- a/locale.go
+++ b/locale.go
@@ -198,6 +198,14 @@ func (l *Locale) AddDomain(dom string) {
 	l.Unlock()
 }
 
+// hasDomain reports whether a domain is already loaded in this locale.
+func (l *Locale) hasDomain(dom string) bool {
+	l.RLock()
+	defer l.RUnlock()
+	_, ok := l.Domains[dom]
+	return ok
+}
+
 // AddTranslator takes a domain name and a Translator object to make it available in the Locale object.
 func (l *Locale) AddTranslator(dom string, tr Translator) {
 	l.Lock()
-- 
2.43.0


From c0ab20ae96eebd37750ab435c2d1c2d4ec1720b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 03/60] fix: GetDC and GetNDC ignore a domain that no
 context-free lookup has loaded yet

---
 gotext.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gotext.go b/gotext.go
index a53b0b7..04c7ac4 100644
--- a/gotext.go
+++ b/gotext.go
@@ -310,6 +310,9 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -331,6 +334,9 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
-- 
2.43.0


From 830f87875ae23df05b9032d9e985de2b582f5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 04/60] fix: domain marshalling, snapshots and resolver changes
 touch shared state without the locks

---
 domain.go | 22 ++++++++++++++++++----
 po.go     |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index 328b255..ce3e826 100644
--- a/domain.go
+++ b/domain.go
@@ -102,6 +102,9 @@ func NewDomain() *Domain {
 
 // SetPluralResolver sets a custom plural resolver function
 func (do *Domain) SetPluralResolver(f func(int) int) {
+	do.pluralMutex.Lock()
+	defer do.pluralMutex.Unlock()
+
 	do.customPluralResolver = f
 }
 
@@ -546,11 +549,11 @@ func (do *Domain) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // GetTranslations returns a copy of every translation in the domain. It does not support contexts.
 func (do *Domain) GetTranslations() map[string]*Translation {
-	all := make(map[string]*Translation, len(do.translations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]*Translation, len(do.translations))
+
 	for msgID, trans := range do.translations {
 		newTrans := NewTranslation()
 		newTrans.ID = trans.ID
@@ -571,11 +574,11 @@ func (do *Domain) GetTranslations() map[string]*Translation {
 
 // GetCtxTranslations returns a copy of every translation in the domain with context
 func (do *Domain) GetCtxTranslations() map[string]map[string]*Translation {
-	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
+
 	for ctx, translations := range do.contextTranslations {
 		for msgID, trans := range translations {
 			newTrans := NewTranslation()
@@ -627,6 +630,9 @@ func extractPathAndLine(ref string) (string, int) {
 // MarshalText implements encoding.TextMarshaler interface
 // Assists round-trip of POT/PO content
 func (do *Domain) MarshalText() ([]byte, error) {
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	var buf bytes.Buffer
 	if len(do.headerComments) > 0 {
 		buf.WriteString(strings.Join(do.headerComments, "\n"))
@@ -823,6 +829,9 @@ func EscapeSpecialCharacters(s string) string {
 
 // MarshalBinary implements encoding.BinaryMarshaler interface
 func (do *Domain) MarshalBinary() ([]byte, error) {
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	obj := new(TranslatorEncoding)
 	obj.Headers = do.Headers
 	obj.Language = do.Language
@@ -850,6 +859,11 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	do.trMutex.Lock()
+	do.pluralMutex.Lock()
+	defer do.trMutex.Unlock()
+	defer do.pluralMutex.Unlock()
+
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
diff --git a/po.go b/po.go
index e70eb87..8b00825 100644
--- a/po.go
+++ b/po.go
@@ -94,7 +94,7 @@ func (po *Po) GetRefs(str string) []string {
 
 // SetPluralResolver sets the plural resolver function
 func (po *Po) SetPluralResolver(f func(int) int) {
-	po.domain.customPluralResolver = f
+	po.domain.SetPluralResolver(f)
 }
 
 // Set translation
-- 
2.43.0


From 39ba5fb54f748695f05b276919d59494ca16fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 05/60] fix: binary decoding loses the plural rule and leaves
 stale or nil state behind

---
 domain.go     | 33 +++++++++++++++++++++++++++++++--
 mo.go         | 11 ++++++++++-
 po.go         | 11 ++++++++++-
 translator.go | 12 ++++--------
 4 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/domain.go b/domain.go
index ce3e826..c2b37c1 100644
--- a/domain.go
+++ b/domain.go
@@ -864,6 +864,14 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
+	do.restore(obj)
+
+	return nil
+}
+
+// restore takes over the decoded contents of a domain, including the plural rule they were stored with.
+// Maps that the encoding leaves out come back empty rather than nil, so that the domain stays writable.
+func (do *Domain) restore(obj *TranslatorEncoding) {
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
@@ -872,9 +880,30 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	do.translations = obj.Translations
 	do.contextTranslations = obj.Contexts
 
+	if do.Headers == nil {
+		do.Headers = make(HeaderMap)
+	}
+	if do.translations == nil {
+		do.translations = make(map[string]*Translation)
+	}
+	if do.contextTranslations == nil {
+		do.contextTranslations = make(map[string]map[string]*Translation)
+	}
+	for _, trans := range do.translations {
+		if trans.Trs == nil {
+			trans.Trs = make(map[int]string)
+		}
+	}
+	for _, ctx := range do.contextTranslations {
+		for _, trans := range ctx {
+			if trans.Trs == nil {
+				trans.Trs = make(map[int]string)
+			}
+		}
+	}
+
+	do.pluralforms = nil
 	if expr, err := plurals.Compile(do.plural); err == nil {
 		do.pluralforms = expr
 	}
-
-	return nil
 }
diff --git a/mo.go b/mo.go
index 389deba..d19780d 100644
--- a/mo.go
+++ b/mo.go
@@ -142,7 +142,16 @@ func (mo *Mo) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Mo object from a binary format
 func (mo *Mo) UnmarshalBinary(data []byte) error {
-	return mo.domain.UnmarshalBinary(data)
+	if err := mo.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// keep the backwards compatible public members in step, as Parse does
+	mo.Language = mo.domain.Language
+	mo.PluralForms = mo.domain.PluralForms
+	mo.Headers = mo.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations specified in the provided file, in the GNU gettext .mo format
diff --git a/po.go b/po.go
index 8b00825..59906d4 100644
--- a/po.go
+++ b/po.go
@@ -189,7 +189,16 @@ func (po *Po) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Po object from binary
 func (po *Po) UnmarshalBinary(data []byte) error {
-	return po.domain.UnmarshalBinary(data)
+	if err := po.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// keep the backwards compatible public members in step, as Parse does
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
+	po.Headers = po.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations from a file
diff --git a/translator.go b/translator.go
index e32e3ab..05ccd4d 100644
--- a/translator.go
+++ b/translator.go
@@ -63,14 +63,10 @@ type TranslatorEncoding struct {
 // deserialize into a Po-compatible object.
 func (te *TranslatorEncoding) GetTranslator() Translator {
 	po := NewPo()
-	po.domain = NewDomain()
-	po.domain.Headers = te.Headers
-	po.domain.Language = te.Language
-	po.domain.PluralForms = te.PluralForms
-	po.domain.nplurals = te.Nplurals
-	po.domain.plural = te.Plural
-	po.domain.translations = te.Translations
-	po.domain.contextTranslations = te.Contexts
+	po.domain.restore(te)
+	po.Headers = po.domain.Headers
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
 
 	return po
 }
-- 
2.43.0


From ce4e8cf5a6b9c855318aedc7acef943f6294ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 06/60] fix: PO references leak into later entries and parsing
 files junk empty entries

---
 po.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/po.go b/po.go
index 59906d4..b750186 100644
--- a/po.go
+++ b/po.go
@@ -244,14 +244,14 @@ func (po *Po) Parse(buf []byte) {
 
 		// Buffer context and continue
 		if strings.HasPrefix(l, "msgctxt") {
-			po.parseContext(l)
+			po.parseContext(l, state)
 			state = msgCtxt
 			continue
 		}
 
 		// Buffer msgid and continue
 		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
-			po.parseID(l)
+			po.parseID(l, state)
 			state = msgID
 			continue
 		}
@@ -279,7 +279,7 @@ func (po *Po) Parse(buf []byte) {
 	}
 
 	// Save last Translation buffer.
-	po.saveBuffer()
+	po.saveBuffer(state)
 
 	// Parse headers
 	po.domain.parseHeaders()
@@ -292,8 +292,13 @@ func (po *Po) Parse(buf []byte) {
 }
 
 // saveBuffer takes the context and Translation buffers
-// and saves it on the translations collection
-func (po *Po) saveBuffer() {
+// and saves it on the translations collection,
+// unless no msgid has been read since the buffer was last flushed
+func (po *Po) saveBuffer(state parseState) {
+	if state == head || state == msgCtxt {
+		return
+	}
+
 	// With no context...
 	if po.domain.ctxBuffer == "" {
 		po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
@@ -304,18 +309,12 @@ func (po *Po) saveBuffer() {
 		}
 		po.domain.contextTranslations[po.domain.ctxBuffer][po.domain.trBuffer.ID] = po.domain.trBuffer
 
-		// Cleanup current context buffer if needed
-		if po.domain.trBuffer.ID != "" {
-			po.domain.ctxBuffer = ""
-		}
+		// Cleanup current context buffer
+		po.domain.ctxBuffer = ""
 	}
 
 	// Flush Translation buffer
-	if po.domain.refBuffer == "" {
-		po.domain.trBuffer = NewTranslation()
-	} else {
-		po.domain.trBuffer = NewTranslationWithRefs(strings.Split(po.domain.refBuffer, " "))
-	}
+	po.domain.trBuffer = NewTranslation()
 }
 
 // Either preserves comments before the first "msgid", for later round-trip.
@@ -328,7 +327,8 @@ func (po *Po) parseComment(l string, state parseState) {
 			switch l[1] {
 			case ':':
 				if len(l) > 2 {
-					po.domain.refBuffer = strings.TrimSpace(l[2:])
+					// An entry may list its references on several lines
+					po.domain.refBuffer += " " + l[2:]
 				}
 			}
 		}
@@ -337,9 +337,9 @@ func (po *Po) parseComment(l string, state parseState) {
 
 // parseContext takes a line starting with "msgctxt",
 // saves the current Translation buffer and creates a new context.
-func (po *Po) parseContext(l string) {
+func (po *Po) parseContext(l string, state parseState) {
 	// Save current Translation buffer.
-	po.saveBuffer()
+	po.saveBuffer(state)
 
 	// Buffer context
 	po.domain.ctxBuffer, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
@@ -347,9 +347,15 @@ func (po *Po) parseContext(l string) {
 
 // parseID takes a line starting with "msgid",
 // saves the current Translation and creates a new msgid buffer.
-func (po *Po) parseID(l string) {
+func (po *Po) parseID(l string, state parseState) {
 	// Save current Translation buffer.
-	po.saveBuffer()
+	po.saveBuffer(state)
+
+	// References belong to this entry only
+	if refs := strings.Fields(po.domain.refBuffer); len(refs) > 0 {
+		po.domain.trBuffer.Refs = refs
+	}
+	po.domain.refBuffer = ""
 
 	// Set id
 	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
-- 
2.43.0


From 72abde4cc0f6569baaade42cd0abfa5dbf66d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 07/60] fix: PO continuation lines are appended to the wrong
 plural form

---
 domain.go |  1 +
 po.go     | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index c2b37c1..f17c6c0 100644
--- a/domain.go
+++ b/domain.go
@@ -45,6 +45,7 @@ type Domain struct {
 	trBuffer  *Translation
 	ctxBuffer string
 	refBuffer string
+	idxBuffer int
 
 	customPluralResolver func(int) int
 }
diff --git a/po.go b/po.go
index b750186..8a8fdae 100644
--- a/po.go
+++ b/po.go
@@ -370,6 +370,9 @@ func (po *Po) parsePluralID(l string) {
 func (po *Po) parseMessage(l string) {
 	l = strings.TrimSpace(strings.TrimPrefix(l, "msgstr"))
 
+	// No valid index found yet
+	po.domain.idxBuffer = -1
+
 	// Check for indexed Translation forms
 	if strings.HasPrefix(l, "[") {
 		idx := strings.Index(l, "]")
@@ -380,12 +383,13 @@ func (po *Po) parseMessage(l string) {
 
 		// Parse index
 		i, err := strconv.Atoi(l[1:idx])
-		if err != nil {
+		if err != nil || i < 0 {
 			// Skip wrong index formatting
 			return
 		}
 
 		// Parse Translation string
+		po.domain.idxBuffer = i
 		po.domain.trBuffer.Trs[i], _ = strconv.Unquote(strings.TrimSpace(l[idx+1:]))
 
 		// Loop
@@ -393,6 +397,7 @@ func (po *Po) parseMessage(l string) {
 	}
 
 	// Save single Translation form under 0 index
+	po.domain.idxBuffer = 0
 	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
 }
 
@@ -404,7 +409,9 @@ func (po *Po) parseString(l string, state parseState) {
 	switch state {
 	case msgStr:
 		// Append to last Translation found
-		po.domain.trBuffer.Trs[len(po.domain.trBuffer.Trs)-1] += clean
+		if po.domain.idxBuffer >= 0 {
+			po.domain.trBuffer.Trs[po.domain.idxBuffer] += clean
+		}
 
 	case msgID:
 		// Multiline msgid - Append to current id
-- 
2.43.0


From 717aa6a060282826714b217936b2766e5f9849c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 08/60] fix: parsing again keeps the previous header values and
 plural rule

---
 domain.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index f17c6c0..7a20504 100644
--- a/domain.go
+++ b/domain.go
@@ -140,6 +140,9 @@ func (do *Domain) parseHeaders() {
 	languageKey := "Language"
 	pluralFormsKey := "Plural-Forms"
 
+	// A header block read now replaces what an earlier one said under the same keys
+	seen := make(map[string]bool)
+
 	rawLines := strings.Split(raw, "\n")
 	for _, line := range rawLines {
 		if len(line) == 0 {
@@ -160,7 +163,12 @@ func (do *Domain) parseHeaders() {
 		}
 
 		value := strings.TrimSpace(line[colonIdx+1:])
-		do.Headers.Add(key, value)
+		if seen[key] {
+			do.Headers.Add(key, value)
+		} else {
+			do.Headers.Set(key, value)
+			seen[key] = true
+		}
 	}
 
 	// Get/save needed headers
@@ -171,6 +179,8 @@ func (do *Domain) parseHeaders() {
 	if do.PluralForms == "" {
 		return
 	}
+	do.plural = ""
+	do.pluralforms = nil
 
 	// Split plural form header value
 	pfs := strings.Split(do.PluralForms, ";")
-- 
2.43.0


From 6dc755825bbdf316d4e95970fc6143b667a6bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 09/60] fix: MarshalText output depends on map order and does
 not escape plural forms, backslashes and leading quotes

---
 domain.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/domain.go b/domain.go
index 7a20504..39c2749 100644
--- a/domain.go
+++ b/domain.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -698,7 +697,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		v := do.Headers[k]
 
 		for _, value := range v {
-			buf.WriteString("\n\"" + k + ": " + value + "\\n\"")
+			buf.WriteString("\n\"" + escaper.Replace(k+": "+value) + "\\n\"")
 		}
 	}
 
@@ -791,9 +790,14 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		if trans.PluralID == "" {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
-			buf.WriteString("\nmsgid_plural \"" + trans.PluralID + "\"")
-			for i, tr := range trans.Trs {
-				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + tr + "\"")
+			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
+			forms := make([]int, 0, len(trans.Trs))
+			for i := range trans.Trs {
+				forms = append(forms, i)
+			}
+			sort.Ints(forms)
+			for _, i := range forms {
+				buf.WriteString("\nmsgstr[" + strconv.Itoa(i) + "] \"" + EscapeSpecialCharacters(trans.Trs[i]) + "\"")
 			}
 		}
 	}
@@ -801,9 +805,12 @@ func (do *Domain) MarshalText() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// escaper takes care of the special characters that need no line handling
+var escaper = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\t", "\\t", "\r", "\\r")
+
 // EscapeSpecialCharacters escapes special characters in a string
 func EscapeSpecialCharacters(s string) string {
-	s = regexp.MustCompile(`([^\\])(")`).ReplaceAllString(s, "$1\\\"") // Escape non-escaped double quotation marks
+	s = escaper.Replace(s) // Escape everything that can't appear as is inside double quotation marks
 
 	if strings.Count(s, "\n") == 0 {
 		return s
-- 
2.43.0


From fa767e427238fe15a32f0f2805dc0499082fa641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 10/60] fix: plural lookups of an entry without plural id
 return an empty string

---
 domain.go      | 8 ++++----
 translation.go | 9 +++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index 39c2749..1b60538 100644
--- a/domain.go
+++ b/domain.go
@@ -343,7 +343,7 @@ func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].GetN(do.pluralForm(n)), vars...)
+			return FormatString(do.translations[str].getN(do.pluralForm(n), plural), vars...)
 		}
 	}
 
@@ -363,7 +363,7 @@ func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].GetN(do.pluralForm(n)), vars...)
+			return Appendf(b, do.translations[str].getN(do.pluralForm(n), plural), vars...)
 		}
 	}
 
@@ -479,7 +479,7 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					return FormatString(do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
 				}
 			}
 		}
@@ -501,7 +501,7 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
 				}
 			}
 		}
diff --git a/translation.go b/translation.go
index 2aa42f8..d439305 100644
--- a/translation.go
+++ b/translation.go
@@ -84,6 +84,15 @@ func (t *Translation) GetN(n int) string {
 	return t.PluralID
 }
 
+// getN works like GetN, for a caller that has a plural of its own to fall back to
+// when the translation doesn't know any
+func (t *Translation) getN(n int, plural string) string {
+	if tr := t.GetN(n); tr != "" || n == 0 {
+		return tr
+	}
+	return plural
+}
+
 // IsTranslated reports whether a string is translated
 func (t *Translation) IsTranslated() bool {
 	tr, ok := t.Trs[0]
-- 
2.43.0


From e8121efc2669f4c8a00e5fd3035ecbf005a78a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 11/60] fix: SetNC, and SetN on a known string, lose the plural
 id

---
 domain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/domain.go b/domain.go
index 1b60538..336bd83 100644
--- a/domain.go
+++ b/domain.go
@@ -324,6 +324,9 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[id]; ok {
+		if trans.PluralID == "" {
+			trans.PluralID = plural
+		}
 		trans.SetN(pluralForm, str)
 	} else {
 		trans = NewTranslation()
@@ -452,16 +455,21 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 
 	if context, ok := do.contextTranslations[ctx]; ok {
 		if trans, hasTrans := context[id]; hasTrans {
+			if trans.PluralID == "" {
+				trans.PluralID = plural
+			}
 			trans.SetN(pluralForm, str)
 		} else {
 			trans = NewTranslation()
 			trans.ID = id
+			trans.PluralID = plural
 			trans.SetN(pluralForm, str)
 			context[id] = trans
 		}
 	} else {
 		trans := NewTranslation()
 		trans.ID = id
+		trans.PluralID = plural
 		trans.SetN(pluralForm, str)
 		do.contextTranslations[ctx] = map[string]*Translation{
 			id: trans,
-- 
2.43.0


From 6a82a57c755780307b24ef7693fea1822e2a6188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 12/60] fix: SetRefs on a known string leaves it stale

---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 336bd83..4a63ece 100644
--- a/domain.go
+++ b/domain.go
@@ -240,7 +240,7 @@ func (do *Domain) SetRefs(str string, refs []string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[str]; ok {
-		trans.Refs = refs
+		trans.SetRefs(refs)
 	} else {
 		trans = NewTranslation()
 		trans.ID = str
-- 
2.43.0


From 6779002f69424a50775213957c888564d070e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 13/60] fix: IsTranslated asks for the form of n=1 instead of
 the one Get returns

---
 domain.go | 12 ++++++++++--
 locale.go | 29 +++++++++++++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/domain.go b/domain.go
index 4a63ece..a5c45e6 100644
--- a/domain.go
+++ b/domain.go
@@ -523,7 +523,11 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 
 // IsTranslated reports whether a string is translated
 func (do *Domain) IsTranslated(str string) bool {
-	return do.IsTranslatedN(str, 1)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	tr, ok := do.translations[str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -543,7 +547,11 @@ func (do *Domain) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (do *Domain) IsTranslatedC(str, ctx string) bool {
-	return do.IsTranslatedNC(str, 1, ctx)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	tr, ok := do.contextTranslations[ctx][str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
diff --git a/locale.go b/locale.go
index 24285b8..fe78f41 100644
--- a/locale.go
+++ b/locale.go
@@ -355,6 +355,9 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 	l.RLock()
 	defer l.RUnlock()
 	for _, translator := range l.Domains {
+		if translator == nil {
+			continue
+		}
 		for msgID, trans := range translator.GetDomain().GetTranslations() {
 			all[msgID] = trans
 		}
@@ -365,7 +368,7 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 
 // IsTranslated reports whether a string is translated
 func (l *Locale) IsTranslated(str string) bool {
-	return l.IsTranslatedND(l.GetDomain(), str, 1)
+	return l.IsTranslatedD(l.GetDomain(), str)
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -375,7 +378,14 @@ func (l *Locale) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedD reports whether a domain string is translated
 func (l *Locale) IsTranslatedD(dom, str string) bool {
-	return l.IsTranslatedND(dom, str, 1)
+	l.RLock()
+	defer l.RUnlock()
+
+	translator, ok := l.Domains[dom]
+	if !ok || translator == nil {
+		return false
+	}
+	return translator.GetDomain().IsTranslated(str)
 }
 
 // IsTranslatedND reports whether a plural domain string is translated
@@ -387,7 +397,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 		return false
 	}
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedN(str, n)
@@ -395,7 +405,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (l *Locale) IsTranslatedC(str, ctx string) bool {
-	return l.IsTranslatedNDC(l.GetDomain(), str, 1, ctx)
+	return l.IsTranslatedDC(l.GetDomain(), str, ctx)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
@@ -405,7 +415,14 @@ func (l *Locale) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // IsTranslatedDC reports whether a domain context string is translated
 func (l *Locale) IsTranslatedDC(dom, str, ctx string) bool {
-	return l.IsTranslatedNDC(dom, str, 1, ctx)
+	l.RLock()
+	defer l.RUnlock()
+
+	translator, ok := l.Domains[dom]
+	if !ok || translator == nil {
+		return false
+	}
+	return translator.GetDomain().IsTranslatedC(str, ctx)
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated
@@ -417,7 +434,7 @@ func (l *Locale) IsTranslatedNDC(dom string, str string, n int, ctx string) bool
 		return false
 	}
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedNC(str, n, ctx)
-- 
2.43.0


From 6352257bf4093551d0041aed022b8c3b6d55a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 14/60] fix: IsTranslated ignores languages that fall back to
 ll, unloaded domains and further matching locales

---
 gotext.go | 52 ++++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/gotext.go b/gotext.go
index 04c7ac4..02e7d6f 100644
--- a/gotext.go
+++ b/gotext.go
@@ -349,7 +349,7 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 // IsTranslated reports whether a string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslated(str string, langs ...string) bool {
-	return IsTranslatedND(GetDomain(), str, 1, langs...)
+	return IsTranslatedD(GetDomain(), str, langs...)
 }
 
 // IsTranslatedN reports whether a plural string is translated in given languages.
@@ -361,38 +361,23 @@ func IsTranslatedN(str string, n int, langs ...string) bool {
 // IsTranslatedD reports whether a domain string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedD(dom, str string, langs ...string) bool {
-	return IsTranslatedND(dom, str, 1, langs...)
+	return anyLocale(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedD(dom, str)
+	})
 }
 
 // IsTranslatedND reports whether a plural domain string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedND(dom, str string, n int, langs ...string) bool {
-	if len(langs) == 0 {
-		langs = GetLanguages()
-	}
-
-	loadLocales(false)
-
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
-	for _, lang := range langs {
-		lang = SimplifiedLocale(lang)
-
-		for _, supportedLocale := range globalConfig.locales {
-			if lang != supportedLocale.GetActualLanguage(dom) {
-				continue
-			}
-			return supportedLocale.IsTranslatedND(dom, str, n)
-		}
-	}
-	return false
+	return anyLocale(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedND(dom, str, n)
+	})
 }
 
 // IsTranslatedC reports whether a context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedC(str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(GetDomain(), str, 1, ctx, langs...)
+	return IsTranslatedDC(GetDomain(), str, ctx, langs...)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated in given languages.
@@ -404,12 +389,22 @@ func IsTranslatedNC(str string, n int, ctx string, langs ...string) bool {
 // IsTranslatedDC reports whether a domain context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedDC(dom, str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(dom, str, 0, ctx, langs...)
+	return anyLocale(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedDC(dom, str, ctx)
+	})
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
+	return anyLocale(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedNDC(dom, str, n, ctx)
+	})
+}
+
+// anyLocale reports whether the locale of any of the given languages satisfies the given condition on a domain.
+// A language stands for the locales configured for it, and for those which resolve to it on the filesystem.
+func anyLocale(dom string, langs []string, cond func(locale *Locale) bool) bool {
 	if len(langs) == 0 {
 		langs = GetLanguages()
 	}
@@ -423,10 +418,15 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 		lang = SimplifiedLocale(lang)
 
 		for _, locale := range globalConfig.locales {
-			if lang != locale.GetActualLanguage(dom) {
+			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
 				continue
 			}
-			return locale.IsTranslatedNDC(dom, str, n, ctx)
+			if !locale.hasDomain(dom) {
+				locale.AddDomain(dom)
+			}
+			if cond(locale) {
+				return true
+			}
 		}
 	}
 	return false
-- 
2.43.0


From 2fba92c931397a2b86220c44bf2ae97a1d5e32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 15/60] fix: three-letter language codes fall back to an
 unrelated two-letter language

---
 locale.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/locale.go b/locale.go
index fe78f41..92a39d2 100644
--- a/locale.go
+++ b/locale.go
@@ -11,6 +11,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"strings"
 	"sync"
 )
 
@@ -90,14 +91,22 @@ func NewLocaleFSWithPath(l string, filesystem fs.FS, p string) *Locale {
 	return loc
 }
 
+// baseLanguage returns the ll part of a ll_CC language code, or an empty string if there is no CC part.
+func (l *Locale) baseLanguage() string {
+	if idx := strings.IndexAny(l.lang, "_-"); idx > 0 {
+		return l.lang[:idx]
+	}
+	return ""
+}
+
 func (l *Locale) findExt(dom, ext string) string {
 	filename := path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+	if ll := l.baseLanguage(); ll != "" {
+		filename = path.Join(l.path, ll, "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -108,8 +117,8 @@ func (l *Locale) findExt(dom, ext string) string {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], dom+"."+ext)
+	if ll := l.baseLanguage(); ll != "" {
+		filename = path.Join(l.path, ll, dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -130,10 +139,10 @@ func (l *Locale) GetActualLanguage(dom string) string {
 			return l.lang
 		}
 		// 'll' exists, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+		if ll := l.baseLanguage(); ll != "" {
+			fp = path.Join(l.path, ll, "LC_MESSAGES", dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return ll
 			}
 		}
 		// 'll' (or 'll_CC') exists outside of LC_category, and it was specified as-is
@@ -142,10 +151,10 @@ func (l *Locale) GetActualLanguage(dom string) string {
 			return l.lang
 		}
 		// 'll' exists outside of LC_category, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], dom+"."+ext)
+		if ll := l.baseLanguage(); ll != "" {
+			fp = path.Join(l.path, ll, dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return ll
 			}
 		}
 	}
-- 
2.43.0


From 18ace214495c9f5d73c99265f1d3b09350c31dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 16/60] fix: locale binary encoding races with lookups and
 leaves a half-decoded locale behind on error

---
 locale.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/locale.go b/locale.go
index 92a39d2..ccababc 100644
--- a/locale.go
+++ b/locale.go
@@ -459,10 +459,16 @@ type LocaleEncoding struct {
 
 // MarshalBinary implements encoding BinaryMarshaler interface
 func (l *Locale) MarshalBinary() ([]byte, error) {
+	l.RLock()
+	defer l.RUnlock()
+
 	obj := new(LocaleEncoding)
 	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
 	for k, v := range l.Domains {
+		if v == nil {
+			continue
+		}
 		var err error
 		obj.Domains[k], err = v.MarshalBinary()
 		if err != nil {
@@ -490,12 +496,8 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
-	l.defaultDomain = obj.DefaultDomain
-	l.lang = obj.Lang
-	l.path = obj.Path
-
 	// Decode Domains
-	l.Domains = make(map[string]Translator)
+	domains := make(map[string]Translator)
 	for k, v := range obj.Domains {
 		var tr TranslatorEncoding
 		buff := bytes.NewBuffer(v)
@@ -505,8 +507,16 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 			return err
 		}
 
-		l.Domains[k] = tr.GetTranslator()
+		domains[k] = tr.GetTranslator()
 	}
 
+	l.Lock()
+	defer l.Unlock()
+
+	l.defaultDomain = obj.DefaultDomain
+	l.lang = obj.Lang
+	l.path = obj.Path
+	l.Domains = domains
+
 	return nil
 }
-- 
2.43.0


From 3c5eb2f3541b18fbdc38cc86225aa1c5edd40a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 17/60] fix: corrupt MO lengths and counts panic, exhaust
 memory or truncate strings

---
 mo.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/mo.go b/mo.go
index d19780d..4cfa3aa 100644
--- a/mo.go
+++ b/mo.go
@@ -212,6 +212,12 @@ func (mo *Mo) Parse(buf []byte) {
 		// return fmt.Errorf("gettext: %v", "invalid version number")
 	}
 
+	// Both tables hold 8 bytes for every string
+	if uint64(header.MsgIDCount)*8 > uint64(len(buf)) {
+		return
+		// return fmt.Errorf("gettext: %v", "invalid number of strings")
+	}
+
 	msgIDStart := make([]uint32, header.MsgIDCount)
 	msgIDLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgIDOffset), 0); err != nil {
@@ -229,8 +235,8 @@ func (mo *Mo) Parse(buf []byte) {
 		}
 	}
 
-	msgStrStart := make([]int32, header.MsgIDCount)
-	msgStrLen := make([]int32, header.MsgIDCount)
+	msgStrStart := make([]uint32, header.MsgIDCount)
+	msgStrLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgStrOffset), 0); err != nil {
 		return
 		// return fmt.Errorf("gettext: %v", err)
@@ -247,24 +253,16 @@ func (mo *Mo) Parse(buf []byte) {
 	}
 
 	for i := 0; i < int(header.MsgIDCount); i++ {
-		if _, err := r.Seek(int64(msgIDStart[i]), 0); err != nil {
+		msgIDData, ok := stringAt(buf, msgIDStart[i], msgIDLen[i])
+		if !ok {
 			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
-		msgIDData := make([]byte, msgIDLen[i])
-		if _, err := r.Read(msgIDData); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
+			// return fmt.Errorf("gettext: %v", "string out of bounds")
 		}
 
-		if _, err := r.Seek(int64(msgStrStart[i]), 0); err != nil {
+		msgStrData, ok := stringAt(buf, msgStrStart[i], msgStrLen[i])
+		if !ok {
 			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
-		msgStrData := make([]byte, msgStrLen[i])
-		if _, err := r.Read(msgStrData); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
+			// return fmt.Errorf("gettext: %v", "string out of bounds")
 		}
 
 		if len(msgIDData) == 0 {
@@ -284,6 +282,15 @@ func (mo *Mo) Parse(buf []byte) {
 	mo.Headers = mo.domain.Headers
 }
 
+// stringAt returns the bytes of a string, and whether the file holds all of them
+func stringAt(buf []byte, start, length uint32) ([]byte, bool) {
+	end := uint64(start) + uint64(length)
+	if end > uint64(len(buf)) {
+		return nil, false
+	}
+	return buf[start:end], true
+}
+
 func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	translation := NewTranslation()
 	var msgctxt []byte
-- 
2.43.0


From 3de86945ebe92b99a263039ab787065345e70ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 18/60] fix: MO entries without plural get their msgid as
 plural id

---
 mo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo.go b/mo.go
index 4cfa3aa..2ba9c61 100644
--- a/mo.go
+++ b/mo.go
@@ -306,12 +306,11 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	dd := bytes.Split(msgid, []byte(NulSeparator))
 	if len(dd) > 1 {
 		msgid = dd[0]
-		dd = dd[1:]
+		msgidPlural = bytes.Join(dd[1:], []byte(NulSeparator))
 	}
 
 	translation.ID = string(msgid)
 
-	msgidPlural = bytes.Join(dd, []byte(NulSeparator))
 	if len(msgidPlural) > 0 {
 		translation.PluralID = string(msgidPlural)
 	}
-- 
2.43.0


From 631aa41ed4baf1c937c25a7823c673ccbbd5ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 19/60] fix: plural ternaries nested in a true branch, or with
 a broken false branch, compile to the wrong rule

---
 plurals/compiler.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index c28297a..aa91bd0 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -44,7 +44,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	if err != nil {
 		return expr, err
 	}
-	actions, err := splitTokens(main.Right, ":")
+	actions, err := splitBranches(main.Right)
 	if err != nil {
 		return expr, err
 	}
@@ -54,7 +54,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	}
 	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
 	if err != nil {
-		return expr, nil
+		return expr, err
 	}
 	return ternary{
 		test:      test,
@@ -295,6 +295,27 @@ func splitTokens(tokens []string, sep string) (s splitted, err error) {
 	}, nil
 }
 
+// Split the tokens after a "?" by the ":" that belongs to it, which comes after
+// those of the ternaries nested in the true branch.
+func splitBranches(tokens []string) (s splitted, err error) {
+	depth := 0
+	for index, token := range tokens {
+		switch token {
+		case "?":
+			depth++
+		case ":":
+			if depth == 0 {
+				return splitted{
+					Left:  tokens[:index],
+					Right: tokens[index+1:],
+				}, nil
+			}
+			depth--
+		}
+	}
+	return s, fmt.Errorf("':' not found in ['%s']", strings.Join(tokens, "','"))
+}
+
 // Scan a string for parenthesis
 func scan(s string) <-chan match {
 	ch := make(chan match)
-- 
2.43.0


From 279be460d7f2583d2bb0aee00f5015b9e4023530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 20/60] fix: a plural rule with a modulus of zero panics on
 lookup

---
 plurals/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index aa91bd0..44c15f2 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -134,6 +134,9 @@ func compileMod(tokens []string) (math math, err error) {
 	if err != nil {
 		return math, err
 	}
+	if i == 0 {
+		return math, errors.New("modulus operation by zero")
+	}
 	return mod{value: uint32(i)}, nil
 }
 
-- 
2.43.0


From 72a8e3a792c5d09b7f51b47242176716b9674eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 21/60] fix: every plural rule that fails to compile leaks
 goroutines

---
 plurals/compiler.go | 84 ++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 47 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 44c15f2..bebb9ec 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -320,58 +320,48 @@ func splitBranches(tokens []string) (s splitted, err error) {
 }
 
 // Scan a string for parenthesis
-func scan(s string) <-chan match {
-	ch := make(chan match)
-	go func() {
-		depth := 0
-		opener := 0
-		for index, char := range s {
-			switch char {
-			case '(':
-				if depth == 0 {
-					opener = index
-				}
-				depth++
-			case ')':
-				depth--
-				if depth == 0 {
-					ch <- match{
-						openPos:  opener,
-						closePos: index + 1,
-					}
-				}
+func scan(s string) (matches []match) {
+	depth := 0
+	opener := 0
+	for index, char := range s {
+		switch char {
+		case '(':
+			if depth == 0 {
+				opener = index
+			}
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				matches = append(matches, match{
+					openPos:  opener,
+					closePos: index + 1,
+				})
 			}
-
 		}
-		close(ch)
-	}()
-	return ch
+	}
+	return matches
 }
 
 // Split the string into tokens
-func split(s string) <-chan string {
-	ch := make(chan string)
-	go func() {
-		s = strings.ReplaceAll(s, " ", "")
-		if !strings.Contains(s, "(") {
-			ch <- s
-		} else {
-			last := 0
-			end := len(s)
-			for info := range scan(s) {
-				if last != info.openPos {
-					ch <- s[last:info.openPos]
-				}
-				ch <- s[info.openPos:info.closePos]
-				last = info.closePos
-			}
-			if last != end {
-				ch <- s[last:]
-			}
+func split(s string) (chunks []string) {
+	s = strings.ReplaceAll(s, " ", "")
+	if !strings.Contains(s, "(") {
+		return []string{s}
+	}
+	last := 0
+	end := len(s)
+	for _, info := range scan(s) {
+		if last != info.openPos {
+			chunks = append(chunks, s[last:info.openPos])
 		}
-		close(ch)
-	}()
-	return ch
+		chunks = append(chunks, s[info.openPos:info.closePos])
+		last = info.closePos
+	}
+	if last != end {
+		chunks = append(chunks, s[last:])
+	}
+	return chunks
 }
 
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
@@ -390,7 +380,7 @@ func tokenize(s string) ([]string, error) {
 		s = s[1 : len(s)-1]
 	}
 	ret := []string{}
-	for chunk := range split(s) {
+	for _, chunk := range split(s) {
 		if len(chunk) != 0 {
 			if chunk[0] == '(' && chunk[len(chunk)-1] == ')' {
 				ret = append(ret, chunk)
-- 
2.43.0


From 17322acd4621694fb2b01ca8aeb71313e926907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 22/60] fix: plural rules are misread when their outermost
 parentheses don't match or blanks lead

---
 plurals/compiler.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index bebb9ec..207867f 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -364,21 +364,27 @@ func split(s string) (chunks []string) {
 	return chunks
 }
 
+// Strips the parentheses around a string, however many pairs there are, when its
+// first ( and its last ) do form a matching pair.
+//
+// Eg: (foo) -> foo; (foo)(bar) -> (foo)(bar);
+func stripParentheses(s string) string {
+	for {
+		matches := scan(s)
+		if len(matches) != 1 || matches[0].openPos != 0 || matches[0].closePos != len(s) {
+			return s
+		}
+		s = s[1 : len(s)-1]
+	}
+}
+
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
 // not split! If the string starts with ( and ends in ), those are stripped.
 func tokenize(s string) ([]string, error) {
-	/*
-		TODO: Properly detect if the string starts with a ( and ends with a )
-		and that those two form a matching pair.
-
-		Eg: (foo) -> true; (foo)(bar) -> false;
-	*/
+	s = stripParentheses(s)
 	if len(s) == 0 {
 		return []string{}, nil
 	}
-	if s[0] == '(' && s[len(s)-1] == ')' {
-		s = s[1 : len(s)-1]
-	}
 	ret := []string{}
 	for _, chunk := range split(s) {
 		if len(chunk) != 0 {
@@ -405,8 +411,9 @@ func tokenize(s string) ([]string, error) {
 
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
-	if s == "0" {
-		return constValue{value: 0}, nil
+	s = strings.Join(strings.Fields(s), "")
+	if constant, err := strconv.Atoi(stripParentheses(s)); err == nil && constant >= 0 {
+		return constValue{value: constant}, nil
 	}
 	if !strings.Contains(s, "?") {
 		s += "?1:0"
-- 
2.43.0


From 2230f9b6b8d5537d026d679ef79837d079c64a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 23/60] fix: named formatting takes an escaped percent sign for
 the start of a parameter

---
 helper.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/helper.go b/helper.go
index 1e6a610..9b22287 100644
--- a/helper.go
+++ b/helper.go
@@ -11,7 +11,7 @@ import (
 	"strings"
 )
 
-var re = regexp.MustCompile(`%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
+var re = regexp.MustCompile(`%%|%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
 
 // SimplifiedLocale simplified locale like " en_US"/"de_DE "/en_US.UTF-8/zh_CN/zh_TW/el_GR@euro/... to en_US, de_DE, zh_CN, el_GR...
 func SimplifiedLocale(lang string) string {
@@ -81,11 +81,18 @@ func reformatSprintf(f string) (string, []string) {
 
 	ord := []string{}
 	for _, v := range m {
+		// An escaped percent sign stays as it is
+		if v[0] == "%%" {
+			continue
+		}
 		ord = append(ord, v[1])
 	}
 
 	pair := []int{0}
 	for _, v := range i {
+		if v[2] < 0 {
+			continue
+		}
 		pair = append(pair, v[2]-1)
 		pair = append(pair, v[3]+1)
 	}
-- 
2.43.0


From 6d432e6f1a3ed451176d3fcbde0d828e40f1bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 24/60] fix: xgotext panics on a domain that is not a literal

---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 9e93dbc..476a2ae 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -155,6 +155,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	// get domain
 	var domain string
 	if def.Domain != -1 {
+		// Domain must be a string
+		if args[def.Domain] == nil || args[def.Domain].Kind != token.STRING {
+			log.Printf("ERR: Unsupported call at %s (Domain not a string)", pos)
+			return
+		}
 		domain, _ = strconv.Unquote(args[def.Domain].Value)
 	}
 
-- 
2.43.0


From d75836c1cc322765addd8d6fda49d67e67d82586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 25/60] fix: xgotext writes contexts as Go literals, which PO
 files can't always hold

---
 cli/xgotext/parser/gofile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 476a2ae..d70ad80 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -189,7 +189,9 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 			log.Printf("ERR: Unsupported call at %s (Context not a string)", pos)
 			return
 		}
-		trans.Context = args[def.Context].Value
+		// Store it the way a PO file quotes it, whatever kind of Go literal it is
+		context, _ := strconv.Unquote(args[def.Context].Value)
+		trans.Context = formatMultiline(fixSpecialChars(context))
 	}
 
 	g.Data.AddTranslation(domain, &trans)
-- 
2.43.0


From d84ab859045dbfebb99273d3ab4d5a3b9a3d23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 26/60] fix: xgotext drops the plural of a string it met
 without one before

---
 cli/xgotext/parser/domain.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index 35146ad..f938412 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -25,6 +25,14 @@ func (t *Translation) AddLocations(locations []string) {
 	}
 }
 
+// merge another occurrence of the same translation into this one
+func (t *Translation) merge(other *Translation) {
+	if t.MsgIDPlural == "" {
+		t.MsgIDPlural = other.MsgIDPlural
+	}
+	t.AddLocations(other.SourceLocations)
+}
+
 // Dump translation as string
 func (t *Translation) Dump() string {
 	data := make([]string, 0, len(t.SourceLocations)+5)
@@ -130,7 +138,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 
 	if translation.Context == "" {
 		if t, ok := d.Translations[translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.Translations[translation.MsgID] = translation
 		}
@@ -140,7 +148,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 		}
 
 		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.ContextTranslations[translation.Context][translation.MsgID] = translation
 		}
-- 
2.43.0


From a3b8f8e355fd82163c7cf6756cc1ae126e8d91b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 27/60] fix: xgotext excludes every directory whose name starts
 with an excluded one

---
 cli/xgotext/parser/dir/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/parser.go b/cli/xgotext/parser/dir/parser.go
index 9f92c27..4fd1d2a 100644
--- a/cli/xgotext/parser/dir/parser.go
+++ b/cli/xgotext/parser/dir/parser.go
@@ -50,7 +50,8 @@ func ParseDirRec(dirPath string, exclude []string, data *parser.DomainMap, verbo
 			// skip directory if in exclude list
 			subDir, _ := filepath.Rel(dirPath, path)
 			for _, d := range exclude {
-				if strings.HasPrefix(subDir, d) {
+				d = filepath.Clean(strings.TrimSpace(d))
+				if d != "." && (subDir == d || strings.HasPrefix(subDir, d+string(filepath.Separator))) {
 					return nil
 				}
 			}
-- 
2.43.0


From f835adf69e5e3c06a2e04c950c7d66ef56d2fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 28/60] fix: parsing a second package tree skips the packages
 of the first

---
 cli/xgotext/parser/pkg-tree/golang.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index d66e351..871f158 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -23,6 +23,9 @@ func ParsePkgTree(pkgPath string, data *parser.DomainMap, verbose bool) error {
 }
 
 func pkgParser(dirPath, basePath string, data *parser.DomainMap, verbose bool) error {
+	// Packages met in an earlier run belong to another file set
+	pkgCache = make(map[string]*packages.Package)
+
 	mainPkg, err := loadPackage(dirPath)
 	if err != nil {
 		return err
-- 
2.43.0


From e4eb3dfd13d1a787a65dd10729e00fe1a9956cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 29/60] fix: xgotext writes an entry over the header for an
 empty string

---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index d70ad80..09b16ea 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -170,6 +170,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	}
 
 	msgID, _ := strconv.Unquote(args[def.ID].Value)
+	if msgID == "" {
+		// reserved for the header of the PO file
+		log.Printf("ERR: Unsupported call at %s (ID is empty)", pos)
+		return
+	}
 	trans := Translation{
 		MsgID:           msgID,
 		SourceLocations: []string{pos},
-- 
2.43.0


From 9a0effde1e43eabd3d7d91986a2f5e06bdc6e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 30/60] fix: a malformed PO entry overwrites the header or the
 context of another one

---
 po.go | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/po.go b/po.go
index 8a8fdae..a97bdca 100644
--- a/po.go
+++ b/po.go
@@ -52,6 +52,10 @@ const (
 	msgID
 	msgIDPlural
 	msgStr
+
+	// The context or the id of the entry is malformed, there's nothing to store it under
+	badCtxt
+	badID
 )
 
 // NewPo should always be used to instantiate a new Po object
@@ -244,15 +248,26 @@ func (po *Po) Parse(buf []byte) {
 
 		// Buffer context and continue
 		if strings.HasPrefix(l, "msgctxt") {
-			po.parseContext(l, state)
-			state = msgCtxt
+			if po.parseContext(l, state) {
+				state = msgCtxt
+			} else {
+				state = badCtxt
+			}
 			continue
 		}
 
 		// Buffer msgid and continue
 		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
-			po.parseID(l, state)
-			state = msgID
+			if po.parseID(l, state) {
+				state = msgID
+			} else {
+				state = badID
+			}
+			continue
+		}
+
+		// Skip the rest of a malformed entry
+		if state == badCtxt || state == badID {
 			continue
 		}
 
@@ -295,7 +310,7 @@ func (po *Po) Parse(buf []byte) {
 // and saves it on the translations collection,
 // unless no msgid has been read since the buffer was last flushed
 func (po *Po) saveBuffer(state parseState) {
-	if state == head || state == msgCtxt {
+	if state == head || state == msgCtxt || state == badCtxt || state == badID {
 		return
 	}
 
@@ -337,17 +352,21 @@ func (po *Po) parseComment(l string, state parseState) {
 
 // parseContext takes a line starting with "msgctxt",
 // saves the current Translation buffer and creates a new context.
-func (po *Po) parseContext(l string, state parseState) {
+// It reports whether the context is well-formed.
+func (po *Po) parseContext(l string, state parseState) bool {
 	// Save current Translation buffer.
 	po.saveBuffer(state)
 
 	// Buffer context
-	po.domain.ctxBuffer, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
+	var err error
+	po.domain.ctxBuffer, err = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
+	return err == nil
 }
 
 // parseID takes a line starting with "msgid",
 // saves the current Translation and creates a new msgid buffer.
-func (po *Po) parseID(l string, state parseState) {
+// It reports whether the entry is well-formed so far.
+func (po *Po) parseID(l string, state parseState) bool {
 	// Save current Translation buffer.
 	po.saveBuffer(state)
 
@@ -358,7 +377,14 @@ func (po *Po) parseID(l string, state parseState) {
 	po.domain.refBuffer = ""
 
 	// Set id
-	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
+	var err error
+	po.domain.trBuffer.ID, err = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
+	if err != nil || state == badCtxt {
+		po.domain.trBuffer = NewTranslation()
+		po.domain.ctxBuffer = ""
+		return false
+	}
+	return true
 }
 
 // parsePluralID saves the plural id buffer from a line starting with "msgid_plural"
@@ -440,7 +466,8 @@ func (po *Po) isValidLine(l string) bool {
 	}
 
 	for _, v := range valid {
-		if strings.HasPrefix(l, v) {
+		// A keyword ends where a blank, a string or an index begins
+		if strings.HasPrefix(l, v) && (v == "\"" || len(l) == len(v) || strings.ContainsAny(l[len(v):len(v)+1], " \t\"[")) {
 			return true
 		}
 	}
-- 
2.43.0


From 002a58ddb5a9762059c014de0de672fa617dba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 31/60] fix: MarshalText drops the plural forms of entries
 without plural id

---
 domain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index a5c45e6..9d8577b 100644
--- a/domain.go
+++ b/domain.go
@@ -803,7 +803,8 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			buf.WriteString("\nmsgctxt \"" + EscapeSpecialCharacters(ref.context) + "\"\nmsgid \"" + EscapeSpecialCharacters(trans.ID) + "\"")
 		}
 
-		if trans.PluralID == "" {
+		_, hasSingular := trans.Trs[0]
+		if trans.PluralID == "" && (len(trans.Trs) == 0 || len(trans.Trs) == 1 && hasSingular) {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
 			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
-- 
2.43.0


From 355f9be5ca41460d31e9937680a7febd5542408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 32/60] fix: binary decoding leaves the header comments of the
 previous contents behind

---
 domain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/domain.go b/domain.go
index 9d8577b..5082c06 100644
--- a/domain.go
+++ b/domain.go
@@ -914,6 +914,7 @@ func (do *Domain) restore(obj *TranslatorEncoding) {
 	do.plural = obj.Plural
 	do.translations = obj.Translations
 	do.contextTranslations = obj.Contexts
+	do.headerComments = nil
 
 	if do.Headers == nil {
 		do.Headers = make(HeaderMap)
-- 
2.43.0


From 55ab357a9acab77836a8eb1cc6c0421037e6ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 33/60] fix: a condition in the branch of a plural ternary is
 rejected

---
 plurals/compiler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 207867f..730eb84 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -431,7 +431,7 @@ func contains(haystack []string, needle string) bool {
 	return false
 }
 
-// Compiles an expression (ternary or constant)
+// Compiles an expression (ternary, condition or constant)
 func compileExpression(s string) (expr Expression, err error) {
 	tokens, err := tokenize(s)
 	if err != nil {
@@ -440,6 +440,15 @@ func compileExpression(s string) (expr Expression, err error) {
 	if contains(tokens, "?") {
 		return ternaryToken.compile(tokens)
 	}
+	for _, tokenDef := range precedence {
+		if contains(tokens, tokenDef.op) {
+			test, err := compileTest(s)
+			if err != nil {
+				return nil, err
+			}
+			return ternary{test: test, trueExpr: constValue{value: 1}, falseExpr: constValue{value: 0}}, nil
+		}
+	}
 	return constToken.compile(tokens)
 }
 
-- 
2.43.0


From cb5362a9107ebbd264428d9a1fa70208c558cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 34/60] fix: a constant plural rule with a sign is accepted

---
 plurals/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 730eb84..61f2fea 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -412,8 +412,8 @@ func tokenize(s string) ([]string, error) {
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
 	s = strings.Join(strings.Fields(s), "")
-	if constant, err := strconv.Atoi(stripParentheses(s)); err == nil && constant >= 0 {
-		return constValue{value: constant}, nil
+	if constant, err := strconv.ParseUint(stripParentheses(s), 10, strconv.IntSize-1); err == nil {
+		return constValue{value: int(constant)}, nil
 	}
 	if !strings.Contains(s, "?") {
 		s += "?1:0"
-- 
2.43.0


From c0b091db6d4bff5997258786e32090cd11aa4dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 35/60] fix: a plural rule with a blank inside a number or an
 operator is accepted

---
 plurals/compiler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 61f2fea..f2e411e 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -411,7 +411,14 @@ func tokenize(s string) ([]string, error) {
 
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
+	var tokens []string
+	for _, field := range strings.Fields(s) {
+		tokens = append(tokens, pat.FindAllString(field, -1)...)
+	}
 	s = strings.Join(strings.Fields(s), "")
+	if strings.Join(tokens, " ") != strings.Join(pat.FindAllString(s, -1), " ") {
+		return nil, errors.New("blank inside a number or an operator")
+	}
 	if constant, err := strconv.ParseUint(stripParentheses(s), 10, strconv.IntSize-1); err == nil {
 		return constValue{value: int(constant)}, nil
 	}
-- 
2.43.0


From 0676a2257b72f085e37f9d237a7cf9a31dc4f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 36/60] fix: MO entries with a context lose what follows a
 second EOT in their id

---
 mo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo.go b/mo.go
index 2ba9c61..62ef3cc 100644
--- a/mo.go
+++ b/mo.go
@@ -296,7 +296,7 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	var msgctxt []byte
 	var msgidPlural []byte
 
-	d := bytes.Split(msgid, []byte(EotSeparator))
+	d := bytes.SplitN(msgid, []byte(EotSeparator), 2)
 	if len(d) == 1 {
 		msgid = d[0]
 	} else {
-- 
2.43.0


From 72a2bd2d4f7135f50bb2cd7f218bf51dcf23437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 37/60] fix: SetN and SetNC store under the index of a plural
 rule that a concurrent parse has replaced

---
 domain.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/domain.go b/domain.go
index 5082c06..778eea3 100644
--- a/domain.go
+++ b/domain.go
@@ -315,12 +315,13 @@ func (do *Domain) Append(b []byte, str string, vars ...interface{}) []byte {
 
 // SetN sets the (N)th plural form for the given string
 func (do *Domain) SetN(id, plural string, n int, str string) {
-	// Get plural form _before_ lock down
+	do.trMutex.Lock()
+	defer do.trMutex.Unlock()
+
+	// The plural rule must not change between selecting the form and storing it
 	pluralForm := do.pluralForm(n)
 
-	do.trMutex.Lock()
 	do.pluralMutex.Lock()
-	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[id]; ok {
@@ -445,12 +446,13 @@ func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
 
 // SetNC sets the (N)th plural form for the given string in the given context
 func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
-	// Get plural form _before_ lock down
+	do.trMutex.Lock()
+	defer do.trMutex.Unlock()
+
+	// The plural rule must not change between selecting the form and storing it
 	pluralForm := do.pluralForm(n)
 
-	do.trMutex.Lock()
 	do.pluralMutex.Lock()
-	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
 	if context, ok := do.contextTranslations[ctx]; ok {
-- 
2.43.0


From a94e257ece752b05cddc38f7f0e15958cef4bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 38/60] fix: overlapping loads of a domain install an older
 file, or a file over an attached translator

---
 gotext.go | 24 ++++++++----------------
 locale.go | 26 ++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/gotext.go b/gotext.go
index 02e7d6f..4a2400d 100644
--- a/gotext.go
+++ b/gotext.go
@@ -77,8 +77,10 @@ func loadLocales(rebuildCache bool) {
 	}
 
 	for _, locale := range globalConfig.locales {
-		if rebuildCache || !locale.hasDomain(globalConfig.domain) {
+		if rebuildCache {
 			locale.AddDomain(globalConfig.domain)
+		} else {
+			locale.ensureDomain(globalConfig.domain)
 		}
 		locale.SetDomain(globalConfig.domain)
 	}
@@ -252,9 +254,7 @@ func GetD(dom, str string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if !locale.hasDomain(dom) {
-			locale.AddDomain(dom)
-		}
+		locale.ensureDomain(dom)
 		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -275,9 +275,7 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if !locale.hasDomain(dom) {
-			locale.AddDomain(dom)
-		}
+		locale.ensureDomain(dom)
 		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -310,9 +308,7 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if !locale.hasDomain(dom) {
-			locale.AddDomain(dom)
-		}
+		locale.ensureDomain(dom)
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -334,9 +330,7 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if !locale.hasDomain(dom) {
-			locale.AddDomain(dom)
-		}
+		locale.ensureDomain(dom)
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -421,9 +415,7 @@ func anyLocale(dom string, langs []string, cond func(locale *Locale) bool) bool
 			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
 				continue
 			}
-			if !locale.hasDomain(dom) {
-				locale.AddDomain(dom)
-			}
+			locale.ensureDomain(dom)
 			if cond(locale) {
 				return true
 			}
diff --git a/locale.go b/locale.go
index ccababc..3f0b0a3 100644
--- a/locale.go
+++ b/locale.go
@@ -62,6 +62,9 @@ type Locale struct {
 	// Sync Mutex
 	sync.RWMutex
 
+	// Held while a domain is reloaded, so that an older file never replaces a newer one
+	reloadMutex sync.Mutex
+
 	// optional fs to use
 	fs fs.FS
 }
@@ -173,6 +176,21 @@ func (l *Locale) fileExists(filename string) bool {
 // AddDomain creates a new domain for a given locale object and initializes the Po object.
 // If the domain exists, it gets reloaded.
 func (l *Locale) AddDomain(dom string) {
+	l.reloadMutex.Lock()
+	defer l.reloadMutex.Unlock()
+
+	l.loadDomain(dom, true)
+}
+
+// ensureDomain loads a domain, unless it has been loaded or attached already.
+func (l *Locale) ensureDomain(dom string) {
+	if !l.hasDomain(dom) {
+		l.loadDomain(dom, false)
+	}
+}
+
+// loadDomain reads the file of a domain. If the domain is there by then, only a reload replaces it.
+func (l *Locale) loadDomain(dom string, reload bool) {
 	var poObj Translator
 
 	file := l.findExt(dom, "po")
@@ -194,6 +212,7 @@ func (l *Locale) AddDomain(dom string) {
 
 	// Save new domain
 	l.Lock()
+	defer l.Unlock()
 
 	if l.Domains == nil {
 		l.Domains = make(map[string]Translator)
@@ -201,10 +220,9 @@ func (l *Locale) AddDomain(dom string) {
 	if l.defaultDomain == "" {
 		l.defaultDomain = dom
 	}
-	l.Domains[dom] = poObj
-
-	// Unlock "Save new domain"
-	l.Unlock()
+	if _, ok := l.Domains[dom]; !ok || reload {
+		l.Domains[dom] = poObj
+	}
 }
 
 // hasDomain reports whether a domain is already loaded in this locale.
-- 
2.43.0


From 3c23e13f4cf7fe9152be707d757e96f873f1225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 39/60] fix: package settings and the locales built from them
 change in two steps

---
 gotext.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/gotext.go b/gotext.go
index 4a2400d..50f902a 100644
--- a/gotext.go
+++ b/gotext.go
@@ -67,7 +67,14 @@ func init() {
 // It is called when trying to use Get or GetD methods.
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
+
+	updateLocales(rebuildCache)
+}
 
+// updateLocales does what loadLocales does for callers that have locked the configuration,
+// so that a setting and the locales that belong to it change at once.
+func updateLocales(rebuildCache bool) {
 	if len(globalConfig.locales) == 0 || rebuildCache {
 		var locales []*Locale
 		for _, language := range globalConfig.languages {
@@ -84,8 +91,6 @@ func loadLocales(rebuildCache bool) {
 		}
 		locale.SetDomain(globalConfig.domain)
 	}
-
-	globalConfig.Unlock()
 }
 
 // GetDomain is the domain getter for the package configuration
@@ -108,15 +113,15 @@ func GetDomain() string {
 // It reloads the corresponding Translation file.
 func SetDomain(dom string) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
 	globalConfig.domain = dom
 	if globalConfig.locales != nil {
 		for _, locale := range globalConfig.locales {
 			locale.SetDomain(dom)
 		}
 	}
-	globalConfig.Unlock()
 
-	loadLocales(true)
+	updateLocales(true)
 }
 
 // GetLanguage returns the language gotext will translate into.
@@ -141,14 +146,14 @@ func GetLanguages() []string {
 // It reloads the corresponding Translation file.
 func SetLanguage(lang string) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
 	var languages []string
 	for _, language := range strings.Split(lang, ":") {
 		languages = append(languages, SimplifiedLocale(language))
 	}
 	globalConfig.languages = languages
-	globalConfig.Unlock()
 
-	loadLocales(true)
+	updateLocales(true)
 }
 
 // GetLibrary is the library getter for the package configuration
@@ -164,10 +169,10 @@ func GetLibrary() string {
 // It reloads the corresponding Translation file.
 func SetLibrary(lib string) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
 	globalConfig.library = lib
-	globalConfig.Unlock()
 
-	loadLocales(true)
+	updateLocales(true)
 }
 
 // GetLocales returns the locales that have been set for the package configuration.
@@ -219,6 +224,7 @@ func SetStorage(locale *Locale) {
 // as using each setter will introduce a I/O overhead because the Translation file will be loaded after each set.
 func Configure(lib, lang, dom string) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
 	globalConfig.library = lib
 	var languages []string
 	for _, language := range strings.Split(lang, ":") {
@@ -226,9 +232,8 @@ func Configure(lib, lang, dom string) {
 	}
 	globalConfig.languages = languages
 	globalConfig.domain = dom
-	globalConfig.Unlock()
 
-	loadLocales(true)
+	updateLocales(true)
 }
 
 // Get uses the default domain globally set to return the corresponding Translation of a given string.
@@ -399,15 +404,16 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 // anyLocale reports whether the locale of any of the given languages satisfies the given condition on a domain.
 // A language stands for the locales configured for it, and for those which resolve to it on the filesystem.
 func anyLocale(dom string, langs []string, cond func(locale *Locale) bool) bool {
-	if len(langs) == 0 {
-		langs = GetLanguages()
-	}
-
 	loadLocales(false)
 
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	if len(langs) == 0 {
+		// the languages of the current locales
+		langs = globalConfig.languages
+	}
+
 	for _, lang := range langs {
 		lang = SimplifiedLocale(lang)
 
-- 
2.43.0


From b1be844e586bda82569cdadabd1b8f66d4d8b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 40/60] fix: a package lookup over several languages decides
 and answers on two looks

GetD, GetND, GetDC and GetNDC asked a locale whether the domain translates
the string, and then asked it for the translation. A reload of the domain
in between (AddDomain, AddTranslator, a lazy load) made the answer neither
that of the state before the reload nor that of the state after it: the
source text, where both give a translation. Look the translations up once,
and decide and answer with those.
---
 gotext.go | 44 ++++++++++++++++++++++++++++++++------------
 locale.go |  7 +++++++
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/gotext.go b/gotext.go
index 50f902a..1e5f3f2 100644
--- a/gotext.go
+++ b/gotext.go
@@ -260,11 +260,16 @@ func GetD(dom, str string, vars ...interface{}) string {
 	var tr string
 	for i, locale := range globalConfig.locales {
 		locale.ensureDomain(dom)
-		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
-			continue
+		if i < (len(globalConfig.locales) - 1) {
+			// Decide and answer with the same translations, even if the domain is reloaded meanwhile
+			domain := locale.translator(dom)
+			if domain == nil || !domain.GetDomain().IsTranslated(str) {
+				continue
+			}
+			tr = domain.Get(str, vars...)
+			break
 		}
 		tr = locale.GetD(dom, str, vars...)
-		break
 	}
 	return tr
 }
@@ -281,11 +286,16 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 	var tr string
 	for i, locale := range globalConfig.locales {
 		locale.ensureDomain(dom)
-		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
-			continue
+		if i < (len(globalConfig.locales) - 1) {
+			// Decide and answer with the same translations, even if the domain is reloaded meanwhile
+			domain := locale.translator(dom)
+			if domain == nil || !domain.GetDomain().IsTranslatedN(str, n) {
+				continue
+			}
+			tr = domain.GetN(str, plural, n, vars...)
+			break
 		}
 		tr = locale.GetND(dom, str, plural, n, vars...)
-		break
 	}
 	return tr
 }
@@ -314,11 +324,16 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 	var tr string
 	for i, locale := range globalConfig.locales {
 		locale.ensureDomain(dom)
-		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
-			continue
+		if i < (len(globalConfig.locales) - 1) {
+			// Decide and answer with the same translations, even if the domain is reloaded meanwhile
+			domain := locale.translator(dom)
+			if domain == nil || !domain.GetDomain().IsTranslatedC(str, ctx) {
+				continue
+			}
+			tr = domain.GetC(str, ctx, vars...)
+			break
 		}
 		tr = locale.GetDC(dom, str, ctx, vars...)
-		break
 	}
 	return tr
 }
@@ -336,11 +351,16 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 	var tr string
 	for i, locale := range globalConfig.locales {
 		locale.ensureDomain(dom)
-		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
-			continue
+		if i < (len(globalConfig.locales) - 1) {
+			// Decide and answer with the same translations, even if the domain is reloaded meanwhile
+			domain := locale.translator(dom)
+			if domain == nil || !domain.GetDomain().IsTranslatedNC(str, n, ctx) {
+				continue
+			}
+			tr = domain.GetNC(str, plural, n, ctx, vars...)
+			break
 		}
 		tr = locale.GetNDC(dom, str, plural, n, ctx, vars...)
-		break
 	}
 	return tr
 }
diff --git a/locale.go b/locale.go
index 3f0b0a3..e2bfad1 100644
--- a/locale.go
+++ b/locale.go
@@ -182,6 +182,13 @@ func (l *Locale) AddDomain(dom string) {
 	l.loadDomain(dom, true)
 }
 
+// translator returns the translations of a domain, or nil if it is not loaded.
+func (l *Locale) translator(dom string) Translator {
+	l.RLock()
+	defer l.RUnlock()
+	return l.Domains[dom]
+}
+
 // ensureDomain loads a domain, unless it has been loaded or attached already.
 func (l *Locale) ensureDomain(dom string) {
 	if !l.hasDomain(dom) {
-- 
2.43.0


From f8a37d56ceabb67600e40d3c64bb251f2a9f9e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 41/60] fix: SetLocales reads the first locale's domain without
 its lock

Concurrently with SetDomain on that locale this was a data race.
---
 gotext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotext.go b/gotext.go
index 1e5f3f2..08b7224 100644
--- a/gotext.go
+++ b/gotext.go
@@ -202,7 +202,7 @@ func SetLocales(locales []*Locale) {
 
 	globalConfig.locales = locales
 	globalConfig.library = locales[0].path
-	globalConfig.domain = locales[0].defaultDomain
+	globalConfig.domain = locales[0].GetDomain()
 
 	var languages []string
 	for _, locale := range locales {
-- 
2.43.0


From 49b07abc13ef54bf21c208ec021e364797758672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 42/60] fix: xgotext loses the types of a package named like
 one of its imports

The package itself and its imports shared one map by name, so in a package
'log' that imports "log" no receiver could be resolved, and calls on
values were not extracted.
---
 cli/xgotext/parser/dir/golang.go      | 3 ++-
 cli/xgotext/parser/pkg-tree/golang.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index ec924ee..0de3954 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -51,8 +51,9 @@ func goParser(dirPath, basePath string, data *parser.DomainMap) error {
 				Data:     data,
 				FileSet:  fileSet,
 
+				// The package itself, under a keyword: imports may have any other name
 				ImportedPackages: map[string]*packages.Package{
-					pkgs[0].Name: pkgs[0],
+					"package": pkgs[0],
 				},
 			},
 		}
diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index 871f158..402beb2 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -43,8 +43,9 @@ func pkgParser(dirPath, basePath string, data *parser.DomainMap, verbose bool) e
 					Data:     data,
 					FileSet:  pkg.Fset,
 
+					// The package itself, under a keyword: imports may have any other name
 					ImportedPackages: map[string]*packages.Package{
-						pkg.Name: pkg,
+						"package": pkg,
 					},
 				},
 			}
-- 
2.43.0


From 58e506674b27af5fd446ba83954f84c0b300bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 43/60] fix: xgotext misses gotext calls when the import can't
 be loaded from the input directory

Below an input directory without go.mod (several modules next to each
other), imports were loaded from that directory, without success, and
package-level calls were not extracted. The type information of the
package says what its imports are.
---
 cli/xgotext/parser/gofile.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 09b16ea..51271a3 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -115,13 +115,13 @@ func (g *GoFile) InspectCallExpr(n *ast.CallExpr) {
 	// Resolve the type of the receiver (expr.X)
 	receiverType := g.getExprType(expr.X)
 	if receiverType == nil {
-		// Fallback for package calls if types didn't resolve it
-		if id, ok := expr.X.(*ast.Ident); ok && id.Obj == nil {
-			pkg, ok := g.ImportedPackages[id.Name]
-			if !ok || pkg.PkgPath != "github.com/leonelquinteros/gotext" {
-				return
-			}
-		} else {
+		// Not a value: calls of the package itself remain
+		id, ok := expr.X.(*ast.Ident)
+		if !ok {
+			return
+		}
+		pkgName, ok := g.GetType(id).(*types.PkgName)
+		if !ok || pkgName.Imported().Path() != "github.com/leonelquinteros/gotext" {
 			return
 		}
 	} else if !g.CheckType(receiverType) {
-- 
2.43.0


From 0ed61f116ce38829fa5f6eea93871cd9f267a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 44/60] fix: xgotext extracts header names,
 po.Headers.Get("Language"), as messages

---
 cli/xgotext/parser/gofile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 51271a3..7b54e7e 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -89,6 +89,10 @@ func (g *GoFile) CheckType(rawType types.Type) bool {
 		if t.Obj().Pkg() == nil || t.Obj().Pkg().Path() != "github.com/leonelquinteros/gotext" {
 			return false
 		}
+		if t.Obj().Name() == "HeaderMap" {
+			// Get returns a header of a translation file
+			return false
+		}
 
 	case *types.Alias:
 		return g.CheckType(t.Rhs())
-- 
2.43.0


From b2216af3389abfac9afe73376b201b887c62b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 45/60] fix: which of two plurals of a string xgotext writes
 depends on the order of packages

Packages of a tree are visited in the order of a map, so the same input
gave different POT files.
---
 cli/xgotext/parser/domain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index f938412..5c82b61 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -27,7 +27,8 @@ func (t *Translation) AddLocations(locations []string) {
 
 // merge another occurrence of the same translation into this one
 func (t *Translation) merge(other *Translation) {
-	if t.MsgIDPlural == "" {
+	// Of different plurals take the same one, whatever order they are met in
+	if t.MsgIDPlural == "" || other.MsgIDPlural != "" && other.MsgIDPlural < t.MsgIDPlural {
 		t.MsgIDPlural = other.MsgIDPlural
 	}
 	t.AddLocations(other.SourceLocations)
-- 
2.43.0


From 1b012b7c1e79cedd607ad52516c058791f8e8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 46/60] fix: xgotext writes a second entry for a string with an
 empty context

A PO file can't tell an empty context from none: reading the file back,
one of the two entries replaces the other, and its references are lost.
---
 cli/xgotext/parser/gofile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 7b54e7e..34452e9 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -200,7 +200,9 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 		}
 		// Store it the way a PO file quotes it, whatever kind of Go literal it is
 		context, _ := strconv.Unquote(args[def.Context].Value)
-		trans.Context = formatMultiline(fixSpecialChars(context))
+		if context != "" {
+			trans.Context = formatMultiline(fixSpecialChars(context))
+		}
 	}
 
 	g.Data.AddTranslation(domain, &trans)
-- 
2.43.0


From c3961acff8bf250745aad814ebcab3b147852fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:06 +0000
Subject: [PATCH 47/60] fix: PO files in charsets other than UTF-8 lose their
 non-ASCII characters

strconv.Unquote replaces every byte that is not UTF-8 by U+FFFD, in ids
as well: such strings are never found, and their translations are damaged.
---
 po.go | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/po.go b/po.go
index a97bdca..34e5972 100644
--- a/po.go
+++ b/po.go
@@ -9,6 +9,7 @@ import (
 	"io/fs"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 /*
@@ -359,7 +360,7 @@ func (po *Po) parseContext(l string, state parseState) bool {
 
 	// Buffer context
 	var err error
-	po.domain.ctxBuffer, err = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
+	po.domain.ctxBuffer, err = unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
 	return err == nil
 }
 
@@ -378,7 +379,7 @@ func (po *Po) parseID(l string, state parseState) bool {
 
 	// Set id
 	var err error
-	po.domain.trBuffer.ID, err = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
+	po.domain.trBuffer.ID, err = unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
 	if err != nil || state == badCtxt {
 		po.domain.trBuffer = NewTranslation()
 		po.domain.ctxBuffer = ""
@@ -389,7 +390,7 @@ func (po *Po) parseID(l string, state parseState) bool {
 
 // parsePluralID saves the plural id buffer from a line starting with "msgid_plural"
 func (po *Po) parsePluralID(l string) {
-	po.domain.trBuffer.PluralID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid_plural")))
+	po.domain.trBuffer.PluralID, _ = unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid_plural")))
 }
 
 // parseMessage takes a line starting with "msgstr" and saves it into the current buffer.
@@ -416,7 +417,7 @@ func (po *Po) parseMessage(l string) {
 
 		// Parse Translation string
 		po.domain.idxBuffer = i
-		po.domain.trBuffer.Trs[i], _ = strconv.Unquote(strings.TrimSpace(l[idx+1:]))
+		po.domain.trBuffer.Trs[i], _ = unquote(strings.TrimSpace(l[idx+1:]))
 
 		// Loop
 		return
@@ -424,13 +425,13 @@ func (po *Po) parseMessage(l string) {
 
 	// Save single Translation form under 0 index
 	po.domain.idxBuffer = 0
-	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
+	po.domain.trBuffer.Trs[0], _ = unquote(l)
 }
 
 // parseString takes a well formatted string without prefix
 // and creates headers or attach multi-line strings when corresponding
 func (po *Po) parseString(l string, state parseState) {
-	clean, _ := strconv.Unquote(l)
+	clean, _ := unquote(l)
 
 	switch state {
 	case msgStr:
@@ -454,6 +455,37 @@ func (po *Po) parseString(l string, state parseState) {
 	}
 }
 
+// unquote decodes a quoted string as strconv.Unquote does, except that it keeps bytes that aren't UTF-8,
+// as files in other charsets contain, instead of replacing them.
+func unquote(s string) (string, error) {
+	if utf8.ValidString(s) {
+		return strconv.Unquote(s)
+	}
+	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
+		return "", strconv.ErrSyntax
+	}
+
+	var out []byte
+	for s = s[1 : len(s)-1]; len(s) > 0; {
+		if r, size := utf8.DecodeRuneInString(s); r == utf8.RuneError && size == 1 {
+			out = append(out, s[0])
+			s = s[1:]
+			continue
+		}
+		r, multibyte, tail, err := strconv.UnquoteChar(s, '"')
+		if err != nil {
+			return "", err
+		}
+		if multibyte {
+			out = append(out, string(r)...)
+		} else {
+			out = append(out, byte(r))
+		}
+		s = tail
+	}
+	return string(out), nil
+}
+
 // isValidLine checks for line prefixes to detect valid syntax.
 func (po *Po) isValidLine(l string) bool {
 	// Check prefix
-- 
2.43.0


From 4f61c0a26db47e80ccb518ad85d6a0079d98e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 48/60] fix: an empty context in a PO or MO file is taken for
 no context

GetC(id, "") never found such an entry, and it replaced the entry of the
same id without context. MarshalText wrote it without context as well.
xgotext writes it again, now that it can be read back.
---
 cli/xgotext/parser/gofile.go |  4 +---
 domain.go                    | 15 ++++++++++++++-
 mo.go                        |  4 +++-
 po.go                        |  6 +++++-
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 34452e9..7b54e7e 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -200,9 +200,7 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 		}
 		// Store it the way a PO file quotes it, whatever kind of Go literal it is
 		context, _ := strconv.Unquote(args[def.Context].Value)
-		if context != "" {
-			trans.Context = formatMultiline(fixSpecialChars(context))
-		}
+		trans.Context = formatMultiline(fixSpecialChars(context))
 	}
 
 	g.Data.AddTranslation(domain, &trans)
diff --git a/domain.go b/domain.go
index 778eea3..51457da 100644
--- a/domain.go
+++ b/domain.go
@@ -46,6 +46,9 @@ type Domain struct {
 	refBuffer string
 	idxBuffer int
 
+	// Whether the entry being parsed has a context, which may be empty
+	hasCtxBuffer bool
+
 	customPluralResolver func(int) int
 }
 
@@ -639,6 +642,9 @@ type SourceReference struct {
 	line    int
 	context string
 	trans   *Translation
+
+	// hasContext tells an empty context from none
+	hasContext bool
 }
 
 func extractPathAndLine(ref string) (string, int) {
@@ -733,6 +739,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 					line,
 					name,
 					trans,
+					true,
 				})
 			} else {
 				references = append(references, SourceReference{
@@ -740,6 +747,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 					0,
 					name,
 					trans,
+					true,
 				})
 			}
 		}
@@ -757,6 +765,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 				line,
 				"",
 				trans,
+				false,
 			})
 		} else {
 			references = append(references, SourceReference{
@@ -764,6 +773,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 				0,
 				"",
 				trans,
+				false,
 			})
 		}
 	}
@@ -788,6 +798,9 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		if references[i].context > references[j].context {
 			return false
 		}
+		if references[i].hasContext != references[j].hasContext {
+			return references[j].hasContext
+		}
 		return references[i].trans.ID < references[j].trans.ID
 	})
 
@@ -799,7 +812,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			buf.WriteByte(byte('\n'))
 		}
 
-		if ref.context == "" {
+		if !ref.hasContext {
 			buf.WriteString("\nmsgid \"" + EscapeSpecialCharacters(trans.ID) + "\"")
 		} else {
 			buf.WriteString("\nmsgctxt \"" + EscapeSpecialCharacters(ref.context) + "\"\nmsgid \"" + EscapeSpecialCharacters(trans.ID) + "\"")
diff --git a/mo.go b/mo.go
index 62ef3cc..52b661f 100644
--- a/mo.go
+++ b/mo.go
@@ -294,6 +294,7 @@ func stringAt(buf []byte, start, length uint32) ([]byte, bool) {
 func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	translation := NewTranslation()
 	var msgctxt []byte
+	hasCtx := false
 	var msgidPlural []byte
 
 	d := bytes.SplitN(msgid, []byte(EotSeparator), 2)
@@ -301,6 +302,7 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 		msgid = d[0]
 	} else {
 		msgid, msgctxt = d[1], d[0]
+		hasCtx = true
 	}
 
 	dd := bytes.Split(msgid, []byte(NulSeparator))
@@ -322,7 +324,7 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 		}
 	}
 
-	if len(msgctxt) > 0 {
+	if hasCtx {
 		// With context...
 		if _, ok := mo.domain.contextTranslations[string(msgctxt)]; !ok {
 			mo.domain.contextTranslations[string(msgctxt)] = make(map[string]*Translation)
diff --git a/po.go b/po.go
index 34e5972..d77d642 100644
--- a/po.go
+++ b/po.go
@@ -234,6 +234,7 @@ func (po *Po) Parse(buf []byte) {
 	// Init buffer
 	po.domain.trBuffer = NewTranslation()
 	po.domain.ctxBuffer = ""
+	po.domain.hasCtxBuffer = false
 	po.domain.refBuffer = ""
 
 	state := head
@@ -316,7 +317,7 @@ func (po *Po) saveBuffer(state parseState) {
 	}
 
 	// With no context...
-	if po.domain.ctxBuffer == "" {
+	if !po.domain.hasCtxBuffer {
 		po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
 	} else {
 		// With context...
@@ -327,6 +328,7 @@ func (po *Po) saveBuffer(state parseState) {
 
 		// Cleanup current context buffer
 		po.domain.ctxBuffer = ""
+		po.domain.hasCtxBuffer = false
 	}
 
 	// Flush Translation buffer
@@ -361,6 +363,7 @@ func (po *Po) parseContext(l string, state parseState) bool {
 	// Buffer context
 	var err error
 	po.domain.ctxBuffer, err = unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
+	po.domain.hasCtxBuffer = true
 	return err == nil
 }
 
@@ -383,6 +386,7 @@ func (po *Po) parseID(l string, state parseState) bool {
 	if err != nil || state == badCtxt {
 		po.domain.trBuffer = NewTranslation()
 		po.domain.ctxBuffer = ""
+		po.domain.hasCtxBuffer = false
 		return false
 	}
 	return true
-- 
2.43.0


From e809daf87fa29b2b269fab19285a8391ad0b8e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 49/60] fix: MarshalText drops the entry with a context and an
 empty id

Only the one without context is the header.
---
 domain.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index 51457da..d4f16ef 100644
--- a/domain.go
+++ b/domain.go
@@ -728,10 +728,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 	// Just as with headers, output translations in consistent order (to minimise diffs between round-trips), with (first) source reference taking priority, followed by context and finally ID
 	references := make([]SourceReference, 0)
 	for name, ctx := range do.contextTranslations {
-		for id, trans := range ctx {
-			if id == "" {
-				continue
-			}
+		for _, trans := range ctx {
 			if len(trans.Refs) > 0 {
 				path, line := extractPathAndLine(trans.Refs[0])
 				references = append(references, SourceReference{
-- 
2.43.0


From 9b8a3ee1615fcabafd148d4418ea6ba5e779f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 50/60] fix: a few damaged bytes in a binary encoding exhaust
 the memory

Gob allocates a map for as many entries as the data tells, before it reads them.
---
 domain.go     |  6 +-----
 locale.go     | 16 +++++++---------
 translator.go | 16 ++++++++++++++++
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/domain.go b/domain.go
index d4f16ef..6ad0fd4 100644
--- a/domain.go
+++ b/domain.go
@@ -897,12 +897,8 @@ func (do *Domain) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary implements encoding.BinaryUnmarshaler interface
 func (do *Domain) UnmarshalBinary(data []byte) error {
-	buff := bytes.NewBuffer(data)
 	obj := new(TranslatorEncoding)
-
-	decoder := gob.NewDecoder(buff)
-	err := decoder.Decode(obj)
-	if err != nil {
+	if err := obj.decode(data); err != nil {
 		return err
 	}
 
diff --git a/locale.go b/locale.go
index e2bfad1..822eab7 100644
--- a/locale.go
+++ b/locale.go
@@ -512,12 +512,13 @@ func (l *Locale) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary implements encoding BinaryUnmarshaler interface
 func (l *Locale) UnmarshalBinary(data []byte) error {
-	buff := bytes.NewBuffer(data)
+	// Gob allocates maps of the size that the data tells: skip over them first, which fails if that is wrong.
 	obj := new(LocaleEncoding)
-
-	decoder := gob.NewDecoder(buff)
-	err := decoder.Decode(obj)
-	if err != nil {
+	outline := new(struct{ Path, Lang, DefaultDomain string })
+	if err := gob.NewDecoder(bytes.NewReader(data)).Decode(outline); err != nil {
+		return err
+	}
+	if err := gob.NewDecoder(bytes.NewReader(data)).Decode(obj); err != nil {
 		return err
 	}
 
@@ -525,10 +526,7 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 	domains := make(map[string]Translator)
 	for k, v := range obj.Domains {
 		var tr TranslatorEncoding
-		buff := bytes.NewBuffer(v)
-		trDecoder := gob.NewDecoder(buff)
-		err := trDecoder.Decode(&tr)
-		if err != nil {
+		if err := tr.decode(v); err != nil {
 			return err
 		}
 
diff --git a/translator.go b/translator.go
index 05ccd4d..c2f7bdb 100644
--- a/translator.go
+++ b/translator.go
@@ -6,6 +6,8 @@
 package gotext
 
 import (
+	"bytes"
+	"encoding/gob"
 	"errors"
 	"io/fs"
 	"os"
@@ -57,6 +59,20 @@ type TranslatorEncoding struct {
 	Contexts     map[string]map[string]*Translation
 }
 
+// decode reads an encoding. Gob allocates maps of the size that the data tells: decode skips over them first,
+// which fails if that is wrong, so that damaged data can't exhaust the memory.
+func (te *TranslatorEncoding) decode(data []byte) error {
+	outline := new(struct {
+		Language, PluralForms, Plural string
+		Nplurals                      int
+	})
+	if err := gob.NewDecoder(bytes.NewReader(data)).Decode(outline); err != nil {
+		return err
+	}
+
+	return gob.NewDecoder(bytes.NewReader(data)).Decode(te)
+}
+
 // GetTranslator is used to recover a Translator object after unmarshalling the TranslatorEncoding object.
 // Internally uses a Po object as it should be switchable with Mo objects without problem.
 // External Translator implementations should be able to serialize into a TranslatorEncoding object in order to
-- 
2.43.0


From a890792804ceff70e3f742d9c30b28f2c62308e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 51/60] fix: the first entry of a PO file without header loses
 its references

---
 po.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/po.go b/po.go
index d77d642..214a945 100644
--- a/po.go
+++ b/po.go
@@ -335,13 +335,15 @@ func (po *Po) saveBuffer(state parseState) {
 	po.domain.trBuffer = NewTranslation()
 }
 
-// Either preserves comments before the first "msgid", for later round-trip.
-// Or preserves source references for a given translation.
+// Preserves comments before the first "msgid", for later round-trip,
+// and source references for a given translation.
 func (po *Po) parseComment(l string, state parseState) {
 	if len(l) > 0 && l[0] == '#' {
 		if state == head {
 			po.domain.headerComments = append(po.domain.headerComments, l)
-		} else if len(l) > 1 {
+		}
+		// The first entry need not be a header, and may have references as any other
+		if len(l) > 1 {
 			switch l[1] {
 			case ':':
 				if len(l) > 2 {
-- 
2.43.0


From ec80416564fb9c7f7d192782985eaee5d37b18e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:17 +0000
Subject: [PATCH 52/60] fix: the time and memory to compile a plural rule grow
 faster than the square of its length

---
 plurals/compiler.go | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index f2e411e..85346e6 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -40,7 +40,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	if err != nil {
 		return expr, err
 	}
-	test, err := compileTest(strings.Join(main.Left, ""))
+	test, err := compileTest(main.Left)
 	if err != nil {
 		return expr, err
 	}
@@ -48,11 +48,11 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	if err != nil {
 		return expr, err
 	}
-	trueAction, err := compileExpression(strings.Join(actions.Left, ""))
+	trueAction, err := compileExpression(actions.Left)
 	if err != nil {
 		return expr, err
 	}
-	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
+	falseAction, err := compileExpression(actions.Right)
 	if err != nil {
 		return expr, err
 	}
@@ -86,11 +86,11 @@ func compileLogicTest(tokens []string, sep string, builder logicTestBuild) (test
 	if err != nil {
 		return test, err
 	}
-	left, err := compileTest(strings.Join(split.Left, ""))
+	left, err := compileTest(split.Left)
 	if err != nil {
 		return test, err
 	}
-	right, err := compileTest(strings.Join(split.Right, ""))
+	right, err := compileTest(split.Right)
 	if err != nil {
 		return test, err
 	}
@@ -409,8 +409,22 @@ func tokenize(s string) ([]string, error) {
 	return ret, nil
 }
 
+// Splits the only token of a list into its own ones if it is a group in parentheses.
+func ungroup(tokens []string) ([]string, error) {
+	if len(tokens) == 1 && tokens[0][0] == '(' {
+		return tokenize(tokens[0])
+	}
+	return tokens, nil
+}
+
+// maxLength limits what a rule can cost: the time to compile it grows with the square of its length
+const maxLength = 1 << 14
+
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
+	if len(s) > maxLength {
+		return nil, errors.New("expression too long")
+	}
 	var tokens []string
 	for _, field := range strings.Fields(s) {
 		tokens = append(tokens, pat.FindAllString(field, -1)...)
@@ -425,7 +439,11 @@ func Compile(s string) (expr Expression, err error) {
 	if !strings.Contains(s, "?") {
 		s += "?1:0"
 	}
-	return compileExpression(s)
+	tokens, err = tokenize(s)
+	if err != nil {
+		return nil, err
+	}
+	return compileExpression(tokens)
 }
 
 // Check if a token is in a slice of strings
@@ -439,8 +457,8 @@ func contains(haystack []string, needle string) bool {
 }
 
 // Compiles an expression (ternary, condition or constant)
-func compileExpression(s string) (expr Expression, err error) {
-	tokens, err := tokenize(s)
+func compileExpression(tokens []string) (expr Expression, err error) {
+	tokens, err = ungroup(tokens)
 	if err != nil {
 		return nil, err
 	}
@@ -449,7 +467,7 @@ func compileExpression(s string) (expr Expression, err error) {
 	}
 	for _, tokenDef := range precedence {
 		if contains(tokens, tokenDef.op) {
-			test, err := compileTest(s)
+			test, err := compileTest(tokens)
 			if err != nil {
 				return nil, err
 			}
@@ -460,8 +478,8 @@ func compileExpression(s string) (expr Expression, err error) {
 }
 
 // Compiles a test (comparison)
-func compileTest(s string) (test test, err error) {
-	tokens, err := tokenize(s)
+func compileTest(tokens []string) (test test, err error) {
+	tokens, err = ungroup(tokens)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c3a617d9600e1d5f787fbe133b93f7841bd9232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:01 +0000
Subject: [PATCH 53/60] fix: reading a string or references spread over many
 lines takes time and memory that grow with their square

---
 domain.go |  5 ++++-
 po.go     | 41 +++++++++++++++++++++++++++--------------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/domain.go b/domain.go
index 6ad0fd4..9cac1aa 100644
--- a/domain.go
+++ b/domain.go
@@ -43,9 +43,12 @@ type Domain struct {
 	// Parsing buffers
 	trBuffer  *Translation
 	ctxBuffer string
-	refBuffer string
+	refBuffer []string
 	idxBuffer int
 
+	// Continuation lines of the string being parsed
+	strBuffer []byte
+
 	// Whether the entry being parsed has a context, which may be empty
 	hasCtxBuffer bool
 
diff --git a/po.go b/po.go
index 214a945..294e7d2 100644
--- a/po.go
+++ b/po.go
@@ -235,7 +235,8 @@ func (po *Po) Parse(buf []byte) {
 	po.domain.trBuffer = NewTranslation()
 	po.domain.ctxBuffer = ""
 	po.domain.hasCtxBuffer = false
-	po.domain.refBuffer = ""
+	po.domain.refBuffer = nil
+	po.domain.strBuffer = nil
 
 	state := head
 	for _, l := range lines {
@@ -248,6 +249,15 @@ func (po *Po) Parse(buf []byte) {
 			continue
 		}
 
+		// Multi line strings and headers
+		if strings.HasPrefix(l, "\"") && strings.HasSuffix(l, "\"") {
+			po.parseString(l)
+			continue
+		}
+
+		// Any other line ends the string before it
+		po.saveString(state)
+
 		// Buffer context and continue
 		if strings.HasPrefix(l, "msgctxt") {
 			if po.parseContext(l, state) {
@@ -287,15 +297,10 @@ func (po *Po) Parse(buf []byte) {
 			state = msgStr
 			continue
 		}
-
-		// Multi line strings and headers
-		if strings.HasPrefix(l, "\"") && strings.HasSuffix(l, "\"") {
-			po.parseString(l, state)
-			continue
-		}
 	}
 
 	// Save last Translation buffer.
+	po.saveString(state)
 	po.saveBuffer(state)
 
 	// Parse headers
@@ -348,7 +353,7 @@ func (po *Po) parseComment(l string, state parseState) {
 			case ':':
 				if len(l) > 2 {
 					// An entry may list its references on several lines
-					po.domain.refBuffer += " " + l[2:]
+					po.domain.refBuffer = append(po.domain.refBuffer, strings.Fields(l[2:])...)
 				}
 			}
 		}
@@ -377,10 +382,8 @@ func (po *Po) parseID(l string, state parseState) bool {
 	po.saveBuffer(state)
 
 	// References belong to this entry only
-	if refs := strings.Fields(po.domain.refBuffer); len(refs) > 0 {
-		po.domain.trBuffer.Refs = refs
-	}
-	po.domain.refBuffer = ""
+	po.domain.trBuffer.Refs = po.domain.refBuffer
+	po.domain.refBuffer = nil
 
 	// Set id
 	var err error
@@ -435,9 +438,19 @@ func (po *Po) parseMessage(l string) {
 }
 
 // parseString takes a well formatted string without prefix
-// and creates headers or attach multi-line strings when corresponding
-func (po *Po) parseString(l string, state parseState) {
+// and buffers it as part of a multi-line string
+func (po *Po) parseString(l string) {
 	clean, _ := unquote(l)
+	po.domain.strBuffer = append(po.domain.strBuffer, clean...)
+}
+
+// saveString creates headers or attaches multi-line strings when corresponding
+func (po *Po) saveString(state parseState) {
+	if len(po.domain.strBuffer) == 0 {
+		return
+	}
+	clean := string(po.domain.strBuffer)
+	po.domain.strBuffer = po.domain.strBuffer[:0]
 
 	switch state {
 	case msgStr:
-- 
2.43.0


From 26259254706b465d5c5e6c66ef00dc279e62419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:46 +0000
Subject: [PATCH 54/60] fix: an MO file whose strings share their bytes takes
 up memory many times its size

---
 mo.go | 53 ++++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/mo.go b/mo.go
index 52b661f..febcb7c 100644
--- a/mo.go
+++ b/mo.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"io/fs"
+	"strings"
 )
 
 const (
@@ -252,19 +253,27 @@ func (mo *Mo) Parse(buf []byte) {
 		}
 	}
 
+	// Strings may share their bytes in the file, so they share them here too: copies could be many times its size
+	text := string(buf)
+	forms := 0
 	for i := 0; i < int(header.MsgIDCount); i++ {
-		msgIDData, ok := stringAt(buf, msgIDStart[i], msgIDLen[i])
+		msgIDData, ok := stringAt(text, msgIDStart[i], msgIDLen[i])
 		if !ok {
 			return
 			// return fmt.Errorf("gettext: %v", "string out of bounds")
 		}
 
-		msgStrData, ok := stringAt(buf, msgStrStart[i], msgStrLen[i])
+		msgStrData, ok := stringAt(text, msgStrStart[i], msgStrLen[i])
 		if !ok {
 			return
 			// return fmt.Errorf("gettext: %v", "string out of bounds")
 		}
 
+		if forms += strings.Count(msgStrData, NulSeparator) + 1; forms > len(text) {
+			return
+			// return fmt.Errorf("gettext: %v", "more plural forms than bytes")
+		}
+
 		if len(msgIDData) == 0 {
 			mo.addTranslation(msgIDData, msgStrData)
 		} else {
@@ -283,21 +292,20 @@ func (mo *Mo) Parse(buf []byte) {
 }
 
 // stringAt returns the bytes of a string, and whether the file holds all of them
-func stringAt(buf []byte, start, length uint32) ([]byte, bool) {
+func stringAt(text string, start, length uint32) (string, bool) {
 	end := uint64(start) + uint64(length)
-	if end > uint64(len(buf)) {
-		return nil, false
+	if end > uint64(len(text)) {
+		return "", false
 	}
-	return buf[start:end], true
+	return text[start:end], true
 }
 
-func (mo *Mo) addTranslation(msgid, msgstr []byte) {
+func (mo *Mo) addTranslation(msgid, msgstr string) {
 	translation := NewTranslation()
-	var msgctxt []byte
+	var msgctxt string
 	hasCtx := false
-	var msgidPlural []byte
 
-	d := bytes.SplitN(msgid, []byte(EotSeparator), 2)
+	d := strings.SplitN(msgid, EotSeparator, 2)
 	if len(d) == 1 {
 		msgid = d[0]
 	} else {
@@ -305,31 +313,22 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 		hasCtx = true
 	}
 
-	dd := bytes.Split(msgid, []byte(NulSeparator))
+	dd := strings.SplitN(msgid, NulSeparator, 2)
+	translation.ID = dd[0]
 	if len(dd) > 1 {
-		msgid = dd[0]
-		msgidPlural = bytes.Join(dd[1:], []byte(NulSeparator))
+		translation.PluralID = dd[1]
 	}
 
-	translation.ID = string(msgid)
-
-	if len(msgidPlural) > 0 {
-		translation.PluralID = string(msgidPlural)
-	}
-
-	ddd := bytes.Split(msgstr, []byte(NulSeparator))
-	if len(ddd) > 0 {
-		for i, s := range ddd {
-			translation.Trs[i] = string(s)
-		}
+	for i, s := range strings.Split(msgstr, NulSeparator) {
+		translation.Trs[i] = s
 	}
 
 	if hasCtx {
 		// With context...
-		if _, ok := mo.domain.contextTranslations[string(msgctxt)]; !ok {
-			mo.domain.contextTranslations[string(msgctxt)] = make(map[string]*Translation)
+		if _, ok := mo.domain.contextTranslations[msgctxt]; !ok {
+			mo.domain.contextTranslations[msgctxt] = make(map[string]*Translation)
 		}
-		mo.domain.contextTranslations[string(msgctxt)][translation.ID] = translation
+		mo.domain.contextTranslations[msgctxt][translation.ID] = translation
 	} else {
 		mo.domain.translations[translation.ID] = translation
 	}
-- 
2.43.0


From fc985ef7f530a3df72a7d60dc22dd8ed708ace2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:47 +0000
Subject: [PATCH 55/60] fix: strings between unterminated ones take time and
 memory that grow with their square

The lines Parse ignores need not end the string before them.
---
 po.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/po.go b/po.go
index 294e7d2..e2e7d4b 100644
--- a/po.go
+++ b/po.go
@@ -249,9 +249,11 @@ func (po *Po) Parse(buf []byte) {
 			continue
 		}
 
-		// Multi line strings and headers
-		if strings.HasPrefix(l, "\"") && strings.HasSuffix(l, "\"") {
-			po.parseString(l)
+		// Multi line strings and headers, ignoring unterminated ones
+		if strings.HasPrefix(l, "\"") {
+			if strings.HasSuffix(l, "\"") {
+				po.parseString(l)
+			}
 			continue
 		}
 
-- 
2.43.0


From 815cc8708c9a185e987587b5bcd627105848a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:51 +0000
Subject: [PATCH 56/60] fix: xgotext finds nothing when the input directory is
 a symbolic link

Nor does -in . in a working directory entered through one.
---
 cli/xgotext/parser/dir/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/dir/parser.go b/cli/xgotext/parser/dir/parser.go
index 4fd1d2a..5ad1794 100644
--- a/cli/xgotext/parser/dir/parser.go
+++ b/cli/xgotext/parser/dir/parser.go
@@ -41,6 +41,11 @@ func ParseDir(dirPath, basePath string, data *parser.DomainMap) error {
 func ParseDirRec(dirPath string, exclude []string, data *parser.DomainMap, verbose bool) error {
 	dirPath, _ = filepath.Abs(dirPath)
 
+	// Walk doesn't follow symbolic links, but the input directory may be one
+	if resolved, err := filepath.EvalSymlinks(dirPath); err == nil {
+		dirPath = resolved
+	}
+
 	err := filepath.Walk(dirPath, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
-- 
2.43.0


From 5346e7fd3554f8b9c93e8b20c9d62307286dcef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:32 +0000
Subject: [PATCH 57/60] fix: references set and returned share their storage
 with the catalogue

Whoever changed the slice given to SetRefs, or the one GetRefs returned,
changed the references of the entry, without its lock.
---
 domain.go      | 2 +-
 translation.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 9cac1aa..ce4ac54 100644
--- a/domain.go
+++ b/domain.go
@@ -263,7 +263,7 @@ func (do *Domain) GetRefs(str string) []string {
 
 	if do.translations != nil {
 		if trans, ok := do.translations[str]; ok {
-			return trans.Refs
+			return append([]string(nil), trans.Refs...)
 		}
 	}
 	return nil
diff --git a/translation.go b/translation.go
index d439305..051e319 100644
--- a/translation.go
+++ b/translation.go
@@ -37,7 +37,7 @@ func (t *Translation) IsStale() bool {
 
 // SetRefs sets the references of the translation
 func (t *Translation) SetRefs(refs []string) {
-	t.Refs = refs
+	t.Refs = append([]string(nil), refs...)
 	t.dirty = true
 }
 
-- 
2.43.0


From 9d8d91b2dbfb6613f95189d6bedd1d3717d5ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:49 +0000
Subject: [PATCH 58/60] fix: the package's languages and locales share their
 storage with callers

Whoever changed the slice GetLanguages or GetLocales returns, or the one
given to SetLocales, changed the configuration, without its lock.
---
 gotext.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index 08b7224..9058176 100644
--- a/gotext.go
+++ b/gotext.go
@@ -139,7 +139,7 @@ func GetLanguage() string {
 func GetLanguages() []string {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
-	return globalConfig.languages
+	return append([]string(nil), globalConfig.languages...)
 }
 
 // SetLanguage sets the language code (or colon separated language codes) to be used at package level.
@@ -179,7 +179,7 @@ func SetLibrary(lib string) {
 func GetLocales() []*Locale {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
-	return globalConfig.locales
+	return append([]*Locale(nil), globalConfig.locales...)
 }
 
 // GetStorage is the locale storage getter for the package configuration.
@@ -200,7 +200,7 @@ func SetLocales(locales []*Locale) {
 	globalConfig.Lock()
 	defer globalConfig.Unlock()
 
-	globalConfig.locales = locales
+	globalConfig.locales = append([]*Locale(nil), locales...)
 	globalConfig.library = locales[0].path
 	globalConfig.domain = locales[0].GetDomain()
 
-- 
2.43.0


From 8cf785f05ade0588801c8fda99df1fa5f0616a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:38 +0000
Subject: [PATCH 59/60] fix: a lookup hangs when formatting one of its
 arguments looks up a string

Package lookups held the configuration's lock, and Locale's lookups the
locale's, while they formatted; looking up another string from there waits
for the lock to be released: always in the package, and in a locale if a
domain is about to be loaded.
---
 gotext.go | 111 ++++++++++++++++++++----------------------------------
 locale.go |  52 ++++++-------------------
 2 files changed, 52 insertions(+), 111 deletions(-)

diff --git a/gotext.go b/gotext.go
index 9058176..4a1c4e7 100644
--- a/gotext.go
+++ b/gotext.go
@@ -248,56 +248,52 @@ func GetN(str, plural string, n int, vars ...interface{}) string {
 	return GetND(GetDomain(), str, plural, n, vars...)
 }
 
-// GetD returns the corresponding Translation in the given domain for a given string.
-// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
-func GetD(dom, str string, vars ...interface{}) string {
+// findTranslator returns the translations to answer a lookup from, in the given domain: those of the first language
+// that translates it, or else those of the last one, if there are any.
+// Callers format with them when the configuration isn't locked any more, as arguments may look up strings themselves.
+func findTranslator(dom string, translates func(do *Domain) bool) Translator {
 	// Try to load default package Locales
 	loadLocales(false)
 
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
-	var tr string
+	var tr Translator
 	for i, locale := range globalConfig.locales {
 		locale.ensureDomain(dom)
-		if i < (len(globalConfig.locales) - 1) {
-			// Decide and answer with the same translations, even if the domain is reloaded meanwhile
-			domain := locale.translator(dom)
-			if domain == nil || !domain.GetDomain().IsTranslated(str) {
-				continue
-			}
-			tr = domain.Get(str, vars...)
+		// Decide and answer with the same translations, even if the domain is reloaded meanwhile
+		tr = locale.translator(dom)
+		if i < (len(globalConfig.locales)-1) && tr != nil && translates(tr.GetDomain()) {
 			break
 		}
-		tr = locale.GetD(dom, str, vars...)
 	}
 	return tr
 }
 
+// GetD returns the corresponding Translation in the given domain for a given string.
+// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
+func GetD(dom, str string, vars ...interface{}) string {
+	tr := findTranslator(dom, func(do *Domain) bool { return do.IsTranslated(str) })
+	if tr != nil {
+		return tr.Get(str, vars...)
+	}
+
+	return FormatString(str, vars...)
+}
+
 // GetND retrieves the (N)th plural form of Translation in the given domain for a given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func GetND(dom, str, plural string, n int, vars ...interface{}) string {
-	// Try to load default package Locales
-	loadLocales(false)
-
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	tr := findTranslator(dom, func(do *Domain) bool { return do.IsTranslatedN(str, n) })
+	if tr != nil {
+		return tr.GetN(str, plural, n, vars...)
+	}
 
-	var tr string
-	for i, locale := range globalConfig.locales {
-		locale.ensureDomain(dom)
-		if i < (len(globalConfig.locales) - 1) {
-			// Decide and answer with the same translations, even if the domain is reloaded meanwhile
-			domain := locale.translator(dom)
-			if domain == nil || !domain.GetDomain().IsTranslatedN(str, n) {
-				continue
-			}
-			tr = domain.GetN(str, plural, n, vars...)
-			break
-		}
-		tr = locale.GetND(dom, str, plural, n, vars...)
+	// Use western default rule (plural > 1) to handle missing domain default result.
+	if n == 1 {
+		return FormatString(str, vars...)
 	}
-	return tr
+	return FormatString(plural, vars...)
 }
 
 // GetC uses the default domain globally set to return the corresponding Translation of the given string in the given context.
@@ -315,54 +311,27 @@ func GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
 // GetDC returns the corresponding Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func GetDC(dom, str, ctx string, vars ...interface{}) string {
-	// Try to load default package Locales
-	loadLocales(false)
-
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
-	var tr string
-	for i, locale := range globalConfig.locales {
-		locale.ensureDomain(dom)
-		if i < (len(globalConfig.locales) - 1) {
-			// Decide and answer with the same translations, even if the domain is reloaded meanwhile
-			domain := locale.translator(dom)
-			if domain == nil || !domain.GetDomain().IsTranslatedC(str, ctx) {
-				continue
-			}
-			tr = domain.GetC(str, ctx, vars...)
-			break
-		}
-		tr = locale.GetDC(dom, str, ctx, vars...)
+	tr := findTranslator(dom, func(do *Domain) bool { return do.IsTranslatedC(str, ctx) })
+	if tr != nil {
+		return tr.GetC(str, ctx, vars...)
 	}
-	return tr
+
+	return FormatString(str, vars...)
 }
 
 // GetNDC retrieves the (N)th plural form of Translation in the given domain for a given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string {
-	// Try to load default package Locales
-	loadLocales(false)
-
-	// Return Translation
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	tr := findTranslator(dom, func(do *Domain) bool { return do.IsTranslatedNC(str, n, ctx) })
+	if tr != nil {
+		return tr.GetNC(str, plural, n, ctx, vars...)
+	}
 
-	var tr string
-	for i, locale := range globalConfig.locales {
-		locale.ensureDomain(dom)
-		if i < (len(globalConfig.locales) - 1) {
-			// Decide and answer with the same translations, even if the domain is reloaded meanwhile
-			domain := locale.translator(dom)
-			if domain == nil || !domain.GetDomain().IsTranslatedNC(str, n, ctx) {
-				continue
-			}
-			tr = domain.GetNC(str, plural, n, ctx, vars...)
-			break
-		}
-		tr = locale.GetNDC(dom, str, plural, n, ctx, vars...)
+	// Use western default rule (plural > 1) to handle missing domain default result.
+	if n == 1 {
+		return FormatString(str, vars...)
 	}
-	return tr
+	return FormatString(plural, vars...)
 }
 
 // IsTranslated reports whether a string is translated in given languages.
diff --git a/locale.go b/locale.go
index 822eab7..a58b4ce 100644
--- a/locale.go
+++ b/locale.go
@@ -293,16 +293,9 @@ func (l *Locale) GetN(str, plural string, n int, vars ...interface{}) string {
 // GetD returns the corresponding Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].Get(str, vars...)
-			}
-		}
+	// Arguments may look up strings themselves, so nothing is locked while they are formatted
+	if tr := l.translator(dom); tr != nil {
+		return tr.Get(str, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -311,16 +304,9 @@ func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
 // GetND retrieves the (N)th plural form of Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetND(dom, str, plural string, n int, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetN(str, plural, n, vars...)
-			}
-		}
+	// Arguments may look up strings themselves, so nothing is locked while they are formatted
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetN(str, plural, n, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
@@ -345,16 +331,9 @@ func (l *Locale) GetNC(str, plural string, n int, ctx string, vars ...interface{
 // GetDC returns the corresponding Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetC(str, ctx, vars...)
-			}
-		}
+	// Arguments may look up strings themselves, so nothing is locked while they are formatted
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetC(str, ctx, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -363,16 +342,9 @@ func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
 // GetNDC retrieves the (N)th plural form of Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetNC(str, plural, n, ctx, vars...)
-			}
-		}
+	// Arguments may look up strings themselves, so nothing is locked while they are formatted
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetNC(str, plural, n, ctx, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
-- 
2.43.0


From 3ac97d50030b54caf3e0225a864f3220c24988bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:09 +0000
Subject: [PATCH 60/60] fix: lookups that arguments make while a catalogue is
 written hang

A lookup formatted its arguments while holding the catalogue's read lock. An
argument whose String method looks up a string in the same catalogue then waits
behind a writer that is waiting for the first lookup: none of them returns.
---
 domain.go | 104 ++++++++++++++++++------------------------------------
 1 file changed, 35 insertions(+), 69 deletions(-)

diff --git a/domain.go b/domain.go
index ce4ac54..725c757 100644
--- a/domain.go
+++ b/domain.go
@@ -288,35 +288,30 @@ func (do *Domain) Set(id, str string) {
 
 // Get retrieves the Translation for the given string.
 func (do *Domain) Get(str string, vars ...interface{}) string {
+	return FormatString(do.text(str), vars...)
+}
+
+// text returns what Get shows for a string, before arguments are put in. They may look up strings themselves,
+// so nothing is locked while they are formatted.
+func (do *Domain) text(str string) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].Get(), vars...)
+			return do.translations[str].Get()
 		}
 	}
 
 	// Return the same we received by default
-	return FormatString(str, vars...)
+	return str
 }
 
 // Append retrieves the Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) Append(b []byte, str string, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].Get(), vars...)
-		}
-	}
-
-	// Return the same we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.text(str), vars...)
 }
 
 // SetN sets the (N)th plural form for the given string
@@ -347,41 +342,32 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 // GetN retrieves the (N)th plural form of Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
+	return FormatString(do.textN(str, plural, n), vars...)
+}
+
+// textN works like text for GetN
+func (do *Domain) textN(str, plural string, n int) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].getN(do.pluralForm(n), plural), vars...)
+			return do.translations[str].getN(do.pluralForm(n), plural)
 		}
 	}
 
 	// Parse plural forms to distinguish between plural and singular
 	if do.pluralForm(n) == 0 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
 }
 
 // AppendN adds the (N)th plural form of Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].getN(do.pluralForm(n), plural), vars...)
-		}
-	}
-
-	// Parse plural forms to distinguish between plural and singular
-	if do.pluralForm(n) == 0 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.textN(str, plural, n), vars...)
 }
 
 // SetC sets the translation for the given string in the given context
@@ -413,6 +399,11 @@ func (do *Domain) SetC(id, ctx, str string) {
 // GetC retrieves the corresponding Translation for a given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
+	return FormatString(do.textC(str, ctx), vars...)
+}
+
+// textC works like text for GetC
+func (do *Domain) textC(str, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -420,34 +411,20 @@ func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].Get(), vars...)
+					return do.contextTranslations[ctx][str].Get()
 				}
 			}
 		}
 	}
 
 	// Return the string we received by default
-	return FormatString(str, vars...)
+	return str
 }
 
 // AppendC retrieves the corresponding Translation for a given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].Get(), vars...)
-				}
-			}
-		}
-	}
-
-	// Return the string we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.textC(str, ctx), vars...)
 }
 
 // SetNC sets the (N)th plural form for the given string in the given context
@@ -488,6 +465,11 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 // GetNC retrieves the (N)th plural form of Translation for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
+	return FormatString(do.textNC(str, plural, n, ctx), vars...)
+}
+
+// textNC works like text for GetNC
+func (do *Domain) textNC(str, plural string, n int, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -495,38 +477,22 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
+					return do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural)
 				}
 			}
 		}
 	}
 
 	if n == 1 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
 }
 
 // AppendNC retrieves the (N)th plural form of Translation for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
-				}
-			}
-		}
-	}
-
-	if n == 1 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.textNC(str, plural, n, ctx), vars...)
 }
 
 // IsTranslated reports whether a string is translated
-- 
2.43.0

