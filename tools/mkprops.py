#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Singular lookups return the last translation set for that (context, id)",
 "For every history of Set/SetC/SetN/SetNC calls and PO/MO parses on a catalogue (Domain, Po or Mo), Get(id) returns the non-empty singular translation most recently stored for id without context and GetC(id, ctx) the one most recently stored for that exact (ctx, id) pair, and when there is none (or it is empty) they return id itself. A write under one key never changes what any other key returns: the same id in different contexts, with and without context, and ids or contexts that differ only in case, blanks, length or encoding are all independent. Po, Mo, their Domain and the Append variants all answer alike.",
 ["inputs","histories"],"every sequence of writes and parses, every id/context/translation string (valid UTF-8, contexts non-empty), every catalogue type",
 "The tests look a handful of literal strings up in one fixture each; they cannot range over histories that overwrite, alias contexts, or mix parsing with setters.",
 ["domain.go","po.go","mo.go","translation.go"],[("per-context maps keyed by id","domain.go: Set/SetC/Get/GetC"),("fallback to the id","translation.go: Get")],
 [("translations","context-free entries","domain.go"),("contextTranslations","entries per context","domain.go")],["Domain.Get","Domain.GetC","Po.Get","Mo.Get"])

p("C02","Plural lookups pick the form the rule selects, with the documented fallbacks",
 "For every catalogue history, GetN(id, plural, n) and GetNC(id, plural, n, ctx) return the non-empty form stored under the index the catalogue's plural rule assigns to n; when that form is missing or empty they return id if the index is 0, and otherwise the entry's own plural id, or the caller's plural if the entry has none. When there is no entry at all, GetN returns id for index 0 and plural otherwise, and GetNC returns id for n = 1 and plural otherwise. The rule is the compiled Plural-Forms header if there is one, else the custom resolver if one is set, else the Germanic rule (n = 1 selects 0, any other n selects 1), and SetN/SetNC store under the index this rule assigns to their n.",
 ["inputs","histories"],"every history of SetN/SetNC/Set/SetC/SetPluralResolver/parse calls and every n in 0..2^32-1 (also above 2^31)",
 "Tests probe a few n with two or three rules; wrong forms for other n, missing or empty forms, entries without plural ids, or contexts stay invisible.",
 ["domain.go","translation.go"],[("index selection","domain.go: pluralForm"),("form fallback","translation.go: GetN")],
 [("pluralforms","compiled rule","domain.go"),("customPluralResolver","user rule","domain.go")],["Domain.GetN","Domain.GetNC","Domain.SetN","Domain.SetNC"])

p("C03","IsTranslated answers true exactly when the matching Get finds a translation",
 "On Domain, Po, Mo and Locale, IsTranslated(id)/IsTranslatedC(id, ctx) is true exactly when a non-empty form 0 is stored for that key, and IsTranslatedN(id, n)/IsTranslatedNC(id, n, ctx) exactly when a non-empty form is stored under the index the plural rule assigns to n. So whenever it is true the matching Get variant returns that stored form, and whenever it is false the Get variant returns a fallback. The Locale D variants ask the named domain only, the others the default domain, and a domain that is not loaded translates nothing.",
 ["inputs","histories"],"every catalogue history, key, plural rule and n",
 "Tests call IsTranslated on a few fixture strings under Germanic-like rules, where form 0 and the form of n = 1 coincide.",
 ["domain.go","locale.go","po.go","mo.go","translation.go","introspector.go"],[("emptiness test of the selected form","domain.go: IsTranslated*"),("delegation","locale.go: IsTranslated*")],
 [],["Domain.IsTranslated*","Locale.IsTranslated*"])

p("C04","Plural-Forms rules evaluate like C, malformed ones fall back",
 "Every Plural-Forms rule of up to 16384 bytes built from non-negative integer constants, comparisons (== != < <= > >=) between n or n%k and an integer on either side, &&, ||, parentheses around conditions and values, and ?: nested to any depth in either branch compiles and yields for every n in 0..2^32-1 the value C gives it (a bare condition yields 1 or 0), whatever blanks are between its tokens. A rule with a syntax error (missing operand, branch or parenthesis, unknown character, modulus of zero, comparison with an integer beyond 2^32-1), and one longer than that limit, is rejected with an error and no expression. A catalogue with a rejected rule behaves as if it had no Plural-Forms header.",
 ["inputs","programs"],"every expression of that grammar, every n in 0..2^32-1; a bare n or n%k used as a truth value is outside the grammar",
 "Tests evaluate about 30 real-world rules for n < 1000; precedence, parentheses, nesting on either side, flipped operands and 32-bit boundaries are open.",
 ["plurals/compiler.go","plurals/expression.go","plurals/math.go","plurals/tests.go","domain.go"],[("recursive descent over tokens","plurals/compiler.go"),("evaluation","plurals/tests.go, plurals/expression.go")],
 [],["plurals.Compile","Expression.Eval","Po.Parse + GetN"])

p("C05","Parsing a well-formed PO file loads exactly what it says",
 "For every well-formed PO file, parsing it yields exactly one entry per (msgctxt, msgid) with the unescaped msgid, msgid_plural, every indexed msgstr form and the entry's own #: references, where a repeated entry replaces the earlier one. The layout never matters: strings split over any number of continuation lines, in any field, indentation, CRLF or LF line ends, blank lines or none, comments and obsolete (#~) lines anywhere between entries, forms in any index order, and a missing final newline all give the same catalogue. Escapes \\n \\t \\r \\\" \\\\ decode to the characters they stand for and all other text is preserved byte for byte.",
 ["inputs"],"every well-formed PO document (valid UTF-8, non-empty contexts, first entry is the header when there are references before it)",
 "Tests parse a few fixture files with one layout each.",
 ["po.go","domain.go"],[("line-driven state machine with buffers","po.go: Parse, parseString, saveBuffer")],
 [("trBuffer/ctxBuffer/refBuffer","entry being read","domain.go")],["Po.Parse","Po.ParseFile","Domain.GetTranslations","Domain.GetCtxTranslations"])

p("C06","MO and PO files with the same messages give the same catalogue",
 "For every set of messages, every valid GNU MO image of it (little or big endian, revisions 0.0/0.1/1.0/1.1, tables and strings anywhere in the file in any order, with or without a hash table, shared or empty strings, string data up to the last byte) loads exactly those messages with their contexts, plural ids and all forms. The resulting catalogue answers every Get/GetN/GetC/GetNC/IsTranslated* call, and reports every header, exactly as the one parsed from the PO file of the same messages.",
 ["inputs"],"every message set and every valid binary layout",
 "Tests read two .mo fixtures produced by one tool with one layout and byte order.",
 ["mo.go","domain.go"],[("table-driven reader","mo.go: Parse"),("EOT/NUL splitting","mo.go: addTranslation")],
 [],["Mo.Parse","Mo.ParseFile"])

p("C07","Malformed input never crashes, hangs or corrupts the other entries",
 "Parsing arbitrary bytes as PO, MO, binary encoding or plural rule returns (never panics, loops, or allocates out of proportion to the input), and every later call on the object still works. Damage stays local: in a PO file, lines that are no PO syntax, unterminated strings and badly indexed msgstr lines leave all the well-formed entries before and after them intact; a truncated or corrupt MO file never yields a string that is not entirely inside the file, and rejecting it (bad magic, version, counts) leaves the catalogue as it was. A failed UnmarshalBinary returns an error and leaves Domain, Po, Mo and Locale objects unchanged; ParseFile of a missing or unreadable file changes nothing.",
 ["inputs","fault_sequences"],"every byte string, every truncation point and single-field corruption of valid files",
 "A few malformed literals are tested; truncation points, length fields and damaged lines are combinatorial.",
 ["po.go","mo.go","domain.go","translator.go","locale.go","plurals/compiler.go"],[("bounds checks","mo.go: Parse"),("skipping invalid lines","po.go: isValidLine, parseMessage"),("decode before assignment","domain.go: UnmarshalBinary")],
 [],["Po.Parse","Mo.Parse","UnmarshalBinary","ParseFile","plurals.Compile"])

p("C08","PO text written by MarshalText parses back to the same catalogue",
 "For every catalogue reached by any history of parses and setters, parsing the text MarshalText writes gives the same entries (ids, contexts, plural ids, every stored form, references without blanks in them) and the same headers, including quotes, backslashes, tabs, newlines and any other characters in any field, and header comments are kept. Marshalling the same catalogue always gives the same bytes, and parsing and marshalling again reproduces them. Headers come in xgettext's standard order and entries are ordered by first reference (path, then line number), then context, then id, with forms in ascending index order.",
 ["inputs","histories"],"every catalogue (non-empty ids and contexts, single-line headers, references without blanks)",
 "Tests compare a few hand-written files that avoid special characters in plural forms and contexts.",
 ["domain.go","po.go"],[("escaping","domain.go: EscapeSpecialCharacters"),("ordering","domain.go: MarshalText")],
 [("headerComments","comment block before the header","domain.go")],["Domain.MarshalText","Po.MarshalText"])

p("C09","Binary encoding round-trips catalogues and locales, plural rule included",
 "Decoding the MarshalBinary encoding of any Domain, Po, Mo or Locale into a fresh or used object (also Po into Mo and vice versa, and through TranslatorEncoding.GetTranslator) gives an object that answers every lookup, plural lookup, IsTranslated*, reference and header query exactly as the original, whose translations can be set and marshalled further. For a Locale this covers every loaded domain, the default domain, the language and the path. Nothing of what the receiving object held before is left over.",
 ["inputs","histories"],"every catalogue and locale state, every pair of encoder and decoder types",
 "Tests round-trip one object each and compare a couple of strings with a Germanic rule.",
 ["domain.go","translator.go","locale.go","po.go","mo.go"],[("gob through TranslatorEncoding/LocaleEncoding","domain.go, locale.go"),("rule recompilation","domain.go: UnmarshalBinary; translator.go: GetTranslator")],
 [],["MarshalBinary","UnmarshalBinary","GetTranslator"])

p("C10","Verbatim without arguments, fmt with them, and Append = prefix + Get",
 "Every lookup without arguments returns the selected string byte for byte, percent signs included; with arguments it returns what fmt.Sprintf makes of the selected translation (or fallback) and the same arguments, in the same order, including fmt's notes on missing and extra ones. Every Append variant returns its input slice's bytes followed by exactly what the matching Get returns, without changing the bytes before. Named formatting (Sprintf) replaces each %(name)verb by the named value (nil if there is none) formatted with that verb, in order of appearance, repeats included, and leaves %% as one percent sign.",
 ["inputs"],"every translation text, argument list and prefix, for each lookup of Domain, Po, Mo, Locale and the package",
 "Tests format a few strings with one %s; percent signs in translations, fallbacks with arguments, repeated names are not covered.",
 ["helper.go","domain.go","locale.go","gotext.go"],[("FormatString / Appendf","helper.go"),("reformatSprintf","helper.go")],[],["Get*","Append*","Sprintf"])

p("C11","A locale loads each domain from the first file of the documented search order",
 "For every set of files present, AddDomain(dom) on a locale for language ll_CC loads the first existing file of: <path>/ll_CC/LC_MESSAGES/dom.po, <path>/ll/LC_MESSAGES/dom.po, <path>/ll_CC/dom.po, <path>/ll/dom.po, then the same four with .mo; for a language without country part only the two ll places of each kind exist. GetActualLanguage(dom) reports the language directory in which a file of that domain is found (.mo places first, then .po), or an empty string when there is none. Both behave identically for locales on the operating system's files and on any fs.FS, with or without a path prefix, and no other domain's or language's file is ever used.",
 ["configurations","inputs"],"every subset of candidate files, language code (2 or 3 letters, with or without country, charset or modifier suffix), domain name and file system kind",
 "Tests exercise a few of the 2^8 file configurations.",
 ["locale.go","translator.go","helper.go"],[("probing in order","locale.go: findExt"),("same for language","locale.go: GetActualLanguage")],[],["Locale.AddDomain","Locale.GetActualLanguage"])

p("C12","A locale's domains are isolated, reloadable and defaulted as documented",
 "In a locale, lookups in a domain (D variants) depend only on what was last loaded or attached under exactly that name, the other lookups use the default domain, which is the first domain successfully added or attached until SetDomain changes it. Adding a domain again replaces its contents with those of the file as it is now, adding one without any file changes nothing, AddTranslator attaches or replaces a domain in place, and a domain that is not loaded returns the singular for n = 1 (or without n) and the plural otherwise, formatted. GetTranslations returns the context-free entries of all domains.",
 ["histories","inputs"],"every history of AddDomain, AddTranslator, SetDomain, file changes and lookups",
 "Tests use one or two domains loaded once.",
 ["locale.go"],[("Domains map and defaultDomain","locale.go: AddDomain, AddTranslator, SetDomain")],
 [("Domains","loaded catalogues","locale.go"),("defaultDomain","domain of the unqualified lookups","locale.go")],["Locale.Get*","Locale.GetDomain"])

p("C13","Package lookups always reflect the current package configuration",
 "After any history of Configure, SetLibrary, SetLanguage, SetDomain, SetLocales/SetStorage and lookups (lookups before any configuration included), GetLibrary, GetLanguage(s), GetDomain, GetLocales and GetStorage report the last values set, and every package lookup answers as locales freshly built from that configuration would: no result of an earlier library, language or domain survives a change, and each setter reloads the files as they are at that moment. A domain named in a D lookup is loaded the first time it is needed, whichever lookup (with or without context or plural) comes first, and stays separate from the default domain. SetLocales makes the given locales, the first one's library and domain, and all their languages current.",
 ["histories","configurations"],"every interleaving of setters, file changes and lookups, from process start",
 "The package state is process-global; tests configure once or twice and look up a few strings, always after configuring.",
 ["gotext.go","locale.go"],[("rebuild on every setter","gotext.go: loadLocales"),("lazy loading of other domains","gotext.go: GetD, GetND, GetDC, GetNDC")],
 [("globalConfig","library, domain, languages, locales","gotext.go")],["Get*","GetLanguage(s)","GetDomain","GetLibrary","GetLocales"])

p("C14","With several languages the first one that translates wins, else the last answers",
 "With the languages l1:...:lk configured (or k locales set), every package lookup returns the result of the first language, in order, whose catalogue holds a translation for exactly that lookup (domain, context, id and, for plural lookups, the form selected for n by that language's own rule); if none does, it returns what the last language returns for it, i.e. the id or plural fallback. The decision is made for each lookup on its own, so different strings, domains, contexts and n may be answered by different languages.",
 ["inputs","configurations"],"every list of languages and catalogues with any mixture of missing, partial and empty translations",
 "Tests use two languages and a few strings.",
 ["gotext.go","locale.go"],[("loop over the locales with IsTranslated*","gotext.go: GetD, GetND, GetDC, GetNDC")],[],["Get*","GetN*","GetC*","GetNC*"])

p("C15","A catalogue is linearizable, race-free and deadlock-free under concurrency",
 "When any number of goroutines use one Domain, Po or Mo at the same time (lookups, setters, parses, marshalling, snapshots, resolver changes, dropping stale entries), every call returns what some sequential order of the calls, consistent with real time, would return; a parse becomes visible as a whole. There are no data races and every call returns, also when an argument's String method or a plural resolver is slow or panics while another goroutine is writing.",
 ["schedules","histories"],"every interleaving of concurrent calls on one catalogue",
 "The existing concurrency tests start a few goroutines and check nothing but the absence of races in one schedule.",
 ["domain.go","po.go","mo.go"],[("trMutex and pluralMutex","domain.go")],[("trMutex","guards the entries","domain.go"),("pluralMutex","guards the rule","domain.go")],["all methods of Domain, Po, Mo"])

p("C16","Locale reloads and package reconfigurations are atomic for concurrent lookups",
 "While domains of a locale are being added, reloaded or attached, or the package library, languages or locales are being changed, concurrent lookups for a named domain return what they would under the configuration and files before or after each change, never an untranslated, mixed or partially loaded result when both would translate. There are no data races and no call blocks for ever; a locale keeps serving its old catalogue while a new one is being read.",
 ["schedules","histories"],"every interleaving of lookups with reloads and reconfigurations",
 "Interleavings with a file being read half-way cannot be produced by the unit tests.",
 ["gotext.go","locale.go"],[("globalConfig lock","gotext.go: loadLocales"),("parse before publishing","locale.go: AddDomain"),("Locale lock","locale.go")],
 [("globalConfig.locales","current locales","gotext.go")],["Locale.GetD*","package GetD*"])

p("C17","Snapshots of a catalogue are complete, independent copies",
 "GetTranslations (Domain, Locale) and GetCtxTranslations return every entry of the catalogue at that moment with its id, plural id, all forms, references and staleness. Nothing done to the catalogue afterwards (setting, parsing, dropping, setting references) changes a snapshot taken before, and nothing done to a snapshot (editing maps, forms, references, translations) changes the catalogue or another snapshot.",
 ["histories","inputs"],"every catalogue state and every later history on either side",
 "Tests check that a couple of strings appear in the result.",
 ["domain.go","locale.go"],[("deep copy","domain.go: GetTranslations, GetCtxTranslations")],[],["GetTranslations","GetCtxTranslations"])

p("C18","Dropping stale translations removes exactly the entries untouched since loading",
 "After any history, DropStaleTranslations removes exactly the entries, with and without context, that no Set, SetN, SetC, SetNC or SetRefs call has touched since they were parsed or decoded (parsing an entry again makes it stale again), and keeps all others unchanged with their references; contexts left empty disappear. SetRefs replaces the references GetRefs reports for an id, creating the entry if necessary, without changing its translations, and never touches entries with a context.",
 ["histories"],"every history of parses, setters, SetRefs and drops",
 "One test drops stale entries of one file after one Set.",
 ["domain.go","translation.go","po.go"],[("dirty flag","translation.go: Set, SetN, SetRefs, IsStale"),("removal","domain.go: DropStaleTranslations")],
 [("dirty","touched since loading","translation.go")],["DropStaleTranslations","SetRefs","GetRefs"])

p("C19","xgotext extracts exactly the translatable calls with their file:line",
 "For every compilable Go package, xgotext extracts exactly the calls of Get, GetN, GetD, GetND, GetC, GetNC, GetDC and GetNDC on the gotext package (under any import name) or on values of gotext's types (variables, pointers, struct fields, call results, parameters, the Translator interface, aliases) whose id, plural, context and domain arguments, as far as the call has them, are string literals in either Go syntax and whose id is not empty. Each goes to the domain it names, or the configured default domain, with the decoded id, plural and context, and a reference to its file (relative to the input directory or working directory) and line. Calls of other packages' and types' methods of the same name, functions of the same name in the package itself, and calls with non-literal arguments are never extracted and never stop the extraction of the others.",
 ["programs"],"every Go program over these call forms, wherever the call appears (nested in expressions, closures, methods, composite literals, other calls' arguments)",
 "The tests run on one fixture program.",
 ["cli/xgotext/parser/gofile.go","cli/xgotext/parser/dir/golang.go","cli/xgotext/parser/pkg-tree/golang.go","cli/xgotext/main.go"],[("AST walk with type resolution","gofile.go: InspectCallExpr, CheckType"),("argument table","gofile.go: gotextGetter, ParseGetter")],[],["xgotext -in / -pkg-tree output"])

p("C20","xgotext's POT files parse back, with every message once and all its references",
 "For every multiset of extracted messages, xgotext writes one <domain>.pot per domain that gotext's own PO parser reads back to exactly those messages: each (context, id) once, with its plural if any occurrence has one (the first in byte order if they differ), the decoded text of any literal (quotes, backslashes, newlines, tabs, percent, any UTF-8) and the references of all its occurrences, and a header with Plural-Forms and UTF-8 charset. The same input always gives the same bytes, whatever the order in which messages are met; entries are sorted by id, those without context first, then by context.",
 ["inputs","programs"],"every multiset of messages (domain, context, id, plural, location), in every order",
 "Tests dump a few literal messages in one order.",
 ["cli/xgotext/parser/domain.go","cli/xgotext/parser/gofile.go"],[("escaping and sorting","parser/domain.go: Dump, fixSpecialChars, formatMultiline"),("merging","parser/domain.go: AddTranslation")],[],["DomainMap.Save","Domain.Dump"])

p("C21","xgotext visits every directory not excluded, and only those",
 "With -in, xgotext scans the input directory and every directory below it except the excluded ones and everything below them: a directory is excluded when its path relative to the input directory equals an entry of the exclude list, never because its name merely begins like one, and an empty list excludes nothing. With -pkg-tree it scans exactly the packages that the given package imports directly or indirectly (itself included) and that import gotext. Each file's calls are reported once per run, however often its package is reachable.",
 ["configurations","programs"],"every directory tree, exclude list and import graph",
 "Tests use one tree with one excluded directory.",
 ["cli/xgotext/parser/dir/parser.go","cli/xgotext/parser/pkg-tree/golang.go","cli/xgotext/main.go"],[("walk with exclusion","dir/parser.go: ParseDirRec"),("import graph traversal","pkg-tree/golang.go: filterPkgs")],[],["xgotext -in -exclude","xgotext -pkg-tree"])

p("C22","Headers are read, kept and replaced faithfully",
 "After parsing, the header map holds every 'Key: value' line of the header entry with its exact key spelling and its value without surrounding blanks, repeated keys in order, and lines without a colon ignored; Language and PluralForms (on Po, Mo and Domain) hold the values of those headers whatever the letter case of their keys. Parsing another file into the same object replaces the values of the keys it defines, the language and the plural rule, and keeps the other keys. HeaderMap's Get, Values, Set, Add and Del follow the map's contents case-sensitively.",
 ["inputs","histories"],"every header block and every sequence of parses",
 "Tests parse one or two header blocks once.",
 ["domain.go","po.go","mo.go"],[("header scan","domain.go: parseHeaders"),("HeaderMap","domain.go")],[("Headers","header values by key","domain.go")],["Headers","Language","PluralForms"])

p("C23","Language codes are simplified and lists are split as documented",
 "SimplifiedLocale keeps exactly the part of a language code before the first ':', '@' or '.', without surrounding blanks, and is idempotent. SetLanguage and Configure accept a colon-separated list, keep its order and number and simplify each member, GetLanguages returns that list and GetLanguage its first member; locales, their directories and IsTranslated's languages use the simplified code.",
 ["inputs"],"every language string",
 "Tests list nine literal codes.",
 ["helper.go","gotext.go","locale.go"],[("cutting at separators","helper.go: SimplifiedLocale"),("splitting","gotext.go: SetLanguage, Configure")],[],["SimplifiedLocale","GetLanguages","Locale.GetLanguage"])

p("C24","Package IsTranslated is true exactly when one of the given languages translates",
 "The package's IsTranslated variants return true exactly when at least one configured locale, among those of the given languages (simplified first; a language stands for the locales configured under it and for those whose files are found in its directory), or all configured languages when none are given, translates exactly that lookup (domain, context, id and, for plural variants, the form for n) under its own rule. The order of the languages, repeated or unknown ones, and locales without that domain make no difference. When no languages are given, the answer is true exactly if the matching package lookup returns a translation rather than a fallback.",
 ["inputs","configurations"],"every configuration, language list and lookup",
 "Tests use one or two languages with files in the exact directory.",
 ["gotext.go","locale.go"],[("match by language, any locale","gotext.go: IsTranslatedND, IsTranslatedNDC")],[],["IsTranslated*"])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
