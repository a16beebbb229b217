#!/usr/bin/env python3
import json, os, subprocess
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = {
'6c83e43':('C13','any package lookup before Configure indexes an empty locale list and panics'),
'bd241de':('C16','package lookups read Locale.Domains without the lock while SetDomain/AddDomain write it: data race'),
'c0ab20a':('C13','GetDC/GetNDC as the first lookup in a domain never load it and return the msgid'),
'830f878':('C15','MarshalText, MarshalBinary, GetTranslations and SetPluralResolver read or write catalogue state without its locks'),
'39ba5fb':('C09','UnmarshalBinary loses the compiled plural rule and keeps stale entries or nil maps'),
'ce4e8cf':('C05','#: references of one entry also go to later entries; every parse stores an empty-id entry without header'),
'72abde4':('C05','continuation lines after msgstr[1] (and further) are appended to form 0'),
'717aa6a':('C22','parsing again keeps old values of headers the new file defines, and the old plural rule'),
'6dc7558':('C08','MarshalText output follows map order, and leaves quotes, backslashes unescaped in places'),
'fa767e4':('C02','GetN of an entry without plural id returns an empty string instead of the plural'),
'e8121ef':('C02','SetNC, and SetN on a known id, do not record the plural id'),
'6a82a57':('C18','SetRefs on a known string leaves it stale, so DropStaleTranslations removes it'),
'6779002':('C03','IsTranslated answers for the form of n=1 where Get returns form 0'),
'6352257':('C24','IsTranslated ignores languages found in the ll directory, unloaded domains and all but the first matching locale'),
'2fba92c':('C11','locale files for ll are searched under the first two letters of three-letter languages'),
'18ace21':('C09','Locale.MarshalBinary races with lookups; a failed UnmarshalBinary leaves half the locale changed'),
'3c5eb2f':('C07','corrupt MO lengths and counts panic, allocate gigabytes or yield truncated strings'),
'3de8694':('C06','MO entries without plural get their msgid as plural id'),
'631aa41':('C04','ternaries nested in a true branch compile to the wrong rule; a broken false branch is accepted'),
'279be46':('C04','n%0 compiles and panics on lookup'),
'72a8e3a':('C07','every rule that fails to compile leaks two goroutines'),
'17322ac':('C04','rules like (a)||(b) lose their outermost parentheses; leading blanks are rejected'),
'2230f9b':('C10','Sprintf("%%(a)s") treats the escaped percent sign as the start of a parameter'),
'6d432e6':('C19','GetD(variable, "x") panics xgotext'),
'd75836c':('C20','contexts with characters that Go escapes and PO does not are written as Go literals'),
'd84ab85':('C20','the plural of a string first met without one is dropped'),
'a3b8f8e':('C21','-exclude vendor also excludes vendored-x'),
'f835adf':('C21','a second package tree in the same process skips the packages the first one visited'),
'e4eb3df':('C20','Get("") overwrites the header of the POT file'),
'9a0effd':('C07','a malformed msgid or msgctxt line makes the entry overwrite the header, or another entry, or take a wrong context'),
'002a58d':('C08','MarshalText drops plural forms of entries that have no plural id'),
'355f9be':('C09','binary decoding keeps the header comments of the previous contents'),
'cb5362a':('C04','"+1" and "-0" are accepted as constant rules'),
'72a2bd2':('C15','SetN and SetNC store under the index of a plural rule that a concurrent parse has replaced'),
'a94e257':('C16','overlapping loads of a domain: an older read of the file replaces a newer one, a lazy load replaces what was attached meanwhile'),
'3c23e13':('C16','SetDomain, SetLibrary, SetLanguage change the settings and the locales in two steps that lookups can see between'),
'b1be844':('C16','GetD over several languages decides on one state of a domain and answers with another: source text during a reload'),
'f8a37d5':('C16','SetLocales reads the default domain of its first locale without the lock: data race with SetDomain'),
'c0b091d':('C04','"n == 1 0" and "n > = 1" are accepted: blanks inside numbers and operators are dropped'),
'0676a22':('C06','the id of an MO entry with context is cut at an EOT character in it'),
'49b07ab':('C19','a package named like one of its imports loses the types of its variables and fields'),
'58e5066':('C19','calls are missed when the gotext import cannot be loaded from the input directory'),
'0ed61f1':('C19','header lookups, po.Headers.Get("Language"), are extracted as messages'),
'b2216af':('C20','which of two plurals of a string is written depends on the order of packages'),
'1b012b7':('C20','a string with an empty context gets a second entry beside the one without context (repaired the other way round by 4f61c0a)'),
'c3961ac':('C05','bytes that are not UTF-8 (PO files in other charsets) are replaced by U+FFFD'),
'4f61c0a':('C05','an entry with an empty context is stored as one without context, from PO and MO files and in the text MarshalText writes'),
'e809daf':('C08','MarshalText drops entries with a context and an empty id'),
'9b8a3ee':('C07','a few damaged bytes in a binary encoding make gob allocate maps of gigabytes'),
'a890792':('C05','the first entry of a PO file without header loses its references'),
'2625925':('C07','an MO file whose strings share their bytes (one megabyte is enough) takes up gigabytes'),
'c3a617d':('C07','strings and references spread over many lines of a PO file take time and memory that grow with their square'),
'fc985ef':('C07','strings between unterminated ones take time and memory that grow with their square'),
'815cc87':('C21','nothing is scanned when the input directory, or the working directory it is relative to, is a symbolic link'),
'9d8d91b':('C13','changing the slice GetLanguages or GetLocales returned, or the one given to SetLocales, changes what the package reports and uses'),
'8cf785f':('C10','a package lookup hangs when formatting one of its arguments looks up a string; a locale one if a domain is about to be loaded'),
'3ac97d5':('C15','a lookup whose argument looks up a string in the same catalogue hangs when the catalogue is about to be written'),
'5346e7f':('C18','changing the slice given to SetRefs, or the one GetRefs returned, changes the references of the entry'),
'ec80416':('C07','a plural rule of 28 kB takes 40 s and 11 GB of allocations to compile'),
'55ab357':('C04','"n==1 ? 0 : n>5" (a condition in a branch) is rejected'),
}
import re
path = os.path.join(HOME, 'known_findings.json')
old = json.load(open(path)) if os.path.exists(path) else {'known': []}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %H', '--grep=^fix:'], capture_output=True, text=True).stdout.split('\n')
fixed = []
for l in reversed([x for x in log if x]):
    h = l.split()[0][:7]
    p, t = W[h]
    fixed.append('fixed: property=%s %s %s' % (p, h, t))
json.dump({'known': old['known'], 'fixed': fixed}, open(path, 'w'), indent=1)
