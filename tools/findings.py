#!/usr/bin/env python3
"""Generates known_findings.json, looking up the hashes of the fix commits by subject."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
commits = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
known = [
    ("P09", "explicit-after-embedded", "a class declared as a reference is rejected as already defined when a class that embeds it (with an attribute that isn't a link) was declared as a reference before it; in the other order it is accepted"),
    ("P15", "empty-field-name", "reading a JSON object stops, without error, at the first field whose name is empty, so the fields after it are lost: {\"\": 1, \"id\": \"123\"}"),
    ("P15", "lone-closing-bracket", "a document that consists only of the closing bracket ('}' for objects, ']' for lists) is read as an empty object or list instead of being rejected"),
]
fixed = [
    ("P08", "sort errors using their actual name", "errors were sorted comparing an error with itself, so the order depended on the order of declaration"),
    ("P17", "generate valid setters for map request parameters", "request setters of map parameters did not compile"),
    ("P14", "generate valid JSON support for structs without attributes", "code for structs without attributes did not compile or produced invalid JSON"),
    ("P08", "parse chunks of names that aren't covered by other rules", "chunks of names were lost when splitting some camel case texts"),
    ("P16", "avoid overflow in the mask of the last presence bit", "mask of bit 63 overflowed, so types with 64 attributes or fields did not work"),
    ("P04", "reject model files that aren't completely parsed", "text after the last complete declaration was silently ignored"),
    ("P05", "track undefined concepts of each version separately", "a name undefined in one version was accepted if other version declared it"),
    ("P03", "accept documentation comments that start with a blank line", "documentation starting with an empty comment line was rejected or altered"),
    ("P05", "don't fail checking versions without root or locators without target", "nil pointer dereference for versions without root and locators without target"),
    ("P12", "honour the value passed to the link flag setter of builders", "Link(false) set the link flag"),
    ("P20", "don't return end of file as an error of metadata requests", "metadata requests returned EOF for empty bodies"),
    ("P19", "use the same field names in clients and JSON support", "parameters whose names are built-in fields generated inconsistent names"),
    ("P17", "avoid conflicts of parameters with the fields of requests", "parameters named header, path, query or transport generated code that did not compile"),
    ("P25", "use JSON names for parameters in OpenAPI specifications", "names of parameters in bodies ignored the JSON annotation"),
    ("P25", "generate only one OpenAPI path for the root resource", "duplicated path keys for the root resource"),
    ("P09", "report references to things that don't exist", "references to services, versions or types that do not exist caused a panic or were accepted"),
    ("P03", "preserve documentation of declarations that follow a reference", "documentation of declarations after a reference was lost or replaced by that of the referenced file"),
    ("P09", "support references to recursive types", "references to recursive types did not terminate"),
    ("P03", "don't use trailing comments or those of outer declarations as documentation", "trailing comments of the previous line and comments of outer declarations were used as documentation"),
    ("P09", "links to explicitly referenced types don't depend on the order of declarations", "link owners depended on the order of the references"),
    ("P09", "links to types that are also embedded keep pointing to the referenced version", "links pointed nowhere when the type was also embedded"),
    ("P17", "use the package selector of the version in links to referenced types", "links to referenced versions with several words in the name did not compile"),
    ("P17", "lists of links to referenced types use the list type of the referenced version", "lists of links to referenced types did not compile"),
    ("P09", "support references to services that have references, and reject loops", "chains of references panicked and loops did not terminate"),
    ("P14", "read map entries with an empty key", "entries of maps after one with an empty key were lost when reading JSON"),
    ("P20", "getters of nil poll and metadata responses don't panic", "Body and other getters of nil poll and metadata responses panicked"),
    ("P23", "text of errors with a nil timestamp doesn't panic", "converting to text an error whose timestamp was set to nil panicked"),
    ("P12", "copying an object with an empty map keeps the map", "copies of objects with empty maps lost the map, but kept its presence"),
    ("P14", "write the keys of free form values always in the same order", "the order of the keys of values of the Interface type changed from one write to the next"),
    ("P17", "import the packages of links to types that are also embedded", "code of a class with a link to a referenced class that is also copied lacked the import, so other package with the same name was used when there was one"),
    ("P25", "generate OpenAPI schemas for the types of links to other versions", "specifications of versions with links to classes of other versions had references to schemas that did not exist"),
    ("P28", "don't join words of different lines in summaries of documentation", "the last word of a line and the first of the next one were joined in summaries"),
    ("P28", "don't add to the index of the documentation links to pages that don't exist", "the index had links to pages of scalar, list and map types, that are not generated"),
]
fixed += json.load(open(os.path.join(root, "tools", "fixed_more.json"))) if os.path.exists(os.path.join(root, "tools", "fixed_more.json")) else []
out = []
for p, i, w in known:
    out.append({"property": p, "id": i, "status": "known", "what": w})
used = set()
for p, subject, w in fixed:
    key = "fix: " + subject
    assert key in commits, key
    used.add(key)
    out.append({"property": p, "id": subject.replace(" ", "-"), "status": "fixed", "commit": commits[key], "what": w,
                "entry": "fixed: property=%s %s %s" % (p, commits[key], w)})
for c in commits:
    if c.startswith("fix:") and c not in used:
        print("not listed:", c)
json.dump(out, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
