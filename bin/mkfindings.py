"""Writes known_findings.txt from the fix: commits in /repo (run by hand, never by a check)."""
import subprocess
PROP={ # subject prefix -> (property, what failed)
"keep an escape that":("C01",'a string whose buffer ends in a backslash: the next quote ended the string'),
"keep a completed name or array value":("C01",'a buffer that ends right behind a closing quote: name or value was re-read as empty'),
"continue a comment":("C01",'a // comment cut between its slashes or inside: InvalidToken, or the rest read as tokens'),
"set the size of an ArrayVariableContent":("C02",'an array that fills ArrayVariableContent completely left size unset'),
"replace the text of a raw":("C13",'a second parse into JsonObject/JsonArray/JsonObjectOrArray appended to the first text'),
"end the raw copy":("C05",'a malformed JsonArray left a pointer to the dead target registered as copy buffer'),
"replace the contents of a OneOrMany":("C13",'a single value parsed into a used OneOrMany was appended'),
"do not count leading zeros":("C02",'0.0000...1 with many leading zeros lost its digits'),
"parse zero with a positive exponent":("C02",'0e5 into an integer was an error'),
"reject a time point":("C05",'a time point near INT64_MAX overflowed (UB)'),
"reject a number that is not a value of the enum":("C05",'an out-of-range number was cast to an enum (UB)'),
"stop parsing a map":("C04",'a map cut off inside looped or returned NoError'),
"return the error when the argument":("C04",'callFunctions on input cut off inside an argument returned NoError / lost sync'),
"drop the custom message":("C13",'makeErrorString reported the custom message of an earlier error'),
"escape every control character":("C11",'strings with control characters serialized to malformed JSON'),
"escape the keys":("C11",'map keys with quotes or backslashes serialized to malformed JSON'),
"count the nesting depth":("C11",'nesting beyond 255 wrapped the depth'),
"write the name of a member whose":("C11",'an empty-string key was written without a name'),
"report input that ends inside":("C04",'reformat of truncated input returned NoError'),
"forget the missing array items":("C12",'missing array items of an earlier diff stayed in the list'),
"mark every new array item":("C12",'only the first new array item was marked when it was an array'),
"compare names and strings in a diff":("C12",'strings that differ behind a NUL compared equal'),
"diff numbers that are out":("C12",'numbers beyond the range of a double asserted'),
"report malformed json given":("C12",'malformed documents walked unbalanced tokens out of bounds'),
"do not attach differences":("C12",'an empty token list was indexed'),
"diff unquoted array items":("C12",'unquoted array items asserted'),
"do not write the start of a line":("C06",'a refused write repeated the line start when it was retried'),
"end the iteration of a Map":("C08",'iteration ran past the last member'),
"keep track of the nested":("C08",'replacing a plain member left stale positions of nested siblings'),
"replace every member":("C08",'of several members of one name only one was replaced'),
"escape the name of a member that is set":("C08",'a set name with a quote gave malformed text and could not be found'),
"leave the error of a cast":("C08",'castTo of an absent name left NoError in the context'),
"leave an empty Map":("C08",'a failed parse left unbalanced tokens in the Map'),
"leave a Map as it was":("C08",'a failed set (or bad_alloc) left the Map inconsistent'),
"keep the text a copied Map":("C08",'tokens of a copied Map pointed into the text owned by the original'),
"capture raw text when parsing from a list":("C08",'JsonObject read from a Map captured garbage'),
"do not read a token from an empty list":("C08",'reading from an empty Map indexed an empty vector'),
}
EXTRA=[]
def load_extra():
    import json,os
    f='/verif/bin/findings_extra.json'
    if os.path.exists(f): PROP.update({k:tuple(v) for k,v in json.load(open(f)).items()})
load_extra()
out=["# Genuine defects of json_struct found by the checks. 'fixed:' lines are repaired in /repo and suppress nothing.","# 'KNOWN-FINDING:' lines, if any, are defects recorded instead of repaired."]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','1146c7c..HEAD'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    k=[k for k in PROP if s[5:].startswith(k)]
    assert len(k)==1,s
    out.append("fixed: property=%s %s %s"%(PROP[k[0]][0],h,PROP[k[0]][1]))
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
print(len(out)-2)
