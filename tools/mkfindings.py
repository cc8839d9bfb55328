import json,subprocess
pm={"4ca95db":"R02","ecc13f0":"R02","f43255c":"D01","38cb170":"H01","b5ab5c7":"D02","4ce92f8":"D02","2f9552e":"D02","252e766":"D02","f343ddc":"D02","5252260":"T01","904b261":"T01","ef66603":"R02","b8b2066":"S01","41f1d83":"X01","3a95d01":"W01","644ad45":"W01","7016cde":"A01","78d3708":"A01","fe576d2":"A01","c261ff6":"B01","f0de30a":"B01","17ccdc3":"F01","442a912":"M01","f0a69f3":"O01","59eb0e6":"Q01","dc51281":"D02","f2d2061":"K01","9151d01":"K01","f34f3f2":"B02","e741af9":"N01","67f4917":"E01","19f8d83":"T01","49ec696":"H01","9c7fe7c":"V01","fc84164":"V01","507a3fa":"Q01","dd03584":"X01","62bf731":"G01","0cca111":"G01","9622123":"B01","e023a91":"X02","1e02f93":"Q02","41ca85a":"Q02","5bf7000":"Q03","ba8bf63":"M01","dedf0fa":"B02"}
log=subprocess.run(["git","-C","/repo","log","--format=%h %s","--reverse"],capture_output=True,text=True).stdout.splitlines()
fixed=[f"fixed: property={pm.get(l.split()[0],'?')} {l}" for l in log if " fix:" in l]
d={"findings":[
 {"property":"F01","key":"regexp-v-flag","what":"a RegExp with the v (UnicodeSets) flag, e.g. re.compile('a') or JSRegExp('a', JSRegExpFlag.UnicodeSets), is written although the RegExpUnicodeSets feature is not enabled"},
 {"property":"E01","key":"URIError-name","what":"JSErrorData(name='URIError') is written as a plain Error, and V8's URIError errors are read with the name 'UriError' (an existing test pins the name 'UriError')"},
 {"property":"R01","key":"equal-keys-merged","what":"JSSet([d1, d2]) and JSMap([(d1, 1), (d2, 2)]) of two equal but distinct datetimes (also equal tuples, frozensets and RegExps) have two entries, but are written with both keys as the same object and read back with one entry"}],
 "fixed":fixed}
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
print("\n".join(fixed))
