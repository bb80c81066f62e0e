import json,sys,subprocess,re
r=json.load(open(sys.argv[1])); files=sys.argv[2:]
for f in files:
    hit=set(r["lines"].get(f,[])); 
    src=open("/repo/"+f,errors="replace").read().splitlines()
    print("==",f,len(hit))
    for i,l in enumerate(src,1):
        s=l.strip()
        if i not in hit and s and not s.startswith(("//","/*","*","#","}","{")) and s not in ("else","} else {") and not re.match(r"^[\d,\s-]+$",s) and not re.match(r"^(static|const|saidx_t|saint_t|void|typedef|template|index_type)\b",s): print(i,l[:110])
