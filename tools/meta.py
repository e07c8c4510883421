#!/usr/bin/env python3
# meta.py ID PROP NEEDS BREAKS
import sys,json
i,p,n,w=sys.argv[1:5]
json.dump(dict(property=p,needs=n,what_it_breaks=w),open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
