import sys
p='/verif/tools/levels.py'
t=open(p).read()
i,tech,note=sys.argv[1:4]
assert '"%s": dict'%i not in t
t=t.replace('''}
NOT_APPLICABLE''','''    "%s": dict(technique=MON + "%s",
                note="%s"),
}
NOT_APPLICABLE''' % (i,tech,note),1)
open(p,'w').write(t)
