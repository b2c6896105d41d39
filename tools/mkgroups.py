import re
s=open('/repo/models/groups.go').read()
out=["package models\n","// C01: the factories of polymorphic kinds.\n"]
for m in re.finditer(r'func (Get\w+)\(name string\) \((\w+), bool\) \{(.*?)\n\}\n',s,re.S):
    fn,ty,body=m.groups()
    names=re.findall(r'case "(\w+)":\n\t\treturn &(\w+)\{\}, true',body)
    out.append("func contract_%s(name string, e %s, ok bool) {\n\tmodifies_()"%(fn,ty))
    for n,t in names:
        assert n==t
        out.append('\tshows_("C01.%s", func() bool {\n\t\treturn implies_(name == "%s", ok && is_[*%s](e) && fresh_(as_[*%s](e)) && same_(*as_[*%s](e), %s{}))\n\t})'%(n,n,n,n,n,n))
    P='isName%s_'%fn[3:]
    out.append('\tensures_("C01.known names", func() bool { return ok == %s(name) })'%P)
    out.append('\tensures_("C01.known name", func() bool {\n\t\treturn implies_(ok, e != nil && fresh_(e) && typeName_(e) == name)\n\t})')
    out.append('\tensures_("C01.unknown name", func() bool { return implies_(!ok, e == nil) })\n}\n')
    out.append('// %s: the names of the kind.\n//\n//gover:uf\nfunc %s(n string) bool {\n\treturn %s\n}\n'%(P,P,' || '.join('n == "%s"'%n for n,_ in names)))
open('/verif/contracts/models/groups.go','w').write('\n'.join(out))
