import re
groups=open('/repo/models/groups.go').read()
def names(fn):
    m=re.search(r'func %s\(name string\) .*?\{(.*?)\n\}\n'%fn,groups,re.S)
    return re.findall(r'case "(\w+)":',m.group(1))
FN={'dist':'ContinuousDistributionType','expression':'Expression','embedded':'EmbeddedModel','model':'ModelElement','predicate':'Predicate','table':'Table'}
fam={'dist':names('GetContinuousDistributionType'),'expression':names('GetExpression'),'embedded':names('GetEmbeddedModel'),'model':names('GetModelElement'),'predicate':names('GetPredicate'),'table':names('GetTable')}
out=[]
w=out.append
w('''package models

import (
	"encoding/xml"
	"strconv"
)

// C02: the hand-written decoders.
//
// A decoder d stands in front of the tokens token(d,p), token(d,p+1) ...;
// reading token p fails if tokErr, decoding (skipping) the element that starts
// at p fails if decErr (skipErr), and it ends in front of after(d,p). walk_ is
// where a decoder stands that has stepped over k children, texts and comments.

func tok_(d *xml.Decoder, p int) any        { return fn_[any]("xml.token", d, p) }
func tokErr_(d *xml.Decoder, p int) error   { return fn_[error]("xml.tokerr", d, p) }
func decErr_(d *xml.Decoder, p int) error   { return fn_[error]("xml.decerr", d, p) }
func skipErr_(d *xml.Decoder, p int) error  { return fn_[error]("xml.skiperr", d, p) }
func after_(d *xml.Decoder, p int) int      { return fn_[int]("xml.after", d, p) }

//gover:inline
func isStart_(d *xml.Decoder, p int) bool { return is_[xml.StartElement](tok_(d, p)) }

//gover:inline
func isEnd_(d *xml.Decoder, p int) bool {
	return tokErr_(d, p) == nil && is_[xml.EndElement](tok_(d, p))
}

//gover:inline
func name_(d *xml.Decoder, p int) string { return as_[xml.StartElement](tok_(d, p)).Name.Local }

// child_: a child element of the name starts at p.
//gover:inline
func child_(d *xml.Decoder, p int, name string) bool { return isStart_(d, p) && name_(d, p) == name }

func walk_(d *xml.Decoder, p, k int) int {
	if k <= 0 {
		return p
	}
	if isStart_(d, walk_(d, p, k-1)) {
		return after_(d, walk_(d, p, k-1))
	}
	return walk_(d, p, k-1) + 1
}

// item_: e is an object of the type named by the element at q, made from it.
//gover:inline
func item_(e any, d *xml.Decoder, q int) bool {
	return e != nil && src_(e) == q && typeName_(e) == name_(d, q)
}

// attr_: the value of the last attribute of that name among the first k.
func attr_(as []xml.Attr, name string, k int) string {
	if k <= 0 {
		return ""
	}
	if as[k-1].Name.Local == name {
		return as[k-1].Value
	}
	return attr_(as, name, k-1)
}

func hasAttr_(as []xml.Attr, name string, k int) bool {
	if k <= 0 {
		return false
	}
	return as[k-1].Name.Local == name || hasAttr_(as, name, k-1)
}

// nonEmptyAttr_: the last such value that is not empty, or the default.
func nonEmptyAttr_(as []xml.Attr, name, def string, k int) string {
	if k <= 0 {
		return def
	}
	if as[k-1].Name.Local == name && as[k-1].Value != "" {
		return as[k-1].Value
	}
	return nonEmptyAttr_(as, name, def, k-1)
}

func numAttr_(as []xml.Attr, name string, k int) Number {
	if k <= 0 {
		return 0
	}
	if as[k-1].Name.Local == name && as[k-1].Value != "" {
		return Number(real_(as[k-1].Value))
	}
	return numAttr_(as, name, k-1)
}

//gover:inline
func badNum_(as []xml.Attr, name string, k int) bool {
	return exists_(func(i int) bool {
		return 0 <= i && i < k && as[i].Name.Local == name && as[i].Value != "" && !isReal_(as[i].Value)
	})
}

//gover:inline
func badYesNo_(as []xml.Attr, name string, k int) bool {
	return exists_(func(i int) bool {
		return 0 <= i && i < k && as[i].Name.Local == name && as[i].Value != "yes" && as[i].Value != "no"
	})
}
''')
for f in ['dist','expression','embedded','model','predicate','table']:
    F=FN[f]
    w('''// %(f)sItems_: where the children of this kind start, among the first k.
func %(f)sItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if isStart_(d, walk_(d, p, k-1)) && isName%(F)s_(name_(d, walk_(d, p, k-1))) {
		return append(%(f)sItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return %(f)sItems_(d, p, k-1)
}
'''%dict(f=f,F=F))
def lower(s): return s[0].lower()+s[1:]
valcolls={}  # go type -> element name
def valfn(typ):
    return lower(typ)+'s_'
def reqval(typ,el):
    if typ in valcolls: return
    valcolls[typ]=el
    w('''// %(fn)s: what the %(el)s children among the first k contain.
func %(fn)s(d *xml.Decoder, p, k int) []%(t)s {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "%(el)s") {
		return append(%(fn)s(d, p, k-1), fn_[%(t)s]("xml.decoded.models.%(t)s", %(t)s{}, d, walk_(d, p, k-1)))
	}
	return %(fn)s(d, p, k-1)
}
'''%dict(fn=valfn(typ),el=el,t=typ))
named={}
def reqnamed(el):
    if el in named: return
    named[el]=1
    w('''// %(f)sItems_: where the %(el)s children start, among the first k.
func %(f)sItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "%(el)s") {
		return append(%(f)sItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return %(f)sItems_(d, p, k-1)
}
'''%dict(f=lower(el),el=el))
folds={}
def reqfold(typ):
    if typ in folds: return
    folds[typ]=1
    w('''// %(f)s_: the %(t)s children among the first k, decoded one after the other.
func %(f)s_(d *xml.Decoder, p, k int) %(t)s {
	if k <= 0 {
		return %(t)s{}
	}
	if child_(d, walk_(d, p, k-1), "%(t)s") {
		return fn_[%(t)s]("xml.decoded.models.%(t)s", %(f)s_(d, p, k-1), d, walk_(d, p, k-1))
	}
	return %(f)s_(d, p, k-1)
}
'''%dict(f=lower(typ),t=typ))

specs=[
 dict(t='Alternate',one=[('Distribution','dist')]),
 dict(t='Apply',vals=[('Extensions','Extension','Extension')],many=[('Expressions','expression')],
   attrs=[('DefaultValue','ptr','defaultValue'),('Function','str','function'),('InvalidValueTreatment','nonempty:returnInvalid','invalidValueTreatment'),('MapMissingTo','ptr','mapMissingTo')]),
 dict(t='ChildParent',vals=[('Extensions','Extension','Extension'),('FieldColumnPairs','FieldColumnPair','FieldColumnPair')],one=[('Table','table')],
   attrs=[('ChildField','str','childField'),('IsRecursive','yesno','isRecursive'),('ParentField','str','parentField'),('ParentLevelField','str','parentLevelField')]),
 dict(t='CompoundPredicate',vals=[('Extensions','Extension','Extension')],many=[('Predicates','predicate')],attrs=[('BooleanOperator','str','booleanOperator')]),
 dict(t='DefineFunction',vals=[('Extensions','Extension','Extension'),('ParameterFields','ParameterField','ParameterField')],one=[('Expression','expression')],
   attrs=[('DataType','str','dataType'),('Name','str','name'),('OpType','str','optype')]),
 dict(t='DerivedField',vals=[('Extensions','Extension','Extension'),('Values','Value','Value')],one=[('Expression','expression')],
   attrs=[('DataType','str','dataType'),('DisplayName','str','displayName'),('Name','str','name'),('OpType','str','optype')]),
 dict(t='InlineTable',vals=[('Extensions','Extension','Extension')],maps=[('Rows','row')]),
 dict(t='Node',vals=[('Nodes','Node','Node'),('ScoreDistributions','ScoreDistribution','ScoreDistribution'),('Extensions','Extension','Extension')],
   one=[('EmbeddedModel','embedded'),('Predicate','predicate')],ptrs=[('Partition','Partition')],
   attrs=[('DefaultChild','str','defaultChild'),('ID','str','id'),('RecordCount','num','recordCount'),('Score','str','score')]),
 dict(t='PMML',vals=[('Extensions','Extension','Extension')],folds=[('DataDictionary','DataDictionary'),('TransformationDictionary','TransformationDictionary'),('Header','Header')],
   ptrs=[('MiningBuildTask','MiningBuildTask')],many=[('Models','model')],attrs=[('Version','str','version')]),
 dict(t='Segment',vals=[('Extensions','Extension','Extension')],many=[('Predicates','predicate'),('Models','model')],attrs=[('Id','str','id')]),
]
for s in specs:
    t=s['t']
    known=[]
    for f,ty,el in s.get('vals',[]):
        reqval(ty,el); known.append('n == "%s"'%el)
    for f,el in s.get('maps',[]): reqnamed(el); known.append('n == "%s"'%el)
    for f,el in s.get('ptrs',[]): reqnamed(el); known.append('n == "%s"'%el)
    for f,ty in s.get('folds',[]): reqfold(ty); known.append('n == "%s"'%ty)
    for f,fa in s.get('many',[])+s.get('one',[]): known.append('isName%s_(n)'%FN[fa])
    L=lower(t)
    if t=='PMML': L='pmml'
    w('''//gover:inline
func %(L)sKnows_(n string) bool { return %(k)s }

// %(L)sBad_: the decoder cannot go on at q.
//gover:inline
func %(L)sBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(%(L)sKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func %(L)sClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !%(L)sBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func %(L)sDone_(d *xml.Decoder, p, k int) bool {
	return %(L)sClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}
'''%dict(L=L,k=' || '.join(known)))
    c=[]; e=[]
    def ens(name,body):
        e.append('''	ensures_("C02.%s", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return %sDone_(decoder, p, k) && %s }))
	})
'''%(name,L,body.replace('$K','k').replace('$P','p')))
    def cand(body):
        c.append('''	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return %s
	})
'''%(body.replace('$K','K').replace('$P','p')))
    cand('pos_(decoder) == walk_(decoder, $P, $K)')
    cand(L+'Clean_(decoder, $P, $K)')
    ens('ends at its own end tag','pos_(decoder) == walk_(decoder, p, k)+1')
    for f,ty,el in s.get('vals',[]):
        b='same_(x.%s, %s(decoder, $P, $K))'%(f,valfn(ty)); cand(b); ens('every %s child in order'%el,b)
    for f,ty in s.get('folds',[]):
        b='same_(x.%s, %s_(decoder, $P, $K))'%(f,lower(ty)); cand(b); ens('the %s child'%ty,b)
    def items(f,fn,kind,fit):
        b='len(x.%s) == len(%s(decoder, $P, $K))'%(f,fn)
        b2='''forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.%(f)s), %(fit)s)
		})'''%dict(f=f,fit=fit.replace('$Q','%s(decoder, $P, $K)[j]'%fn))
        cand(b); cand(b2); cand('%s && %s'%(b,b2)); ens('every %s child in order'%kind,b+' && '+b2)
    for f,fa in s.get('many',[]):
        c.append("""	candidate_(func(K int) bool {
		return forall_(func(j int) bool { return implies_(0 <= j && j < len(x.%s), isName%s_(typeName_(x.%s[j]))) })
	})
"""%(f,FN[fa],f))
        items(f,fa+'Items_',fa,'item_(x.%s[j], decoder, $Q)'%f)
    for f,el in s.get('maps',[]): items(f,lower(el)+'Items_',el,'x.%s[j] != nil && src_(x.%s[j]) == $Q'%(f,f))
    def single(f,fn,kind,fit):
        b='cond_(len(%(fn)s(decoder, $P, $K)) == 0, x.%(f)s == nil, %(fit)s)'%dict(fn=fn,f=f,fit=fit.replace('$Q','%s(decoder, $P, $K)[len(%s(decoder, $P, $K))-1]'%(fn,fn)))
        cand(b); ens('the %s child'%kind,b)
    for f,fa in s.get('one',[]):
        c.append("	candidate_(func(K int) bool { return x.%s == nil || isName%s_(typeName_(x.%s)) })\n"%(f,FN[fa],f))
        single(f,fa+'Items_',fa,'item_(x.%s, decoder, $Q)'%f)
    for f,el in s.get('ptrs',[]):
        c.append('	candidate_(func(K int) bool { return x.%s == nil || fresh_(x.%s) })\n'%(f,f))
        single(f,lower(el)+'Items_',el,'x.%s != nil && src_(x.%s) == $Q'%(f,f))
    badattr=[]
    for f,k,n in s.get('attrs',[]):
        if k=='str': b='string(x.%s) == attr_(start.Attr, "%s", $N)'%(f,n)
        elif k=='ptr':
            b='cond_(hasAttr_(start.Attr, "%s", $N), x.%s != nil && *x.%s == attr_(start.Attr, "%s", $N), x.%s == nil)'%(n,f,f,n,f)
            c.append('	candidate_(func(K int) bool { return x.%s == nil || fresh_(x.%s) })\n'%(f,f))
        elif k.startswith('nonempty'): b='string(x.%s) == nonEmptyAttr_(start.Attr, "%s", "%s", $N)'%(f,n,k.split(':')[1])
        elif k=='num': b='same_(x.%s, numAttr_(start.Attr, "%s", $N))'%(f,n); badattr.append('badNum_(start.Attr, "%s", $N)'%n)
        elif k=='yesno': b='x.%s == (attr_(start.Attr, "%s", $N) == "yes")'%(f,n); badattr.append('badYesNo_(start.Attr, "%s", $N)'%n)
        c.append('	candidate_(func(K int) bool { return %s })\n'%b.replace('$N','K'))
        c.append('	candidate_(func(K int) bool { return %s })\n'%b.replace('$N','len(start.Attr)'))
        e.append('''	ensures_("C02.attribute %s", func() bool {
		return implies_(err == nil, %s)
	})
'''%(n,b.replace('$N','len(start.Attr)')))
    for b in badattr:
        c.append('	candidate_(func(K int) bool { return !%s })\n'%b.replace('$N','K'))
        c.append('	candidate_(func(K int) bool { return !%s })\n'%b.replace('$N','len(start.Attr)'))
        e.append('''	ensures_("C02.an unreadable attribute fails", func() bool {
		return implies_(%s, err != nil)
	})
'''%b.replace('$N','len(start.Attr)'))
    e.append('''	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, %s%sexists_(func(k int) bool { return %sClean_(decoder, p, k) && %sBad_(decoder, walk_(decoder, p, k)) }))
	})
'''%(' || '.join(b.replace('$N','len(start.Attr)') for b in badattr),' || ' if badattr else '',L,L))
    w('''func contract_%(t)s_UnmarshalXML(x *%(t)s, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, %(t)s{}) })
	modifies_(x)
%(c)s%(e)s}
'''%dict(t=t,c=''.join(c),e=''.join(e)))
w('''func row_(d *xml.Decoder, p, k int, init Map_[string, interface{}]) Map_[string, interface{}] {
	if k <= 0 {
		return init
	}
	if isStart_(d, walk_(d, p, k-1)) {
		return put_(row_(d, p, k-1, init), name_(d, walk_(d, p, k-1)), any(fn_[string]("xml.decoded.string", "", d, walk_(d, p, k-1))))
	}
	return row_(d, p, k-1, init)
}

//gover:inline
func rowBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && decErr_(d, q) != nil
}

//gover:inline
func rowClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !rowBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func rowDone_(d *xml.Decoder, p, k int) bool {
	return rowClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_Row_UnmarshalXML(x Row, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("row and decoder", func() bool { return x != nil && decoder != nil })
	modifies_(x)
	candidate_(func(K int) bool {
		return pos_(decoder) == walk_(decoder, old_(func() int { return pos_(decoder) }), K)
	})
	candidate_(func(K int) bool { return rowClean_(decoder, old_(func() int { return pos_(decoder) }), K) })
	candidate_(func(K int) bool {
		return same_(contents_(x), row_(decoder, old_(func() int { return pos_(decoder) }), K, old_(func() Map_[string, interface{}] { return contents_(x) })))
	})
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return rowDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every cell under its name", func() bool {
		p := old_(func() int { return pos_(decoder) })
		m := old_(func() Map_[string, interface{}] { return contents_(x) })
		return implies_(err == nil, exists_(func(k int) bool { return rowDone_(decoder, p, k) && same_(contents_(x), row_(decoder, p, k, m)) }))
	})
	ensures_("C02.fails only on a failing child or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool { return rowClean_(decoder, p, k) && rowBad_(decoder, walk_(decoder, p, k)) }))
	})
}
''')
src='\n'.join(out)
if 'strconv.' not in src: src=src.replace('\t"strconv"\n','')
open('/verif/contracts/models/decoders.go','w').write(src)
