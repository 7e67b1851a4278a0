# Behaviour-preserving refactorings of print.go, larger ones: no rule may alarm.
import re
def rd(f): return open('/repo/'+f).read()
def cut(f,a,b,incl=False):
    s=rd(f); i=s.index(a); j=s.index(b,i+len(a))
    return s[i:j+(len(b) if incl else 0)]
P='print.go'
ALLP='C02,C14,C18,C21,C22,C23,C24,C29,C30'
M=[]
S=rd(P)
def ok(new,*more):
    assert new!=S
    M.append(('ok',ALLP,[(P,S,new)]+list(more)))
# 1 every list has a helper
n=S
n=re.sub(r'\tif !p\.BriefOutput \{\n\t\tfor _, c := range (\w+)\.Conformance \{\n\t\t\tp\.printValue\("Conformance", c, indentLevel\)\n\t\t\}\n\t\}\n',r'\tp.printConformance(\1.Conformance, indentLevel)\n',n)
n=re.sub(r'\tif !p\.BriefOutput && !p\.OmitNotices \{\n\t\tfor _, (\w+) := range (\w+)\.Notices \{\n\t\t\tp\.printNotice\(\w+, indentLevel\)\n\t\t\}\n\t\}\n',r'\tp.printNotices(\2.Notices, indentLevel)\n',n)
n=re.sub(r'\tif !p\.BriefOutput && !p\.OmitRemarks \{\n\t\tfor _, (\w+) := range (\w+)\.Remarks \{\n\t\t\tp\.printRemark\(\w+, indentLevel\)\n\t\t\}\n\t\}\n',r'\tp.printRemarks(\2.Remarks, indentLevel)\n',n)
n=re.sub(r'\tfor _, l := range (\w+)\.Links \{\n\t\tp\.printLink\(l, indentLevel\)\n\t\}\n',r'\tp.printLinks(\1.Links, indentLevel)\n',n)
n=re.sub(r'\tfor _, s := range (\w+)\.Status \{\n\t\tp\.printValue\("Status", s, indentLevel\)\n\t\}\n',r'\tp.printEach("Status", \1.Status, indentLevel)\n',n)
n=re.sub(r'\tfor _, d := range (\w+)\.Description \{\n\t\tp\.printValue\("Description", d, indentLevel\)\n\t\}\n',r'\tp.printEach("Description", \1.Description, indentLevel)\n',n)
n=re.sub(r'\tfor _, e := range (\w+)\.Entities \{\n\t\tp\.printEntity\(&e, indentLevel\)\n\t\}\n',r'\tp.printEntities(\1.Entities, indentLevel)\n',n)
n+='''
func (p *Printer) printEach(name string, values []string, indentLevel uint) {
	for _, v := range values {
		p.printValue(name, v, indentLevel)
	}
}

func (p *Printer) printConformance(l []string, indentLevel uint) {
	if p.BriefOutput {
		return
	}

	p.printEach("Conformance", l, indentLevel)
}

func (p *Printer) printNotices(l []Notice, indentLevel uint) {
	if p.BriefOutput || p.OmitNotices {
		return
	}

	for _, n := range l {
		p.printNotice(n, indentLevel)
	}
}

func (p *Printer) printRemarks(l []Remark, indentLevel uint) {
	if p.BriefOutput || p.OmitRemarks {
		return
	}

	for i := range l {
		p.printRemark(l[i], indentLevel)
	}
}

func (p *Printer) printLinks(l []Link, indentLevel uint) {
	for i := 0; i < len(l); i++ {
		p.printLink(l[i], indentLevel)
	}
}

func (p *Printer) printEntities(l []Entity, indentLevel uint) {
	for i := range l {
		e := &l[i]
		p.printEntity(e, indentLevel)
	}
}
'''
ok(n)
# 2 optional numbers in one generic helper, booleans too
n=re.sub(r'\tif (\w+\.\w+) != nil \{\n\t\tp\.printValue\(("[^"]*"),\n\t\t\tstrconv\.FormatUint\((?:uint64\()?\*\1\)?, 10\),\n\t\t\tindentLevel\)\n\t\}\n',r'\tprintNumber(p, \2, \1, indentLevel)\n',S)
n=re.sub(r'\tif (\w+\.\w+) != nil \{\n\t\tp\.printValue\(("[^"]*"),\n\t\t\tstrconv\.FormatBool\(\*\1\),\n\t\t\tindentLevel\)\n\t\}\n',r'\tp.printBool(\2, \1, indentLevel)\n',n)
n+='''
type unsigned interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64
}

func printNumber[T unsigned](p *Printer, name string, v *T, indentLevel uint) {
	if v != nil {
		p.printValue(name, strconv.FormatUint(uint64(*v), 10), indentLevel)
	}
}

func (p *Printer) printBool(name string, v *bool, indentLevel uint) {
	if v == nil {
		return
	}

	p.printValue(name, strconv.FormatBool(*v), indentLevel)
}
'''
ok(n)
# 3 search results share their head
n=S
for k in ('Nameserver','Entity','Domain'):
    a=cut(P,'	p.printHeading("%s Search Results", indentLevel)\n'%k,'\n	for _, %s := range sr.'%k[0].lower())+'\n'
    n=n.replace(a,'	p.printHead("%s Search Results", sr.Conformance, sr.Notices, indentLevel)\n	indentLevel++\n\n'%k)
a=cut(P,'	p.printHeading("Help", indentLevel)\n','	p.printUnknowns(h.DecodeData')
n=n.replace(a,'	p.printHead("Help", h.Conformance, h.Notices, indentLevel)\n	indentLevel++\n\n')
n+='''
func (p *Printer) printHead(heading string, conformance []string, notices []Notice, indentLevel uint) {
	p.printHeading(heading, indentLevel)

	if p.BriefOutput {
		return
	}

	for _, c := range conformance {
		p.printValue("Conformance", c, indentLevel+1)
	}

	if p.OmitNotices {
		return
	}

	for _, n := range notices {
		p.printNotice(n, indentLevel+1)
	}
}
'''
ok(n)
# 4 nested level passed as indentLevel+1
n=S
for f in re.findall(r'\nfunc \(p \*Printer\) (print\w+)\(\w+ \*?\w+, indentLevel uint',S):
    i=n.index('\nfunc (p *Printer) %s('%f); j=n.index('\n}\n',i)
    b=n[i:j]
    m=re.search(r'\n\tindentLevel\+\+\n',b)
    if not m: continue
    b=b[:m.start()]+'\n\tnext := indentLevel + 1\n'+b[m.end():].replace('indentLevel','next')
    n=n[:i]+b+n[j:]
ok(n)
# 5 output collected in a buffer and written once per line through a writer
a=cut(P,'	fmt.Fprintf(p.Writer, "%s%s:\\n",',')\n}',)+')\n'
b=cut(P,'	fmt.Fprintf(p.Writer, "%s%s: %s\\n",',')\n}')+')\n'
n=S.replace(a,'	p.line(indentLevel, heading, "")\n').replace(b,'	p.line(indentLevel, name, " "+p.cleanString(value))\n')+'''
func (p *Printer) line(level uint, name, rest string) {
	buf := make([]byte, 0, 128)
	buf = append(buf, p.indent(level)...)
	buf = append(buf, p.cleanString(name)...)
	buf = append(buf, ':')
	buf = append(buf, rest...)
	buf = append(buf, '\\n')
	_, _ = p.Writer.Write(buf)
}
'''
n=n.replace('	"fmt"\n','')
ok(n)
# 6 the object's type decided by if statements
a=cut(P,'	switch v := obj.(type) {','// printNameserverSearchResults')
ts=re.findall(r'\tcase \*(\w+):\n\t\tp\.(\w+)\(v, indentLevel\)',a)
n=S.replace(a,''.join('	if v, ok := obj.(*%s); ok {\n		p.%s(v, indentLevel)\n		return\n	}\n\n'%t for t in ts)+'}\n\n')
ok(n)
# 7 unknown values: early returns
a=cut(P,'	switch value := value.(type) {\n	case bool:','// cleanString returns')
n=S.replace(a,'''	text, scalar := scalarText(value)
	if scalar {
		p.printValue(key, text, indentLevel)
		return
	}

	if list, ok := value.([]any); ok {
		for i := range list {
			p.printUnknown(key, list[i], indentLevel)
		}
		return
	}

	members, ok := value.(map[string]any)
	if !ok {
		p.printValue(key, "[unprintable value]", indentLevel)
		return
	}

	p.printHeading(key, indentLevel)

	names := make([]string, 0, len(members))
	for k := range members {
		names = append(names, k)
	}
	slices.Sort(names)

	for _, k := range names {
		p.printUnknown(k, members[k], indentLevel+1)
	}
}

func scalarText(value any) (string, bool) {
	switch v := value.(type) {
	case string:
		return v, true
	case bool:
		return strconv.FormatBool(v), true
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64), true
	}

	return "", false
}

''')
ok(n)
# 8 vCard in its own function, entity order kept
a=cut(P,'	if e.VCard != nil {\n','	if !p.BriefOutput {\n		for _, ipn')
n=S.replace(a,'	p.printVCard(e.VCard, indentLevel)\n\n')+'''
func (p *Printer) printVCard(v *VCard, indentLevel uint) {
	if v == nil {
		return
	}

	for _, prop := range v.Properties {
		label := "vCard " + prop.Name
		for _, text := range prop.Values() {
			p.printValue(label, text, indentLevel)
		}
	}
}
'''
ok(n)
# 9 level kept in the printer
# 10 brief mode returns early
a=cut(P,'	if !p.BriefOutput {\n		for _, ipn','	p.printUnknowns(e.DecodeData, indentLevel)\n}\n\n// printIPNetwork')
n=S.replace(a,'''	if p.BriefOutput {
		p.printUnknowns(e.DecodeData, indentLevel)
		return
	}

	for i := range e.Networks {
		p.printIPNetwork(&e.Networks[i], indentLevel)
	}

	for i := range e.Autnums {
		p.printAutnum(&e.Autnums[i], indentLevel)
	}

	for i := range e.Entities {
		p.printEntity(&e.Entities[i], indentLevel)
	}

''')
ok(n)
# 11 values by closure
def clos(fn,n):
    i=n.index('\nfunc (p *Printer) %s('%fn); j=n.index('\n}\n',i)
    b=n[i:j]
    m=re.search(r'\n\tindentLevel\+\+\n',b)
    b=b[:m.end()]+'\tshow := func(name, value string) {\n\t\tp.printValue(name, value, indentLevel)\n\t}\n'+re.sub(r'p\.printValue\(((?:"[^"]*"), [\w.]+), indentLevel\)',r'show(\1)',b[m.end():])
    return n[:i]+b+n[j:]
n=S
for f in ('printDomain','printIPNetwork','printNameserver','printAutnum','printEntity'): n=clos(f,n)
ok(n)
# 12 tables of names and values
a=cut(P,'	p.printValue("Handle", n.Handle, indentLevel)\n	p.printValue("Start Address"','	for _, s := range n.Status {')
rows=re.findall(r'p\.printValue\(("[^"]*"), ([\w.]+), indentLevel\)',a)
n=S.replace(a,'	fields := [...][2]string{\n'+''.join('		{%s, %s},\n'%r for r in rows)+'	}\n	for _, f := range fields {\n		p.printValue(f[0], f[1], indentLevel)\n	}\n\n')
ok(n)
a=cut(P,'	p.printValue("Title", l.Title, indent)\n','	for _, h := range l.HrefLang')
rows=re.findall(r'p\.printValue\(("[^"]*"), ([\w.]+), indent\)',a)
n=S.replace(a,'	for _, f := range []field{\n'+''.join('		{%s, %s},\n'%r for r in rows)+'	} {\n		p.printValue(f.name, f.value, indent)\n	}\n\n')+'\ntype field struct {\n	name, value string\n}\n'
ok(n)
# 14 printEvent split
n=S.replace('''			p.printEvent(e, indentLevel, true)
''','''			p.printNamedEvent("AsEventActor", e, indentLevel)
''').replace('p.printEvent(e, indentLevel, false)','p.printNamedEvent("Event", e, indentLevel)')
a=cut(P,'func (p *Printer) printEvent(','	indentLevel++\n\n	p.printValue("Action"')
n=n.replace(a,'func (p *Printer) printNamedEvent(heading string, e Event, indentLevel uint) {\n	if p.BriefOutput {\n		return\n	}\n\n	p.printHeading(heading, indentLevel)\n\n')
ok(n)
# 15 notices and remarks have the same form
a=cut(P,'	p.printHeading("Remark", indentLevel)\n','\n}\n\n// printNotice')
b=cut(P,'	p.printHeading("Notice", indentLevel)\n','\n}\n\n// printLink formats')
n=S.replace(a,'	p.printText("Remark", r.Title, r.Type, r.Description, r.Links, r.DecodeData, indentLevel)').replace(b,'	p.printText("Notice", n.Title, n.Type, n.Description, n.Links, n.DecodeData, indentLevel)')+'''
func (p *Printer) printText(heading, title, kind string, description []string, links []Link, dd *DecodeData, indentLevel uint) {
	p.printHeading(heading, indentLevel)
	indentLevel++

	p.printValue("Title", title, indentLevel)
	p.printValue("Type", kind, indentLevel)

	for _, d := range description {
		p.printValue("Description", d, indentLevel)
	}

	for _, l := range links {
		p.printLink(l, indentLevel)
	}

	p.printUnknowns(dd, indentLevel)
}
'''
ok(n)
# 16 sub printer for links
a=cut(P,'	if p.BriefLinks {\n		p.printValue','	p.printUnknowns(l.DecodeData, indent)\n}',True)
n=S.replace(a,'''	switch {
	case p.BriefLinks:
		p.printValue("Link", l.Href, indent)
	default:
		p.printFullLink(&l, indent)
	}
}

func (p *Printer) printFullLink(l *Link, indent uint) {
	p.printHeading("Link", indent)

	inner := indent + 1
	p.printValue("Title", l.Title, inner)
	p.printValue("Href", l.Href, inner)
	p.printValue("Value", l.Value, inner)
	p.printValue("Rel", l.Rel, inner)
	p.printValue("Media", l.Media, inner)
	p.printValue("Type", l.Type, inner)

	for _, h := range l.HrefLang {
		p.printValue("HrefLang", h, inner)
	}

	p.printUnknowns(l.DecodeData, inner)
}''')
ok(n)
# 17 whole output through a buffer
n=S.replace('''	p.printObject(obj, 0)
}
''','''	out := p.Writer

	var buf bytes.Buffer
	q := *p
	q.Writer = &buf
	q.printObject(obj, 0)

	_, _ = out.Write(buf.Bytes())
}
''').replace('import (\n','import (\n	"bytes"\n')
ok(n)
