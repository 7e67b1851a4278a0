R='request.go'
P='print.go'
V='vcard.go'
D='decoder.go'
DD='decode_data.go'
W='response.go'
BC='bootstrap/client.go'
F='bootstrap/file.go'
C='client.go'
DN='bootstrap/dns_registry.go'
LOS='	actual, _ := structPlanCache.LoadOrStore(t, plan)\n	return actual.(*structPlan)\n'
M=[
('bad','C19',[(D,'var structPlanCache sync.Map //','var structPlanCache = map[reflect.Type]*structPlan{} //'),(D,'	if cached, ok := structPlanCache.Load(t); ok {\n		return cached.(*structPlan)\n	}','	if cached, ok := structPlanCache[t]; ok {\n		return cached\n	}'),(D,LOS,'	structPlanCache[t] = plan\n	return plan\n'),(D,'	"sync"\n','')]),
('ok','C15,C16,C17,C18,C19',[(D,'var structPlanCache sync.Map //','var structPlanMu sync.Mutex\nvar structPlanCache = map[reflect.Type]*structPlan{} //'),(D,'	if cached, ok := structPlanCache.Load(t); ok {\n		return cached.(*structPlan)\n	}','	structPlanMu.Lock()\n	defer structPlanMu.Unlock()\n	if cached, ok := structPlanCache[t]; ok {\n		return cached\n	}'),(D,LOS,'	structPlanCache[t] = plan\n	return plan\n')]),
('bad','C19',[(D,'var structPlanCache sync.Map //','var structPlanMu sync.Mutex\nvar structPlanCache = map[reflect.Type]*structPlan{} //'),(D,'	if cached, ok := structPlanCache.Load(t); ok {\n		return cached.(*structPlan)\n	}','	if cached, ok := structPlanCache[t]; ok {\n		return cached\n	}'),(D,LOS,'	structPlanMu.Lock()\n	defer structPlanMu.Unlock()\n	structPlanCache[t] = plan\n	return plan\n')]),
('ok','C19',[(D,'var structPlanCache sync.Map //','var structPlanMu sync.RWMutex\nvar structPlanCache = map[reflect.Type]*structPlan{} //'),(D,'	if cached, ok := structPlanCache.Load(t); ok {\n		return cached.(*structPlan)\n	}','	structPlanMu.RLock()\n	cached, ok := structPlanCache[t]\n	structPlanMu.RUnlock()\n	if ok {\n		return cached\n	}'),(D,LOS,'	structPlanMu.Lock()\n	defer structPlanMu.Unlock()\n	structPlanCache[t] = plan\n	return plan\n')]),
('bad','C19',[(D,'var structPlanCache sync.Map //','var structPlanMu sync.RWMutex\nvar structPlanCache = map[reflect.Type]*structPlan{} //'),(D,'	if cached, ok := structPlanCache.Load(t); ok {\n		return cached.(*structPlan)\n	}','	structPlanMu.RLock()\n	cached, ok := structPlanCache[t]\n	structPlanMu.RUnlock()\n	if ok {\n		return cached\n	}'),(D,LOS,'	structPlanMu.RLock()\n	defer structPlanMu.RUnlock()\n	structPlanCache[t] = plan\n	return plan\n')]),
# publish before filling
('bad','C19',[(D,'	var walk func(t reflect.Type, prefix []int)\n','	structPlanCache.Store(t, plan)\n\n	var walk func(t reflect.Type, prefix []int)\n'),(D,LOS,'	return plan\n')]),
('bad','C19',[(D,LOS,'	actual, _ := structPlanCache.LoadOrStore(t, plan)\n	plan.knownFields["lang"] = true\n	return actual.(*structPlan)\n')]),
('bad','C19',[(D,'			isKnown: plan.knownFields,\n','			isKnown: plan.knownFields,\n'),(D,'	// isKnown shares','	plan.knownFields["objectClassName"] = true\n	// isKnown shares')]),
('bad','C19',[(DD,'	if v, ok := r.values[name]; ok {\n		return v','	if v, ok := r.values[name]; ok {\n		r.isKnown[name] = true\n		return v')]),
('ok','C19,C18',[(D,LOS,'	structPlanCache.Store(t, plan)\n	return plan\n')]),
# global scratch
('bad','C19',[(P,'type Printer struct {','var scratch strings.Builder\n\ntype Printer struct {'),(P,'	if p.IndentSize == 0 {','	scratch.Reset()\n	if p.IndentSize == 0 {')]),
('bad','C19',[(V,'type VCardOptions struct','var valueBuf = make([]string, 0, 16)\n\ntype VCardOptions struct'),(V,'	strs := make([]string, 0, 1)\n','	strs := valueBuf[:0]\n')]),
('bad','C19',[(V,'type VCardOptions struct','var valueBuf = make([]string, 0, 16)\n\ntype VCardOptions struct'),(V,'	strs := make([]string, 0, 1)\n','	strs := valueBuf\n')]),
('bad','C19',[(R,'func escapePath(text string) string {','var escapeBuf [1024]byte\n\nfunc escapePath(text string) string {'),(R,'	escaped := make([]byte, 0, j+(len(text)-j)*3)\n','	escaped := escapeBuf[:0]\n')]),
('bad','C19',[(R,'func escapePath(text string) string {','var escapes = map[string]string{}\n\nfunc escapePath(text string) string {\n	if e, ok := escapes[text]; ok {\n		return e\n	}'),(R,'	return string(escaped)\n','	escapes[text] = string(escaped)\n	return string(escaped)\n')]),
('ok','C19',[(R,'func escapePath(text string) string {','var escapes sync.Map\n\nfunc escapePath(text string) string {\n	if e, ok := escapes.Load(text); ok {\n		return e.(string)\n	}'),(R,'	return string(escaped)\n','	escapes.Store(text, string(escaped))\n	return string(escaped)\n'),(R,'	"strings"\n','	"strings"\n	"sync"\n')]),
('bad','C19',[(BC,'cache.NewMemoryCache()','sharedCache'),(BC,'type Client struct','var sharedCache = cache.NewMemoryCache()\n\ntype Client struct')]),
('bad','C19',[(F,'// NewFile constructs','var parsed int\n\n// NewFile constructs'),(F,'	f := &File{}\n','	f := &File{}\n	parsed++\n')]),
('ok','C19',[(F,'// NewFile constructs','var parsed atomic.Int64\n\n// NewFile constructs'),(F,'	f := &File{}\n','	f := &File{}\n	parsed.Add(1)\n'),(F,'	"net/url"\n','	"net/url"\n	"sync/atomic"\n')]),
('ok','C19',[(F,'// NewFile constructs','var parsedOnce sync.Once\nvar parsed *url.URL\n\n// NewFile constructs'),(F,'	f := &File{}\n','	f := &File{}\n	parsedOnce.Do(func() {\n		parsed, _ = url.Parse("https://x.example")\n	})\n'),(F,'	"net/url"\n','	"net/url"\n	"sync"\n')]),
('bad','C19',[(F,'// NewFile constructs','var parsed *url.URL\n\n// NewFile constructs'),(F,'	f := &File{}\n','	f := &File{}\n	if parsed == nil {\n		parsed, _ = url.Parse("https://x.example")\n	}\n')]),
('bad','C19',[(DN,'	// Lookup the FQDN.\n','	lastQuery = input\n	// Lookup the FQDN.\n'),(DN,'','\nvar lastQuery string\n')]),
('bad','C19',[(W,'func newWhoisStyleResponse() *WhoisStyleResponse {\n	w := &WhoisStyleResponse{}','var emptyWhois = &WhoisStyleResponse{}\n\nfunc newWhoisStyleResponse() *WhoisStyleResponse {\n	w := emptyWhois')]),
('bad','C19',[(D,'type Decoder struct','var noteBuf = map[string][]string{}\n\ntype Decoder struct'),(D,'decodeData.notes = map[string][]string{}','decodeData.notes = noteBuf')]),
('bad','C19',[(C,'	if c.HTTP == nil {','	http.DefaultClient.Timeout = 0\n	if c.HTTP == nil {')]),
]
