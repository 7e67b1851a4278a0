R='request.go'
C='client.go'
P='print.go'
W='response.go'
V='vcard.go'
DD='decode_data.go'
DN='bootstrap/dns_registry.go'
SP='bootstrap/service_provider_registry.go'
AS='bootstrap/asn_registry.go'
NR='bootstrap/net_registry.go'
F='bootstrap/file.go'
BC='bootstrap/client.go'
MC='bootstrap/cache/memory_cache.go'
M=[
('bad','C02',[(R,'		tempURL := new(url.URL)\n		*tempURL = *r.Server\n','		tempURL := r.Server\n')]),
('bad','C02',[(R,'		query := r.Server.Query()\n		maps.Copy(query, r.Params)\n','		query := r.Params\n		if query == nil {\n			query = url.Values{}\n		}\n		for k, v := range r.Server.Query() {\n			if _, ok := query[k]; !ok {\n				query[k] = v\n			}\n		}\n')]),
('bad','C02',[(R,'		query := r.Server.Query()\n		maps.Copy(query, r.Params)\n		maps.Copy(query, values)\n','		query := r.Server.Query()\n		maps.Copy(query, r.Params)\n		maps.Copy(query, values)\n		for _, v := range query {\n			slices.Sort(v)\n		}\n'),(R,'	"net/url"\n','	"net/url"\n	"slices"\n')]),
('bad','C02',[(R,'	r2 := new(Request)\n	*r2 = *r\n	r2.Server = server\n\n	return r2','	r.Server = server\n\n	return r')]),
('bad','C02',[(R,'	if r.ctx == nil {\n		return context.Background()\n	}\n\n	return r.ctx','	if r.ctx == nil {\n		r.ctx = context.Background()\n	}\n\n	return r.ctx')]),
('bad','C02',[(R,'		Server: rdapURL,\n	}','		Server: trimFragment(rdapURL),\n	}'),(R,'','func trimFragment(u *url.URL) *url.URL {\n	if u != nil {\n		u.Fragment = ""\n	}\n\n	return u\n}\n')]),
('bad','C02',[(R,'	return &Request{\n		Type:  IPRequest,\n		Query: net.String(),','	if i := len(net.IP); i == len(net.Mask) {\n		for j := range net.IP {\n			net.IP[j] &= net.Mask[j]\n		}\n	}\n\n	return &Request{\n		Type:  IPRequest,\n		Query: net.String(),')]),
('bad','C02',[(C,'	if req == nil {','	if req != nil {\n		req.Query = strings.TrimSpace(req.Query)\n	}\n	if req == nil {')]),
('bad','C02',[(P,'	for _, s := range d.Status {','	slices.Sort(d.Status)\n	for _, s := range d.Status {')]),
('bad','C02',[(W,'	for _, s := range d.Status {','	slices.Sort(d.Status)\n	for _, s := range d.Status {')]),
('bad','C02',[(W,'	for _, s := range d.Status {','	st := d.Status\n	st = slices.Compact(st)\n	for _, s := range st {')]),
('bad','C02',[(W,'	for _, e := range d.Events {','	ev := d.Events[:0]\n	for _, e := range d.Events {\n		if e.Date != "" {\n			ev = append(ev, e)\n		}\n	}\n	for _, e := range ev {')]),
('ok','C02',[(W,'	for _, e := range d.Events {','	var ev []Event\n	for _, e := range d.Events {\n		if e.Date != "" {\n			ev = append(ev, e)\n		}\n	}\n	for _, e := range ev {')]),
('ok','C02',[(W,'	for _, s := range d.Status {','	st := slices.Clone(d.Status)\n	slices.Sort(st)\n	for _, s := range st {')]),
('bad','C02',[(W,'	for _, e := range entities {\n		if slices.Contains(e.Roles, role) {\n			return &e','	for i := range entities {\n		e := &entities[i]\n		for j, r := range e.Roles {\n			e.Roles[j] = strings.ToLower(r)\n		}\n		if slices.Contains(e.Roles, role) {\n			return e'),(W,'	"slices"\n','	"slices"\n	"strings"\n')]),
('ok','C02',[(W,'	for _, e := range entities {\n		if slices.Contains(e.Roles, role) {\n			return &e','	for i := range entities {\n		e := &entities[i]\n		if slices.Contains(e.Roles, role) {\n			return e')]),
('bad','C02',[(V,'	strs := make([]string, 0, 1)\n\n	p.appendValueStrings(p.Value, &strs)\n\n	return strs','	strs := make([]string, 0, 1)\n\n	p.appendValueStrings(p.Value, &strs)\n	if len(strs) == 1 {\n		p.Value = strs[0]\n	}\n\n	return strs')]),
('bad','C02',[(V,'	var properties []*VCardProperty\n\n	for _, p := range v.Properties {','	properties := v.Properties[:0]\n\n	for _, p := range v.Properties {')]),
('bad','C02',[(V,'	properties := v.Get("tel")\n\n	for _, p := range properties {\n		isVoice','	properties := v.Properties\n	slices.SortStableFunc(properties, func(a, b *VCardProperty) int { return strings.Compare(a.Name, b.Name) })\n	properties = v.Get("tel")\n\n	for _, p := range properties {\n		isVoice')]),
('bad','C02',[(V,'			if slices.Contains(types, "fax") {','			for i := range types {\n				types[i] = strings.ToLower(types[i])\n			}\n			if slices.Contains(types, "fax") {')]),
('bad','C02',[(DD,'	if notes, ok := r.notes[name]; ok {\n		return notes','	if notes, ok := r.notes[name]; ok {\n		delete(r.notes, name)\n		return notes')]),
('bad','C02',[(DN,'	input := question.Query\n	input = strings.TrimSuffix','	question.Query = strings.ToLower(question.Query)\n	input := question.Query\n	input = strings.TrimSuffix')]),
('bad','C02',[(DN,'		if ok {\n			break\n','		if ok {\n			d.dns[input] = urls\n			break\n')]),
('bad','C02',[(DN,'	return &Answer{\n','	sort.Slice(urls, func(i, j int) bool { return urls[i].Scheme > urls[j].Scheme })\n	return &Answer{\n'),(DN,'	"net/url"\n','	"net/url"\n	"sort"\n')]),
('bad','C02',[(DN,'	return &Answer{\n','	for _, u := range urls {\n		u.Fragment = ""\n	}\n	return &Answer{\n')]),
('ok','C02',[(DN,'	return &Answer{\n','	urls = append([]*url.URL(nil), urls...)\n	sort.Slice(urls, func(i, j int) bool { return urls[i].Scheme > urls[j].Scheme })\n	return &Answer{\n'),(DN,'	"net/url"\n','	"net/url"\n	"sort"\n')]),
('bad','C02',[(SP,'	urls, ok := s.services[service]\n','	urls, ok := s.services[service]\n	if !ok {\n		s.services[service] = nil\n	}\n')]),
('bad','C02',[(F,'	if err := json.Unmarshal(jsonDocument','	copy(jsonDocument, bytes.ToLower(jsonDocument))\n	if err := json.Unmarshal(jsonDocument'),(F,'import (\n','import (\n	"bytes"\n')]),
('bad','C02',[(F,'	if err := json.Unmarshal(jsonDocument','	for i, b := range jsonDocument {\n		if b == 0 {\n			jsonDocument[i] = 32\n		}\n	}\n	if err := json.Unmarshal(jsonDocument')]),
('ok','C02',[(F,'	if err := json.Unmarshal(jsonDocument','	jsonDocument = bytes.Clone(jsonDocument)\n	for i, b := range jsonDocument {\n		if b == 0 {\n			jsonDocument[i] = 32\n		}\n	}\n	if err := json.Unmarshal(jsonDocument'),(F,'import (\n','import (\n	"bytes"\n')]),
('bad','C02',[(BC,'func (c *Client) Lookup(question *Question) (*Answer, error) {','func (c *Client) Lookup(question *Question) (*Answer, error) {\n	if question.ctx == nil {\n		question.ctx = context.Background()\n	}\n')]),
('ok','C02',[(R,'	r2 := new(Request)\n	*r2 = *r\n	r2.Server = server\n\n	return r2','	r2 := *r\n	r2.Server = server\n\n	return &r2')]),
('ok','C02',[(R,'	r2 := new(Request)\n	*r2 = *r\n	r2.Server = server\n\n	return r2','	r2 := r.WithContext(r.ctx)\n	r2.Server = server\n\n	return r2')]),
('ok','C02',[(R,'		query := r.Server.Query()\n		maps.Copy(query, r.Params)\n		maps.Copy(query, values)\n','		query := r.Server.Query()\n		for k, v := range r.Params {\n			query[k] = v\n		}\n		for k, v := range values {\n			query[k] = v\n		}\n'),(R,'	"maps"\n','')]),
('ok','C02',[(R,'		tempURL := new(url.URL)\n		*tempURL = *r.Server\n','		temp := *r.Server\n		tempURL := &temp\n')]),
('ok','C02',[(V,'	var properties []*VCardProperty\n\n	for _, p := range v.Properties {','	properties := make([]*VCardProperty, 0, len(v.Properties))\n\n	for _, p := range v.Properties {')]),
('ok','C02',[(V,'	strs := make([]string, 0, 1)\n\n	p.appendValueStrings(p.Value, &strs)\n\n	return strs','	return p.flatten(p.Value, nil)'),(V,'','func (p *VCardProperty) flatten(v any, out []string) []string {\n	p.appendValueStrings(v, &out)\n	return out\n}\n')]),
]
