# Behaviour-preserving refactorings, second round: no rule may alarm.
import re
def rd(f): return open('/repo/'+f).read()
def cut(f,a,b,incl=False):
    "the text of file f from marker a up to marker b"
    s=rd(f); i=s.index(a); j=s.index(b,i+len(a))
    return s[i:j+(len(b) if incl else 0)]
CL='cli.go'; C='client.go'; RQ='request.go'; D='decoder.go'; DD='decode_data.go'; P='print.go'; RS='response.go'; V='vcard.go'
BC='bootstrap/client.go'; AS='bootstrap/asn_registry.go'; DN='bootstrap/dns_registry.go'; NR='bootstrap/net_registry.go'; SP='bootstrap/service_provider_registry.go'; BF='bootstrap/file.go'; DC='bootstrap/cache/disk_cache.go'; MC='bootstrap/cache/memory_cache.go'
M=[]
def ok(*edits): M.append(('ok','*',list(edits)))

# ---- cli.go
# the request switch as a function of its own
sw=cut(CL,'	var req *Request\n	switch *queryType {','	// Determine the server.')
fn=sw.replace('	var req *Request\n	switch *queryType {','	var req *Request\n	switch queryType {').replace('return 1','return nil, false').replace('*queryType','queryType').rstrip()+'\n\n	return req, true\n}\n'
ok((CL,sw,'	req, valid := newCLIRequest(*queryType, queryText, stderr)\n	if !valid {\n		return 1\n	}\n\n'),(CL,'','\nfunc newCLIRequest(queryType, queryText string, stderr io.Writer) (*Request, bool) {\n'+fn))
# with an error instead
fn=sw.replace('switch *queryType','switch queryType').replace('*queryType','queryType')
fn=re.sub(r'printError\(stderr, (fmt\.Sprintf\(.*\))\)\n(\t+)return 1',r'return nil, errors.New(\1)',fn).rstrip()+'\n\n	return req, nil\n}\n'
ok((CL,sw,'	req, err := newCLIRequest(*queryType, queryText)\n	if err != nil {\n		printError(stderr, err.Error())\n		return 1\n	}\n\n'),(CL,'','\nfunc newCLIRequest(queryType, queryText string) (*Request, error) {\n'+fn),(CL,'	"encoding/pem"\n','	"encoding/pem"\n	"errors"\n'))
# search types by table
i=sw.index('	case "entity-search":'); j=sw.index('	default:')
tab=re.findall(r'case ("[^"]*"):\n\t\treq = NewRequest\((\w+),',sw[i:j])
ok((CL,sw[i:j],''),(CL,'	default:\n		printError(stderr, fmt.Sprintf("Unknown query type','	default:\n		if st, ok := searchTypes[*queryType]; ok {\n			req = NewRequest(st, queryText)\n			break\n		}\n		printError(stderr, fmt.Sprintf("Unknown query type'),(CL,'','\nvar searchTypes = map[string]RequestType{\n'+''.join('	%s: %s,\n'%x for x in tab)+'}\n'))
# output as a function
out=cut(CL,'	// Output formatting.\n','	_ = fetchRolesFlag')
fo=out
for v in ('outputFormatText','outputFormatWhois','outputFormatJSON','outputFormatRaw'): fo=fo.replace('*'+v,v)
ok((CL,out,'	code := writeOutput(resp, stdout, stderr, *outputFormatText, *outputFormatWhois, *outputFormatJSON, *outputFormatRaw)\n'),(CL,'	_ = fetchRolesFlag\n\n	return 0\n','	_ = fetchRolesFlag\n\n	return code\n'),(CL,'','\nfunc writeOutput(resp *Response, stdout, stderr io.Writer, outputFormatText, outputFormatWhois, outputFormatJSON, outputFormatRaw bool) int {\n'+fo.rstrip()+'\n\n	return 0\n}\n'))
# body variable
ok((CL,'	// Print the raw response out?\n','	body := resp.HTTP[len(resp.HTTP)-1].Body\n\n	// Print the raw response out?\n'),(CL,'fmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)','_, _ = stdout.Write(body)'),(CL,'json.Indent(&out, resp.HTTP[len(resp.HTTP)-1].Body, "", "  ")','json.Indent(&out, body, "", "  ")'))
# whois output in a helper with a builder
ok((CL,cut(CL,'		for _, key := range w.KeyDisplayOrder {','	_ = fetchRolesFlag'),'		writeWhois(stdout, w)\n	}\n\n'),(CL,'','\nfunc writeWhois(w io.Writer, r *WhoisStyleResponse) {\n	for i := range r.KeyDisplayOrder {\n		key := r.KeyDisplayOrder[i]\n		values := r.Data[key]\n		for j := 0; j < len(values); j++ {\n			fmt.Fprintf(w, "%s: %s\\n", key, safePrint(values[j]))\n		}\n	}\n}\n'))
# safePrint
sp=cut(CL,'func safePrint(','func printError(')
ok((CL,sp,'func safePrint(v string) string {\n	var b strings.Builder\n	for _, r := range v {\n		switch {\n		case r == 0:\n		case r == \'\\n\' || r == \'\\r\':\n			b.WriteByte(\' \')\n		default:\n			b.WriteRune(r)\n		}\n	}\n\n	return b.String()\n}\n\n'))
ok((CL,sp,'func safePrint(v string) string {\n	v = strings.ReplaceAll(v, "\\000", "")\n	v = strings.ReplaceAll(v, "\\n", " ")\n	return strings.ReplaceAll(v, "\\r", " ")\n}\n\n'))
ok((CL,sp,'var lineBreaks = strings.NewReplacer("\\000", "", "\\n", " ", "\\r", " ")\n\nfunc safePrint(v string) string {\n	return lineBreaks.Replace(v)\n}\n\n'))
# certificates in a function
ce=cut(CL,'	var clientCert tls.Certificate\n','	// Custom HTTP client. Used to disable')
fc=ce.replace('options.Sandbox','sandboxed').replace('tlsConfig.Certificates = append(tlsConfig.Certificates, clientCert)','certs = append(certs, clientCert)').replace('return 1','return nil, false')
for v in ('clientCertFilename','clientKeyFilename','clientP12FilenameAndPassword'): fc=fc.replace('*'+v,v)
ok((CL,ce,'	certs, loaded := clientCertificates(*clientCertFilename, *clientKeyFilename, *clientP12FilenameAndPassword, options.Sandbox, stderr, verbose)\n	if !loaded {\n		return 1\n	}\n	tlsConfig.Certificates = certs\n\n'),(CL,'','\nfunc clientCertificates(clientCertFilename, clientKeyFilename, clientP12FilenameAndPassword string, sandboxed bool, stderr io.Writer, verbose func(string)) ([]tls.Certificate, bool) {\n	var certs []tls.Certificate\n'+fc.rstrip()+'\n\n	return certs, true\n}\n'))
# p12 with strings.Cut
pz=cut(CL,'		p12FilenameAndPassword := strings.SplitAfterN','		var p12 []byte')
rest=cut(CL,'		var p12 []byte','	// Custom HTTP client. Used')
ok((CL,pz+rest,'		p12File, p12Password, _ := strings.Cut(*clientP12FilenameAndPassword, ":")\n\n'+rest.replace('p12FilenameAndPassword[0]','p12File').replace('p12FilenameAndPassword[1]','p12Password')))
# cache set-up in a function
ca=cut(CL,'	// Custom bootstrap cache type/directory?\n','	// Use experimental bootstrap service URL?')
fa=ca.replace('*cacheDirFlag','dir').replace('options.Sandbox','sandboxed').replace('bs.Cache = cache.NewMemoryCache()\n\n		verbose("rdap: Using in-memory cache")','verbose("rdap: Using in-memory cache")\n\n		return cache.NewMemoryCache(), true').replace('return 1','return nil, false').replace('bs.Cache = dc','return dc, true').rstrip()
ok((CL,ca,'	registryCache, made := newCLICache(*cacheDirFlag, options.Sandbox, stderr, verbose)\n	if !made {\n		return 1\n	}\n	bs.Cache = registryCache\n\n'),(CL,'','\nfunc newCLICache(dir string, sandboxed bool, stderr io.Writer, verbose func(string)) (cache.RegistryCache, bool) {\n'+fa+'\n}\n'))
# transport and client made earlier / in a helper
tr=cut(CL,'	// Custom HTTP client. Used to disable','	client := &Client{')
ok((CL,tr,'	newClient := func() *http.Client {\n		return &http.Client{Transport: &http.Transport{Proxy: http.ProxyFromEnvironment, TLSClientConfig: tlsConfig}}\n	}\n	bs.HTTP = newClient()\n	httpClient := newClient()\n\n'))
# the parser in a struct
ok((CL,'	experiments := map[string]bool{\n		"test_rdap_net": false,\n		"object_tag":    false,\n		"sandbox":       false,\n	}\n','	experiments := make(map[string]bool)\n	for _, name := range []string{"test_rdap_net", "object_tag", "sandbox"} {\n		experiments[name] = false\n	}\n'))
ok((CL,'	if experiments["sandbox"] {\n		options.Sandbox = true\n	}\n','	options.Sandbox = options.Sandbox || experiments["sandbox"]\n'))
ok((CL,'	terminate := false\n	app.Terminate(func(int) {\n		terminate = true\n	})\n','	var terminate bool\n	requestExit := func(int) { terminate = true }\n	app.Terminate(requestExit)\n'))
ok((CL,'	if err != nil {\n		printError(stderr, fmt.Sprintf("Error: %s\\n\\n%s", err, usageText))\n		return 1\n	} else if terminate {\n		// Occurs when kingpin prints the --help message.\n		return 1\n	}\n','	switch {\n	case err != nil:\n		printError(stderr, fmt.Sprintf("Error: %s\\n\\n%s", err, usageText))\n		return 1\n	case terminate:\n		return 1\n	}\n'))
# exit codes by named constants, single exit helper
ok((CL,'','\nconst exitFailure = 1\n\nfunc fail(stderr io.Writer, format string, a ...any) int {\n	printError(stderr, fmt.Sprintf(format, a...))\n	return exitFailure\n}\n'),(CL,'			printError(stderr, fmt.Sprintf("Invalid ASN \'%s\'", queryText))\n			return 1\n','			return fail(stderr, "Invalid ASN \'%s\'", queryText)\n'),(CL,'			printError(stderr, fmt.Sprintf("Invalid IP \'%s\'", queryText))\n			return 1\n','			return fail(stderr, "Invalid IP \'%s\'", queryText)\n'),(CL,'	if err != nil {\n		printError(stderr, fmt.Sprintf("Error: %s", err))\n		return 1\n	}\n','	if err != nil {\n		return fail(stderr, "Error: %s", err)\n	}\n'))
# server block merged
ok((CL,cut(CL,'	// Determine the server.\n','		serverURL, err := url.Parse(*serverFlag)'),'	if *serverFlag != "" {\n		if req.Server != nil {\n			printError(stderr, fmt.Sprintf("--server option cannot be used with query type %s", req.Type))\n			return 1\n		}\n\n'))
# timeout variable
ok((CL,'context.WithTimeout(context.Background(), time.Duration(*timeoutFlag)*time.Second)','context.WithTimeout(context.Background(), timeout)'),(CL,'	// Set the request timeout.\n','	timeout := time.Second * time.Duration(*timeoutFlag)\n'))
# sandbox @ check by slices.ContainsFunc style loop helper
ok((CL,cut(CL,'	if options.Sandbox {\n		for _, arg := range args {','	// Setup command line'),'	if options.Sandbox {\n		if arg, found := fileArgument(args); found {\n			printError(stderr, fmt.Sprintf("Error: \'%s\' not allowed (sandbox mode enabled)", arg))\n			return 1\n		}\n	}\n\n'),(CL,'','\nfunc fileArgument(args []string) (string, bool) {\n	for i := range args {\n		if len(args[i]) > 0 && args[i][0] == \'@\' {\n			return args[i], true\n		}\n	}\n\n	return "", false\n}\n'))

# ---- client.go
do=rd(C)
try_=cut(C,'		httpResponse := c.get(r)\n		resp.HTTP','	return resp, &ClientError{\n		Type: NoWorkingServers')
# candidates in a helper
cand=cut(C,'		bootstrapType := bootstrapTypeFor(req)','	for i, r := range reqs {')
fcand=cand.rstrip()[:-1].rstrip()
fcand=fcand.replace('return nil, &ClientError','return nil, nil, &ClientError').replace('resp.BootstrapAnswer = answer\n','').replace('return resp, err','return nil, answer, err').replace('return resp, &ClientError','return nil, answer, &ClientError').replace('\n		for _, u','\n		var reqs []*Request\n		for _, u')
ok((C,'	} else if req.Server == nil {\n','	} else {\n'),(C,cand,'		var err error\n		reqs, resp.BootstrapAnswer, err = c.candidates(req)\n		if err != nil {\n			if resp.BootstrapAnswer == nil && bootstrapTypeFor(req) == nil {\n				return nil, err\n			}\n			return resp, err\n		}\n	}\n\n'),(C,'','\nfunc (c *Client) candidates(req *Request) ([]*Request, *bootstrap.Answer, error) {\n'+fcand+'\n\n	return reqs, answer, nil\n}\n'))
# decode in a helper
ok((C,cut(C,'				// Decode the response.\n','				if httpResponse.Error != nil {'),'				c.decodeInto(resp, httpResponse)\n\n'),(C,'','\nfunc (c *Client) decodeInto(resp *Response, hr *HTTPResponse) {\n	obj, err := NewDecoder(hr.Body).Decode()\n	resp.Object = obj\n	hr.Error = err\n}\n'))
# guard clauses instead of nested else
ok((C,cut(C,'		if httpResponse.Error != nil {\n			c.Verbose(fmt.Sprintf("client: error','	return resp, &ClientError{\n		Type: NoWorkingServers'),'''		if err := httpResponse.Error; err != nil {
			c.Verbose(fmt.Sprintf("client: error: %s", err))

			if errors.Is(r.Context().Err(), context.DeadlineExceeded) {
				return resp, err
			}

			continue
		}

		status := httpResponse.Response.StatusCode
		c.Verbose(fmt.Sprintf("client: status-code=%d, length=%d bytes", status, len(httpResponse.Body)))

		switch {
		case isSuccess(status) && len(httpResponse.Body) != 0:
			resp.Object, httpResponse.Error = NewDecoder(httpResponse.Body).Decode()
			if httpResponse.Error == nil {
				c.Verbose("client: Successfully decoded response")
				return resp, nil
			}

			c.Verbose(fmt.Sprintf("client: Error decoding response: %s", httpResponse.Error))
		case status == http.StatusNotFound:
			return resp, &ClientError{
				Type: ObjectDoesNotExist,
				Text: "RDAP server returned 404, object does not exist.",
			}
		}
	}

'''),(C,'','\nfunc isSuccess(status int) bool {\n	return status/100 == 2\n}\n'))
ok((C,'	var reqs []*Request\n','	reqs := make([]*Request, 0, 4)\n'),(C,'		reqs = []*Request{req}\n','		reqs = append(reqs, req)\n'))
ok((C,'		for _, u := range answer.URLs {\n			reqs = append(reqs, req.WithServer(u))\n		}\n','		reqs = make([]*Request, len(answer.URLs))\n		for i := range answer.URLs {\n			reqs[i] = req.WithServer(answer.URLs[i])\n		}\n'))
ok((C,'	for _, r := range reqs {\n		c.Verbose(fmt.Sprintf("client: GET','	for n := 0; n < len(reqs); n++ {\n		r := reqs[n]\n		c.Verbose(fmt.Sprintf("client: GET'))
# defaults in an init function
dfl=cut(C,'	// Init HTTP client?\n','	c.Verbose("")\n')
ok((C,dfl,'	c.init()\n\n'),(C,'','\nfunc (c *Client) init() {\n'+dfl.rstrip()+'\n}\n'))
# get: error helper
ok((C,cut(C,'	req, err := http.NewRequestWithContext(','	// Optionally add User-Agent'),'	req, err := http.NewRequestWithContext(rdapReq.Context(), "GET", rdapURL.String(), nil)\n	if err != nil {\n		httpResponse.Duration = time.Since(start)\n		httpResponse.Error = err\n		return httpResponse\n	}\n\n'),(C,'req.Header.Add("Accept"','req.Header.Set("Accept"'),(C,'req.Header.Add("User-Agent"','req.Header.Set("User-Agent"'))
ok((C,'	defer resp.Body.Close()\n	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n\n	httpResponse.Duration = time.Since(start)\n\n	return httpResponse\n','	body, err := io.ReadAll(resp.Body)\n	_ = resp.Body.Close()\n	httpResponse.Body = body\n	httpResponse.Error = err\n	httpResponse.Duration = time.Since(start)\n\n	return httpResponse\n'))
ok((C,'	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n','	var buf bytes.Buffer\n	_, httpResponse.Error = buf.ReadFrom(resp.Body)\n	httpResponse.Body = buf.Bytes()\n'),(C,'import (\n','import (\n	"bytes"\n'),(C,'	"io"\n',''))
ok((C,'	httpResponse.Duration = time.Since(start)\n\n	return httpResponse\n}\n\n// QueryDomain','	return httpResponse\n}\n\n// QueryDomain'),(C,'	start := time.Now()\n\n	// Set up','	start := time.Now()\n	defer func() {\n		httpResponse.Duration = time.Since(start)\n	}()\n\n	// Set up'))

# ---- decoder.go, decode_data.go
# target chosen in a function
tt=cut(D,'	if d.target != nil {\n		// Target already','	// Construct the result type.\n')
fn_=tt.replace('	if d.target != nil {\n		// Target already selected, e.g. tests use this.\n	} else if','	if').replace('d.target = ','return ').replace('return nil, DecoderError','return nil, DecoderError')
ft='''
func targetFor(src map[string]any) (any, error) {
	if _, exists := src["errorCode"]; exists {
		return &Error{}, nil
	}

	if o, exists := src["objectClassName"]; exists {
		name, isString := o.(string)
		if !isString {
			return nil, DecoderError{text: "objectClassName is not a string"}
		}

		if mk, known := objectClasses[name]; known {
			return mk(), nil
		}

		return nil, DecoderError{text: "objectClassName is not recognised"}
	}

	switch {
	case has(src, "domainSearchResults"):
		return &DomainSearchResults{}, nil
	case has(src, "entitySearchResults"):
		return &EntitySearchResults{}, nil
	case has(src, "nameserverSearchResults"):
		return &NameserverSearchResults{}, nil
	}

	return &Help{}, nil
}

var objectClasses = map[string]func() any{
	"autnum":     func() any { return &Autnum{} },
	"domain":     func() any { return &Domain{} },
	"entity":     func() any { return &Entity{} },
	"ip network": func() any { return &IPNetwork{} },
	"nameserver": func() any { return &Nameserver{} },
}

func has(m map[string]any, key string) bool {
	_, ok := m[key]
	return ok
}
'''
ok((D,tt,'	if d.target == nil {\n		target, err := targetFor(src)\n		if err != nil {\n			return nil, err\n		}\n		d.target = target\n	}\n\n'),(D,'',ft))
ok((D,tt,'	if d.target == nil {\n		target, err := targetFor(src)\n		if err != nil {\n			return nil, err\n		}\n		d.target = target\n	}\n\n'),(D,'',ft.replace('''		if mk, known := objectClasses[name]; known {
			return mk(), nil
		}

		return nil,''','''		switch name {
		case "autnum":
			return &Autnum{}, nil
		case "domain":
			return &Domain{}, nil
		case "entity":
			return &Entity{}, nil
		case "ip network":
			return &IPNetwork{}, nil
		case "nameserver":
			return &Nameserver{}, nil
		}

		return nil,''').split('var objectClasses')[0]+'func has(m map[string]any, key string) bool {\n	_, ok := m[key]\n	return ok\n}\n'))
ok((D,cut(D,'	var s map[string]any\n	var err error\n','// decodeTopLevel decodes'),'	var s map[string]any\n	if err := json.Unmarshal(d.data, &s); err != nil {\n		return nil, err\n	}\n\n	return d.decodeTopLevel(s)\n}\n\n'))
# direct returns in decode
dk=cut(D,'	var success bool\n	var err error\n\n	// Choose and run','// decodeSlice decodes')
nd=re.sub(r'success = (d\.decode\w+\(.*\))',r'return \1, nil',dk); nd=re.sub(r'success, err = (d\.decode\w+\(.*\))',r'return \1',nd)
nd=nd.replace('	var success bool\n	var err error\n\n','').replace('\n	return success, err\n','')
ok((D,dk,nd))
# slice decoded by index into a fixed list, kept ones compacted
ok((D,cut(D,'	// Foreach value in the input slice...\n','	dst.Set(result)\n'),'''	elem := dst.Type().Elem()
	for i := 0; i < len(srcSlice); i++ {
		item := reflect.New(elem).Elem()

		kept, err := d.decode(keyName, srcSlice[i], item, decodeData)
		switch {
		case err != nil:
			return false, err
		case !kept:
			continue
		}

		result = reflect.Append(result, item)
	}

'''))
ok((D,cut(D,'		// Construct the result value.\n		vdst := reflect.New(dst.Type().Elem())\n\n		// Decode into the result value.\n		success, err := d.decode(keyName+":"+k','	dst.Set(result)\n'),'''		item := reflect.New(dst.Type().Elem()).Elem()

		kept, err := d.decode(fmt.Sprintf("%s:%s", keyName, k), v, item, decodeData)
		if err != nil {
			return false, err
		}

		if !kept {
			continue
		}

		result.SetMapIndex(reflect.ValueOf(k), item)
	}

'''),(D,'import (\n','import (\n	"fmt"\n'))
# range tables in helpers
ri=cut(D,'		var minVal int64\n','		if result < minVal || result > maxVal {')
ok((D,ri,'		minVal, maxVal := intRange(dst.Kind())\n\n'),(D,'','\nfunc intRange(k reflect.Kind) (int64, int64) {\n	switch k {\n	case reflect.Int8:\n		return math.MinInt8, math.MaxInt8\n	case reflect.Int16:\n		return math.MinInt16, math.MaxInt16\n	case reflect.Int32:\n		return math.MinInt32, math.MaxInt32\n	case reflect.Int64:\n		return math.MinInt64, math.MaxInt64\n	default:\n		panic("Unexpected int type")\n	}\n}\n'))
ok((D,ri,''),(D,'		if result < minVal || result > maxVal {','		if dst.OverflowInt(result) {'))
# early returns in decodeBool/String
ok((D,cut(D,'func (d *Decoder) decodeString(','// decodeBool decodes'),'''func (d *Decoder) decodeString(keyName string, src any, dst reflect.Value, decodeData *DecodeData) bool {
	text, note, ok := textOf(src)
	if note != "" {
		d.addDecodeNote(decodeData, keyName, note)
	}

	dst.SetString(text)

	return ok
}

func textOf(src any) (text string, note string, ok bool) {
	switch v := src.(type) {
	case string:
		return v, "", true
	case nil:
		return "", "null to empty string conversion", true
	case bool:
		return strconv.FormatBool(v), "bool to string conversion", true
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64), "float64 to string conversion", true
	}

	return "", "invalid JSON type, expecting string", false
}

'''))
ok((D,cut(D,'		f := s\n		if f != 0 {','		d.addDecodeNote(decodeData, keyName, "float64 to bool conversion")'),'		result = s != 0\n'))
# note helper as a method
ok((D,cut(D,'	if decodeData == nil {\n		return\n	}\n','',) if False else '	if decodeData.notes == nil {\n		decodeData.notes = map[string][]string{}\n	}\n\n	decodeData.notes[key] = append(decodeData.notes[key], msg)\n','	decodeData.note(key, msg)\n'),(DD,'','\nfunc (r *DecodeData) note(key, msg string) {\n	if r.notes == nil {\n		r.notes = make(map[string][]string)\n	}\n\n	l := r.notes[key]\n	r.notes[key] = append(l, msg)\n}\n'))
# pointers
ok((D,cut(D,'	var success bool\n	var err error\n\n	if dst.Type().Elem().Name() == "VCard" {','// addDecodeNote adds'),'''	if dst.Type().Elem().Name() == "VCard" {
		return d.decodeVCard(keyName, src, dst, decodeData), nil
	}

	if !dst.IsNil() {
		return d.decode(keyName, src, dst.Elem(), decodeData)
	}

	value := reflect.New(dst.Type().Elem())

	success, err := d.decode(keyName, src, value.Elem(), decodeData)
	if success {
		dst.Set(value)
	}

	return success, err
}

func (d *Decoder) decodeVCard(keyName string, src any, dst reflect.Value, decodeData *DecodeData) bool {
	vcard, err := newVCardImpl(src, VCardOptions{})
	if err != nil {
		d.addDecodeNote(decodeData, keyName, err.Error())
		return false
	}

	dst.Set(reflect.ValueOf(vcard))

	return true
}

'''))
# the plan: fields as a list of structs walked recursively by a method
ok((D,'''	// Decode each JSON field that has a matching Go field.
	for name, value := range srcMap {
		if index, ok := plan.fieldIndex[name]; ok {
			if _, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData); err != nil {
				return false, err
			}
		}
	}
''','''	// Decode each Go field that has a matching JSON field.
	for name, index := range plan.fieldIndex {
		value, present := srcMap[name]
		if !present {
			continue
		}

		_, err := d.decode(name, value, dst.FieldByIndex(index), myDecodeData)
		if err != nil {
			return false, err
		}
	}
'''))
ok((D,'			index := append(append([]int{}, prefix...), i)\n','			index := make([]int, 0, len(prefix)+1)\n			index = append(index, prefix...)\n			index = append(index, i)\n'))
ok((D,cut(D,'	plan := &structPlan{\n','	actual, _ := structPlanCache.LoadOrStore'),'	plan := buildStructPlan(t)\n\n'),(D,'','\nfunc buildStructPlan(t reflect.Type) *structPlan {\n'+cut(D,'	plan := &structPlan{\n','	actual, _ := structPlanCache.LoadOrStore').rstrip()+'\n\n	return plan\n}\n'))
ok((DD,'	if v, ok := r.values[name]; ok {\n		return v\n	}\n\n	return nil\n','	return r.values[name]\n'),(DD,'	if notes, ok := r.notes[name]; ok {\n		return notes\n	}\n\n	return nil\n','	return r.notes[name]\n'))
ok((DD,'		if _, isKnown := r.isKnown[f]; !isKnown {\n			fields = append(fields, f)\n		}\n','		if r.isKnown[f] {\n			continue\n		}\n\n		fields = append(fields, f)\n'))
ok((DD,'	var fields []string\n\n	for f := range r.values {\n		fields = append(fields, f)\n	}\n\n	return fields\n','	fields := make([]string, 0, len(r.values))\n\n	for f := range r.values {\n		fields = append(fields, f)\n	}\n\n	sort.Strings(fields)\n\n	return fields\n'),(DD,'import ','import "sort"\n\nimport '))
ok((DD,'	var fields []string\n\n	for f := range r.values {\n		if _','	fields := []string{}\n\n	for _, f := range r.Fields() {\n		if _'))

# ---- request.go
pv=cut(RQ,'func (r *Request) pathAndValues()','// URL constructs and returns')
ok((RQ,'	if r.Type == RawRequest {\n		resultURL = new(url.URL)\n		*resultURL = *r.Server\n	} else {','	if r.Type == RawRequest {\n		copied := *r.Server\n		resultURL = &copied\n	} else {'))
ok((RQ,'		if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != \'/\' {\n			tempURLString += "/"\n		}\n\n		tempURLString += path\n','		tempURLString = strings.TrimSuffix(tempURLString, "/") + "/" + path\n'))
ok((RQ,'		if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != \'/\' {\n','		if !strings.HasSuffix(tempURLString, "/") {\n'))
ok((RQ,'		maps.Copy(query, r.Params)\n		maps.Copy(query, values)\n','		for k, v := range r.Params {\n			query[k] = v\n		}\n		for k, v := range values {\n			query[k] = v\n		}\n'),(RQ,'	"maps"\n',''))
ok((RQ,cut(RQ,'	path, values := r.pathAndValues()\n','// WithContext returns a copy'),'''	if r.Type == RawRequest {
		raw := *r.Server
		return &raw
	}

	path, values := r.pathAndValues()

	base := *r.Server
	base.RawQuery, base.Fragment, base.ForceQuery = "", "", false

	text := base.String()
	if n := len(text); n == 0 || text[n-1] != '/' {
		text += "/"
	}

	result, err := url.Parse(text + path)
	if err != nil {
		return nil
	}

	query := r.Server.Query()
	maps.Copy(query, r.Params)
	maps.Copy(query, values)

	result.RawQuery = query.Encode()
	result.Fragment = r.Server.Fragment

	return result
}

'''))
ok((RQ,cut(RQ,'	// Find the first byte that needs escaping.','func shouldPathEscape('),'''	const hex = "0123456789ABCDEF"

	var b strings.Builder
	for i := 0; i < len(text); i++ {
		c := text[i]
		if shouldPathEscape(c) {
			b.WriteByte('%')
			b.WriteByte(hex[c>>4])
			b.WriteByte(hex[c&15])
		} else {
			b.WriteByte(c)
		}
	}

	return b.String()
}

'''))
ok((RQ,cut(RQ,"	if ('A' <= b && b <= 'Z')",'	return true\n}'),'''	switch {
	case b >= 'A' && b <= 'Z', b >= 'a' && b <= 'z', b >= '0' && b <= '9':
		return false
	case strings.IndexByte("-_.~$&+:=@", b) >= 0:
		return false
	}

'''))
ok((RQ,cut(RQ,"	if ('A' <= b && b <= 'Z')",'// NewHelpRequest'),'''	return !unescaped[b]
}

var unescaped = func() (t [256]bool) {
	for _, c := range []byte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~$&+:=@") {
		t[c] = true
	}

	return t
}()

'''))
ok((RQ,'	r2 := new(Request)\n	*r2 = *r\n	r2.ctx = ctx\n\n	return r2\n','	r2 := *r\n	r2.ctx = ctx\n\n	return &r2\n'),(RQ,'	r2 := new(Request)\n	*r2 = *r\n	r2.Server = server\n\n	return r2\n','	r2 := r.clone()\n	r2.Server = server\n\n	return r2\n'),(RQ,'','\nfunc (r *Request) clone() *Request {\n	c := *r\n	return &c\n}\n'))

# ---- NewAutoRequest
ok((RQ,'	ip := net.ParseIP(queryText)\n	if ip != nil {\n		return NewIPRequest(ip)\n	}\n','	if ip := net.ParseIP(queryText); ip != nil {\n		return NewIPRequest(ip)\n	}\n'),(RQ,'	autnum, err := parseAutnum(queryText)\n	if err == nil {\n		return NewAutnumRequest(autnum)\n	}\n\n	// Looks like a domain name?\n	if strings.Contains(queryText, ".") {\n		return NewDomainRequest(queryText)\n	}\n\n	// Otherwise call it an entity query.\n	return NewEntityRequest(queryText)\n','	autnum, err := parseAutnum(queryText)\n\n	switch {\n	case err == nil:\n		return NewAutnumRequest(autnum)\n	case strings.ContainsRune(queryText, \'.\'):\n		return NewDomainRequest(queryText)\n	default:\n		return NewEntityRequest(queryText)\n	}\n'))
ok((RQ,cut(RQ,'	// Full RDAP URL?\n','	// IP address?\n'),'	if req := urlRequest(queryText); req != nil {\n		return req\n	}\n\n'),(RQ,'	autnum, err := parseAutnum(queryText)\n	if err == nil','	autnum, err := parseAutnum(queryText)\n	if err == nil'),(RQ,'','''
func urlRequest(text string) *Request {
	u, err := url.Parse(text)
	if err != nil {
		return nil
	}

	if u.Scheme != "http" && u.Scheme != "https" {
		return nil
	}

	if len(strings.TrimPrefix(u.Path, "/")) == 0 {
		return NewDomainRequest(u.Host)
	}

	return NewRawRequest(u)
}
'''))
ok((RQ,cut(RQ,'	// Full RDAP URL?\n','	// IP address?\n'),'	if req := urlRequest(queryText); req != nil {\n		return req\n	}\n\n'),(RQ,'','''
func urlRequest(text string) *Request {
	u, err := url.Parse(text)
	if err != nil {
		return nil
	}

	switch u.Scheme {
	case "http", "https":
		if u.Path != "" && u.Path != "/" {
			return NewRawRequest(u)
		}

		return NewDomainRequest(u.Host)
	}

	return nil
}
'''))
ok((RQ,cut(RQ,'	autnum = strings.ToUpper(autnum)\n','	if err != nil {\n		return 0, err'),'	result, err := strconv.ParseUint(strings.TrimPrefix(strings.ToLower(autnum), "as"), 10, 32)\n'))

# ---- response.go
ok((RS,cut(RS,'	if _, exists := w.Data[key]; !exists {','func newWhoisStyleResponse('),'	values, exists := w.Data[key]\n	if !exists {\n		w.KeyDisplayOrder = append(w.KeyDisplayOrder, key)\n	}\n\n	w.Data[key] = append(values, value)\n}\n\n'))
ok((RS,cut(RS,'	w.add(t+" Name", v.Name())','func findFirstEntity('),'''	for _, f := range []struct{ label, value string }{
		{"Name", v.Name()},
		{"PO Box", v.POBox()},
		{"Extended Address", v.ExtendedAddress()},
		{"Street", v.StreetAddress()},
		{"Locality", v.Locality()},
		{"Post Code", v.PostalCode()},
		{"Country", v.Country()},
		{"Tel", v.Tel()},
		{"Fax", v.Fax()},
		{"Email", v.Email()},
	} {
		w.add(t+" "+f.label, f.value)
	}
}

'''))
ok((RS,cut(RS,'	addEntityFields(w, "Registrant"','	// "Name Server"'),'''	for _, c := range [][2]string{
		{"Registrant", "registrant"},
		{"Admin", "administrative"},
		{"Tech", "technical"},
		{"Abuse", "abuse"},
	} {
		addEntityFields(w, c[0], findFirstEntity(c[1], d.Entities))
	}

'''))
ok((RS,cut(RS,'	for _, e := range d.Events {','	// Registrar fields.'),'''	for i := range d.Events {
		if label, ok := eventLabels[d.Events[i].Action]; ok {
			w.add(label, d.Events[i].Date)
		}
	}

'''),(RS,'','''
var eventLabels = map[string]string{
	"last changed": "Updated Date",
	"registration": "Creation Date",
	"expiration":   "Expiration Date",
}
'''))
ok((RS,cut(RS,'	for _, e := range entities {','	return nil\n}'),'''	for i := range entities {
		for _, have := range entities[i].Roles {
			if have == role {
				return &entities[i]
			}
		}
	}

'''),(RS,'	"slices"\n',''))
ok((RS,cut(RS,'	registrar := findFirstEntity(','	// "Domain Status"'),'	addRegistrar(w, findFirstEntity("registrar", d.Entities))\n\n'),(RS,'','''
func addRegistrar(w *WhoisStyleResponse, registrar *Entity) {
	if registrar == nil {
		return
	}

	if registrar.VCard != nil {
		w.add("Registrar", registrar.VCard.Name())
	}

	for _, id := range registrar.PublicIDs {
		if id.Type != "IANA Registrar ID" {
			continue
		}

		w.add("Registrar IANA ID", id.Identifier)
	}
}
'''))
ok((RS,'	d, ok := r.Object.(*Domain)\n	if !ok {\n		return w\n	}\n','	var d *Domain\n	switch o := r.Object.(type) {\n	case *Domain:\n		d = o\n	default:\n		return w\n	}\n'))

# ---- vcard.go
ok((V,cut(V,'	properties := v.Get(name)\n\n	if len(properties) == 0 {','func vCardError('),'	for _, p := range v.Properties {\n		if p.Name == name {\n			return p\n		}\n	}\n\n	return nil\n}\n\n'))
ok((V,cut(V,'	properties := v.Get("tel")\n\n	for _, p := range properties {\n		isVoice','// Fax'),'''	return v.firstTel(func(types []string, given bool) bool {
		return !given || slices.Contains(types, "voice")
	})
}

func (v *VCard) firstTel(want func(types []string, given bool) bool) string {
	for _, p := range v.Get("tel") {
		types, given := p.Parameters["type"]
		if !want(types, given) {
			continue
		}

		if values := p.Values(); len(values) > 0 {
			return values[0]
		}
	}

	return ""
}

'''),(V,cut(V,'	properties := v.Get("tel")\n\n	for _, p := range properties {\n		if types','// Email'),'''	return v.firstTel(func(types []string, given bool) bool {
		return given && slices.Contains(types, "fax")
	})
}

'''))
ok((V,cut(V,'	var p any\n	for _, p = range top[1].([]any) {','	return v, nil\n'),'''	for i := range properties {
		property, err := decodeVCardProperty(properties[i])

		switch {
		case err == nil:
			v.Properties = append(v.Properties, property)
		case !options.IgnoreInvalidProperties:
			return nil, err
		}
	}

'''))
ok((V,cut(V,'	strs := make([]string, 0, 1)\n','func (v *VCard) String()') if False else cut(V,'	strs := make([]string, 0, 1)\n\n','func (p *VCardProperty) appendValueStrings'),'	var strs []string\n	p.appendValueStrings(p.Value, &strs)\n\n	if strs == nil {\n		strs = []string{}\n	}\n\n	return strs\n}\n\n'))
ok((V,'	params := map[string][]string{}\n\n	if _, ok := p.(map[string]any); !ok {\n		return nil, vCardError("jCard parameters invalid")\n	}\n\n	for k, v := range p.(map[string]any) {','	m, ok := p.(map[string]any)\n	if !ok {\n		return nil, vCardError("jCard parameters invalid")\n	}\n\n	params := make(map[string][]string, len(m))\n\n	for k, v := range m {'))
ok((V,cut(V,'	components, ok := adr.Value.([]any)\n','	values := make([]string, 0, 1)\n'),'	components := []any{adr.Value}\n	if list, ok := adr.Value.([]any); ok {\n		components = list\n	}\n\n	if len(components) <= index {\n		return ""\n	}\n\n'))
ok((V,'	if len(a) == 4 {\n		value, err = readValue(a[3], 0)\n	} else {\n		value, err = readValue(a[3:], 0)\n	}\n','	raw := a[3]\n	if len(a) > 4 {\n		raw = a[3:]\n	}\n\n	value, err = readValue(raw, 0)\n'))
ok((V,'		result := make([]any, 0, len(val))\n\n		for _, v2 := range val {\n			v3, err := readValue(v2, depth+1)\n			if err != nil {\n				return nil, err\n			}\n\n			result = append(result, v3)\n		}\n','		result := make([]any, len(val))\n\n		for i := range val {\n			item, err := readValue(val[i], depth+1)\n			if err != nil {\n				return nil, err\n			}\n\n			result[i] = item\n		}\n'))

# ---- bootstrap
ok((BC,cut(BC,'	forceDownload := state == cache.Absent','		c.Verbose(fmt.Sprintf("  bootstrap: Downloading'),'''	forceDownload := false

	switch state {
	case cache.Absent, cache.Expired:
		forceDownload = true
	case cache.ShouldReload:
		err := c.reloadFromCache(registry)
		if err != nil {
			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
		}

		forceDownload = err != nil
	}

	if _, loaded := c.registries[registry]; !loaded || forceDownload {
'''))
ok((BC,cut(BC,'	var json []byte\n	var s Registry\n\n	json, s, err','func (c *Client) download('),'''	json, s, err := c.download(ctx, registry)
	if err == nil {
		err = c.Cache.Save(c.filenameFor(registry), json)
	}

	if err == nil {
		c.registries[registry] = s
	}

	return err
}

''') if False else (BC,'	err = c.Cache.Save(c.filenameFor(registry), json)\n	if err != nil {\n		return err\n	}\n','	if saveErr := c.Cache.Save(c.filenameFor(registry), json); saveErr != nil {\n		return saveErr\n	}\n'))
ok((BC,'	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != \'/\' {\n		baseURL.Path += "/"\n	}\n','	if p := baseURL.Path; p != "" && !strings.HasSuffix(p, "/") {\n		baseURL.Path = p + "/"\n	}\n'),(BC,'import (\n','import (\n	"strings"\n'))
ok((BC,cut(BC,'	hasher := sha256.New()\n','		filename = sha256Hash') if False else '		hasher := sha256.New()\n		hasher.Write([]byte(c.BaseURL.String()))\n		sha256Hash := hex.EncodeToString(hasher.Sum(nil))\n','		sum := sha256.Sum256([]byte(c.BaseURL.String()))\n		sha256Hash := hex.EncodeToString(sum[:])\n'))
ok((BC,'	filename := r.Filename()\n\n	if c.BaseURL.String() != DefaultBaseURL {','	filename := r.Filename()\n	base := c.BaseURL.String()\n\n	if base != DefaultBaseURL {'),(BC,'hasher.Write([]byte(c.BaseURL.String()))','_, _ = io.WriteString(hasher, base)'),(BC,'		filename = sha256Hash[0:6] + "_" + filename\n','		return fmt.Sprintf("%s_%s", sha256Hash[:6], filename)\n'))
ok((BC,cut(BC,'	var s Registry\n	var err error\n\n	switch registry {','// Lookup') ,'''	switch registry {
	case ASN:
		return asRegistry(NewASNRegistry(json))
	case DNS:
		return asRegistry(NewDNSRegistry(json))
	case IPv4:
		return asRegistry(NewNetRegistry(json, 4))
	case IPv6:
		return asRegistry(NewNetRegistry(json, 6))
	case ServiceProvider:
		return asRegistry(NewServiceProviderRegistry(json))
	}

	panic("Unknown Registrytype")
}

func asRegistry[T Registry](r T, err error) (Registry, error) {
	return r, err
}

'''))
ok((BC,cut(BC,'	json, err := io.ReadAll(resp.Body)\n','func (c *Client) freshenFromCache') if False else '	if resp.StatusCode != http.StatusOK {\n		return nil, nil, fmt.Errorf("server returned non-200 status code: %s", resp.Status)\n	}\n\n	json, err := io.ReadAll(resp.Body)\n	if err != nil {\n		return nil, nil, err\n	}\n','	json, err := readOK(resp)\n	if err != nil {\n		return nil, nil, err\n	}\n'),(BC,'','''
func readOK(resp *http.Response) ([]byte, error) {
	if resp.StatusCode == http.StatusOK {
		return io.ReadAll(resp.Body)
	}

	return nil, fmt.Errorf("server returned non-200 status code: %s", resp.Status)
}
'''))
ok((DN,cut(DN,'	var urls []*url.URL\n	for {','	return &Answer{'),'''	urls, found := d.dns[fqdn]
	for !found && fqdn != "" {
		if index := strings.IndexByte(fqdn, '.'); index >= 0 {
			fqdn = fqdn[index+1:]
		} else {
			fqdn = ""
		}

		urls, found = d.dns[fqdn]
	}

'''),(DN,'	file *File\n}','	file *File\n}\n\nvar _ *url.URL'))
ok((DN,cut(DN,'		index := strings.IndexByte(fqdn, \'.\')\n','	return &Answer{'),'''		_, fqdn, _ = strings.Cut(fqdn, ".")
	}

'''))
ok((NR,cut(NR,'	var bestEntry string\n','	return &Answer{'),'''	var best *netEntry
	bestMask := -1

	for mask, nets := range n.networks {
		if mask > lookupMask || mask < bestMask {
			continue
		}

		if e := find(nets, lookupNet.IP); e != nil {
			best, bestMask = e, mask
		}
	}

	if best == nil {
		return &Answer{Query: input}, nil
	}

'''),(NR,'		Query: input,\n		Entry: bestEntry,\n		URLs:  bestURLs,\n','		Query: input,\n		Entry: best.Net.String(),\n		URLs:  best.URLs,\n'),(NR,'','''
func find(nets []netEntry, ip net.IP) *netEntry {
	index := sort.Search(len(nets), func(i int) bool {
		return nets[i].Net.Contains(ip) || bytes.Compare(nets[i].Net.IP, ip) >= 0
	})

	if index < len(nets) && nets[index].Net.Contains(ip) {
		return &nets[index]
	}

	return nil
}
'''))
ok((NR,cut(NR,'	var length int\n','func (n *NetRegistry) File()') if False else '	var length int\n\n	switch ipVersion {\n	case 4:\n		length = net.IPv4len\n	case 6:\n		length = net.IPv6len\n	default:\n		panic("Unknown IP version")\n	}\n\n	return length\n','	if ipVersion == 4 {\n		return net.IPv4len\n	}\n\n	if ipVersion != 6 {\n		panic("Unknown IP version")\n	}\n\n	return net.IPv6len\n'))
ok((AS,cut(AS,'	index := sort.Search(','	return &Answer{'),'''	var entry string
	var urls []*url.URL

	if r, ok := a.find(asn); ok {
		entry, urls = r.String(), r.URLs
	}

'''),(AS,'','''
func (a *ASNRegistry) find(asn uint32) (asnRange, bool) {
	i := sort.Search(len(a.asns), func(i int) bool { return a.asns[i].MaxASN >= asn })
	if i == len(a.asns) {
		return asnRange{}, false
	}

	r := a.asns[i]

	return r, r.MinASN <= asn && asn <= r.MaxASN
}
'''))
ok((AS,'	sort.Sort(asnRangeSorter(a))\n','	sort.Slice(a, func(i, j int) bool { return a[i].MinASN < a[j].MinASN })\n'))
ok((AS,cut(AS,'	asns := strings.Split(asnRange, "-")','	if minASN > maxASN {'),'''	first, last, isRange := strings.Cut(asnRange, "-")

	minASN, err = strconv.ParseUint(first, 10, 32)
	if err != nil {
		return 0, 0, err
	}

	maxASN = minASN
	if isRange {
		if maxASN, err = strconv.ParseUint(last, 10, 32); err != nil {
			return 0, 0, err
		}
	}

'''),(AS,'	"errors"\n',''))
ok((SP,cut(SP,'	offset := strings.LastIndexByte','	return &Answer{\n		URLs:') ,'''	offset := strings.LastIndexByte(input, '-')
	service := input[offset+1:]

	if offset < 0 || service == "" {
		return &Answer{Query: input}, nil
	}

	urls, ok := s.services[service]
	if !ok {
		service = ""
	}

'''))
ok((BF,cut(BF,'		var urls []*url.URL\n\n		for _, rawURL','		if len(urls) > 0 {'),'		urls := parseURLs(rawURLs)\n\n'),(BF,'','''
func parseURLs(raw []string) []*url.URL {
	urls := make([]*url.URL, 0, len(raw))

	for _, text := range raw {
		if u, err := url.Parse(text); err == nil {
			urls = append(urls, u)
		}
	}

	return urls
}
'''))
ok((BF,cut(BF,'		var entries []string\n','		var urls []*url.URL\n'),'''		if len(s) != 2 && len(s) != 3 {
			return nil, errors.New("malformed bootstrap (bad services array)")
		}

		entries, rawURLs := s[len(s)-2], s[len(s)-1]

'''))
ok((BF,'	f := &File{}\n	f.Description = doc.Description\n	f.Publication = doc.Publication\n	f.Version = doc.Version\n	f.JSON = jsonDocument\n\n	f.Entries = make(map[string][]*url.URL)\n','	f := &File{\n		Description: doc.Description,\n		Publication: doc.Publication,\n		Version:     doc.Version,\n		JSON:        jsonDocument,\n		Entries:     map[string][]*url.URL{},\n	}\n'))
ok((DC,cut(DC,'	expiry := time.Now().Add(-d.Timeout)\n','func (d *DiskCache) modTime') ,'''	fileModTime, err := d.modTime(filename)
	if err != nil {
		return Absent
	}

	if !fileModTime.After(time.Now().Add(-d.Timeout)) {
		return Expired
	}

	if loaded, ok := d.lastLoadedModTime[filename]; ok && !loaded.Before(fileModTime) {
		return Good
	}

	return ShouldReload
}

'''))
ok((DC,cut(DC,'	fileInfo, err := os.Stat(d.Dir)\n','// SetTimeout'),'''	info, err := os.Stat(d.Dir)

	switch {
	case err == nil && info.IsDir():
		return false, nil
	case err == nil:
		return false, errors.New("cache dir is not a dir")
	case !os.IsNotExist(err):
		return false, err
	}

	err = os.MkdirAll(d.Dir, 0o750)

	return err == nil, err
}

'''))
ok((MC,'	m.cache[filename] = make([]byte, len(data))\n	copy(m.cache[filename], data)\n','	m.cache[filename] = append([]byte{}, data...)\n'),(MC,'	result := make([]byte, len(data))\n	copy(result, data)\n\n	return result, nil\n','	return bytes.Clone(data), nil\n'),(MC,'import (\n','import (\n	"bytes"\n'))
ok((MC,'	expiry := mtime.Add(m.Timeout)\n\n	if expiry.Before(time.Now()) {\n		return Expired\n	}\n\n	return Good\n','	if time.Now().After(mtime.Add(m.Timeout)) {\n		return Expired\n	}\n\n	return Good\n'))
