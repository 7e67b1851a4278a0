C='client.go'
M=[
('bad','C05',[(C,'http.NewRequestWithContext(rdapReq.Context(), http','http.NewRequestWithContext(context.Background(), http')]),
('bad','C05',[(C,'question = question.WithContext(req.Context())','question = question.WithContext(context.Background())')]),
('bad','C05',[(C,'question = question.WithContext(req.Context())','_ = question.WithContext(req.Context())')]),
('bad','C05',[(C,'time.Second*30','time.Second*300')]),
('bad','C05',[(C,'		defer cancelFunc()\n\n		req =','		_ = cancelFunc\n\n		req =')]),
('bad','C05',[(C,'	defer cancelFunc()\n\n	req = req.WithContext(ctx)\n','	_ = cancelFunc\n\n	req = req.WithContext(ctx)\n')]),
('bad','C05',[(C,'	req = req.WithContext(ctx)\n	resp, err := c.Do(req)\n','	resp, err := c.Do(req)\n	_ = ctx\n')]),
('bad','C05',[('bootstrap/client.go','c.DownloadWithContext(question.Context(), registry)','c.Download(registry)')]),
('bad','C05',[('bootstrap/client.go','http.NewRequestWithContext(ctx, http.M','http.NewRequestWithContext(context.TODO(), http.M')]),
('bad','C05',[('bootstrap/question.go','return q.ctx\n','return context.Background()\n')]),
('bad','C05',[('request.go','	return r.ctx\n','	return context.WithoutCancel(r.ctx)\n')]),
('bad','C05',[('request.go','	r2.ctx = ctx\n','')]),
('bad','C05',[(C,'req.Context(), req.Timeout)','req.Context(), time.Minute)')]),
('bad','C05',[(C,'	defer cancelFunc()\n\n	req = req.WithContext(ctx)\n','	cancelFunc()\n\n	req = req.WithContext(ctx)\n')]),
('bad','C05',[('request.go','	r2.Server = server\n','	r2.Server = server\n	r2.ctx = nil\n')]),
('bad','C06',[(C,'	defer resp.Body.Close()\n','')]),
('bad','C06',[(C,'	defer resp.Body.Close()\n	httpResponse.Body, ','	if resp.StatusCode == 404 { httpResponse.Duration = time.Since(start); return httpResponse }\n	defer resp.Body.Close()\n	httpResponse.Body, ')]),
('bad','C06',[(C,'	defer resp.Body.Close()\n','	resp.Body.Close()\n')]),
('bad','C06',[(C,'if c.UserAgent != "" {','if c.UserAgent == "" {')]),
('bad','C06',[(C,'"User-Agent", c.UserAgent','"UserAgent", c.UserAgent')]),
('bad','C06',[(C,'"application/rdap+json, application/json"','"application/json"')]),
('bad','C06',[(C,'http.MethodGet, httpR','http.MethodHead, httpR')]),
('bad','C06',[('bootstrap/client.go','	defer resp.Body.Close()\n\n','')]),
('bad','C06',[('bootstrap/client.go','	defer resp.Body.Close()\n\n	if resp.StatusCode != http.StatusOK {','	if resp.StatusCode != http.StatusOK {'),('bootstrap/client.go','	json, err := io.ReadAll(resp.Body)\n','	defer resp.Body.Close()\n	json, err := io.ReadAll(resp.Body)\n')]),
('bad','C06',[(C,'URL: rdapURL.String(),','URL: rdapReq.Server.String(),')]),
('bad','C04',[(C,'		Type:  AutnumRequest,','		Type:  IPRequest,')]),
('bad','C04',[(C,'		Query: domain,','		Query: strings.ToLower(domain),')]),
('bad','C04',[(C,'''	if err != nil {
		return nil, err
	}

	if ipNet''','''	if err != nil && resp == nil {
		return nil, err
	}

	if ipNet''')]),
('bad','C04',[(C,'if dom, ok := resp.Object.(*Domain); ok {','if dom, ok := resp.Object.(*Domain); ok || resp.Object == nil {')]),
('bad','C04',[(C,'''	} else if respError, ok := resp.Object.(*Error); ok {
		return nil, clientErrorFromRDAPError(respError)
	}

	return nil, &ClientError{
		Type: WrongResponseType,
		Text: "The server returned a non-IP''','''	}

	return nil, &ClientError{
		Type: WrongResponseType,
		Text: "The server returned a non-IP''')]),
('bad','C04',[('client_error.go','			e.Title,\n','			e.Description,\n')]),
('bad','C04',[('client_error.go','strings.Join(e.Description, " ")','strings.Join(e.Conformance, " ")')]),
('bad','C04',[('client_error.go','errorCode = *e.ErrorCode','errorCode = 0')]),
('bad','C04',[('client_error.go','Type: RDAPServerError','Type: WrongResponseType')]),
('bad','C03',[(C,'hrr.StatusCode <= 299','hrr.StatusCode <= 399')]),
('bad','C03',[(C,'len(httpResponse.Body) > 0 && hrr','len(httpResponse.Body) >= 0 && hrr')]),
('bad','C03',[(C,'return resp, httpResponse.Error','break')]),
('bad','C03',[(C,'	for _, r := range reqs {\n		c.Verbose(fmt.Sprintf("client: GET','	for i := range reqs {\n		r := reqs[len(reqs)-1-i]\n		c.Verbose(fmt.Sprintf("client: GET')]),
('bad','C03',[(C,'reqs = append(reqs, req.WithServer(u))','if u.Scheme == "https" { reqs = append(reqs, req.WithServer(u)) }')]),
('bad','C03',[(C,'hrr.StatusCode == http.StatusNotFound','hrr.StatusCode >= 400 && hrr.StatusCode < 500')]),
('bad','C03',[(C,'resp.HTTP = append(resp.HTTP, httpResponse)','resp.HTTP = []*HTTPResponse{httpResponse}')]),
('bad','C03',[(C,'resp.Object, httpResponse.Error = decoder.Decode()','resp.Object, httpResponse.Error = NewDecoder(resp.HTTP[0].Body).Decode(); _ = decoder')]),
('bad','C03',[(C,'if len(answer.URLs) == 0 {','if answer == nil {')]),
# refactorings
('ok','*',[(C,'''		for _, u := range answer.URLs {
			reqs = append(reqs, req.WithServer(u))
		}
''','''		reqs = requestsFor(req, answer.URLs)
'''),(C,'','''
func requestsFor(req *Request, us []*url.URL) []*Request {
	rs := make([]*Request, 0, len(us))
	for i := 0; i < len(us); i++ {
		rs = append(rs, req.WithServer(us[i]))
	}
	return rs
}
'''),(C,'	"net/http"\n','	"net/http"\n	"net/url"\n')]),
('ok','*',[(C,'''		for _, u := range answer.URLs {
			reqs = append(reqs, req.WithServer(u))
		}
''','''		reqs = make([]*Request, len(answer.URLs))
		for i, u := range answer.URLs {
			reqs[i] = req.WithServer(u)
		}
''')]),
('ok','*',[(C,'''	for _, r := range reqs {
		c.Verbose(fmt.Sprintf("client: GET %s", r.URL()))
''','''	for i := 0; i < len(reqs); i++ {
		r := reqs[i]
		c.Verbose(fmt.Sprintf("client: GET %s", r.URL()))
''')]),
('ok','*',[(C,'''	if req.Server != nil {
		c.Verbose(fmt.Sprintf("client: Request URL   : %s", req.URL()))

		reqs = []*Request{req}
	} else if req.Server == nil {''','''	if req.Server != nil {
		c.Verbose(fmt.Sprintf("client: Request URL   : %s", req.URL()))

		reqs = append(reqs, req)
	} else {''')]),
('ok','*',[(C,'''			if len(httpResponse.Body) > 0 && hrr.StatusCode >= 200 && hrr.StatusCode <= 299 {''','''			success := hrr.StatusCode/100 == 2
			if success && len(httpResponse.Body) != 0 {''')]),
('ok','*',[(C,'''			if len(httpResponse.Body) > 0 && hrr.StatusCode >= 200 && hrr.StatusCode <= 299 {''','''			switch {
			case hrr.StatusCode == http.StatusNotFound:
				return resp, &ClientError{
					Type: ObjectDoesNotExist,
					Text: "RDAP server returned 404, object does not exist.",
				}
			case len(httpResponse.Body) == 0:
				continue
			}
			if hrr.StatusCode >= 200 && hrr.StatusCode < 300 {''')]),
('ok','*',[(C,'''	ctx, cancelFunc := context.WithTimeout(context.Background(), time.Second*30)
	defer cancelFunc()

	req = req.WithContext(ctx)
	resp, err := c.Do(req)

	return resp, err
''','''	const quickTimeout = 30 * time.Second

	ctx, cancel := context.WithTimeout(context.Background(), quickTimeout)
	defer cancel()

	return c.Do(req.WithContext(ctx))
''')]),
('ok','*',[(C,'''	if dom, ok := resp.Object.(*Domain); ok {
		return dom, nil
	} else if respError, ok := resp.Object.(*Error); ok {
		return nil, clientErrorFromRDAPError(respError)
	}

	return nil, &ClientError{
		Type: WrongResponseType,
		Text: "The server returned a non-Domain RDAP response",
	}
''','''	switch obj := resp.Object.(type) {
	case *Domain:
		return obj, nil
	case *Error:
		return nil, clientErrorFromRDAPError(obj)
	default:
		return nil, wrongType("Domain")
	}
'''),(C,'','''
func wrongType(want string) *ClientError {
	return &ClientError{Type: WrongResponseType, Text: fmt.Sprintf("The server returned a non-%s RDAP response", want)}
}
''')]),
('ok','*',[('client_error.go','''	var errorCode uint16
	if e.ErrorCode != nil {
		errorCode = *e.ErrorCode
	}

	return &ClientError{
		Type: RDAPServerError,
		Text: fmt.Sprintf("Server returned error code %d, title='%s', description='%s'",
			errorCode,
			e.Title,
			strings.Join(e.Description, " ")),
	}
''','''	code := uint64(0)
	if c := e.ErrorCode; c != nil {
		code = uint64(*c)
	}
	var sb strings.Builder
	sb.WriteString("Server returned error code " + strconv.FormatUint(code, 10))
	sb.WriteString(", title='" + e.Title + "', description='")
	for i, d := range e.Description {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(d)
	}
	sb.WriteString("'")
	ce := new(ClientError)
	ce.Type = RDAPServerError
	ce.Text = sb.String()
	return ce
'''),('client_error.go','	"fmt"\n','	"strconv"\n')]),
('ok','*',[(C,'''	// Optionally add User-Agent header.
	if c.UserAgent != "" {
		req.Header.Add("User-Agent", c.UserAgent)
	}

	// HTTP Accept header.
	req.Header.Add("Accept", "application/rdap+json, application/json")
''','''	c.setHeaders(req.Header)
'''),(C,'','''
const acceptTypes = "application/rdap+json, application/json"

func (c *Client) setHeaders(h http.Header) {
	h.Set("Accept", acceptTypes)
	if len(c.UserAgent) > 0 {
		h.Set("User-Agent", c.UserAgent)
	}
}
''')]),
('ok','*',[(C,'''	defer resp.Body.Close()
	httpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)

	httpResponse.Duration = time.Since(start)

	return httpResponse
''','''	body, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	httpResponse.Body = body
	httpResponse.Error = err
	httpResponse.Duration = time.Since(start)

	return httpResponse
''')]),
('ok','*',[(C,'''	defer resp.Body.Close()
	httpResponse.Body''','''	defer func() {
		if err := resp.Body.Close(); err != nil {
			c.Verbose("close: " + err.Error())
		}
	}()
	httpResponse.Body''')]),
('ok','*',[('bootstrap/client.go','''	resp, err := c.HTTP.Do(req)
	if err != nil {
		return nil, nil, err
	}
	defer resp.Body.Close()

	if resp.StatusCode != http.StatusOK {
		return nil, nil, fmt.Errorf("server returned non-200 status code: %s", resp.Status)
	}

	json, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, nil, err
	}
''','''	json, err := c.fetch(req)
	if err != nil {
		return nil, nil, err
	}
'''),('bootstrap/client.go','','''
func (c *Client) fetch(req *http.Request) ([]byte, error) {
	resp, err := c.HTTP.Do(req)
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()

	if resp.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("server returned non-200 status code: %s", resp.Status)
	}
	return io.ReadAll(resp.Body)
}
''')]),
('ok','*',[(C,'''	for _, r := range reqs {
		c.Verbose(fmt.Sprintf("client: GET %s", r.URL()))

		httpResponse := c.get(r)
		resp.HTTP = append(resp.HTTP, httpResponse)
''','''	for _, r := range reqs {
		httpResponse := c.attempt(resp, r)
'''),(C,'','''
func (c *Client) attempt(resp *Response, r *Request) *HTTPResponse {
	c.Verbose(fmt.Sprintf("client: GET %s", r.URL()))
	hr := c.get(r)
	resp.HTTP = append(resp.HTTP, hr)
	return hr
}
''')]),
('ok','*',[(C,'''	for i, r := range reqs {
		c.Verbose(fmt.Sprintf("client: RDAP URL #%d is %s", i, r.URL()))
	}
''','''	c.logURLs(reqs)
	_ = len(reqs)
'''),(C,'','''
func (c *Client) logURLs(reqs []*Request) {
	for i := range reqs {
		c.Verbose(fmt.Sprintf("client: RDAP URL #%d is %s", i, reqs[i].URL()))
	}
}
''')]),
]
