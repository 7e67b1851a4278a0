From d65b014dedee7ba7d8b34ef84a9df82de325be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:00 +0000
Subject: [PATCH 01/16] fix: Request.URL() must not modify the server URL

URL() cleared the query and fragment of the caller's (or the bootstrap
registry's) *url.URL in place, so the server's own query parameters were lost
and shared URLs were modified. Work on a copy instead. Also clear ForceQuery,
a server URL ending in "?" produced a URL without the RDAP path.
---
 request.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/request.go b/request.go
index decad0b..210211e 100644
--- a/request.go
+++ b/request.go
@@ -263,8 +263,10 @@ func (r *Request) URL() *url.URL {
 		resultURL = new(url.URL)
 		*resultURL = *r.Server
 	} else {
-		tempURL := r.Server
+		tempURL := new(url.URL)
+		*tempURL = *r.Server
 		tempURL.RawQuery = ""
+		tempURL.ForceQuery = false
 		tempURL.Fragment = ""
 		tempURLString := tempURL.String()
 
-- 
2.43.0


From 9af086c0f430befc2452a34d63905db134e53a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:02 +0000
Subject: [PATCH 02/16] fix: escape IP queries, and don't panic when no URL can
 be constructed

IP query text was inserted into the URL unescaped ("1.2.3.4?x=y" lost its
tail), and text which made the URL unparsable (e.g. "1.2.3.4%zz") made
Client.Do() panic with a nil pointer dereference.
---
 client.go  | 10 +++++++++-
 request.go |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 9c422af..e02f4fd 100644
--- a/client.go
+++ b/client.go
@@ -6,6 +6,7 @@ package rdap
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -242,9 +243,16 @@ func (c *Client) Do(req *Request) (*Response, error) {
 }
 
 func (c *Client) get(rdapReq *Request) *HTTPResponse {
+	rdapURL := rdapReq.URL()
+	if rdapURL == nil {
+		return &HTTPResponse{
+			Error: errors.New("unable to construct the RDAP request URL"),
+		}
+	}
+
 	// HTTPResponse stores the URL, http.Response, response body...
 	httpResponse := &HTTPResponse{
-		URL: rdapReq.URL().String(),
+		URL: rdapURL.String(),
 	}
 
 	start := time.Now()
diff --git a/request.go b/request.go
index 210211e..207c6a9 100644
--- a/request.go
+++ b/request.go
@@ -196,8 +196,8 @@ func (r *Request) pathAndValues() (string, url.Values) {
 	case HelpRequest:
 		path = "help"
 	case IPRequest:
-		// TODO: escape IP address/nets?
-		path = fmt.Sprintf("ip/%s", r.Query)
+		// IP networks contain a '/' (e.g. 192.0.2.0/24), which is kept as is.
+		path = fmt.Sprintf("ip/%s", strings.ReplaceAll(escapePath(r.Query), "%2F", "/"))
 	case NameserverRequest:
 		path = fmt.Sprintf("nameserver/%s", escapePath(r.Query))
 	case DomainSearchRequest:
-- 
2.43.0


From 7c3ff78d35f4a25d67ad5961a4d38ea61eaf4926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:05 +0000
Subject: [PATCH 03/16] fix: bootstrap Lookup() re-downloads expired Service
 Registry files

Once a registry was loaded, an expired (or removed) cache file was never
downloaded again: a long lived Client used the first downloaded version
forever, instead of refreshing it every 24 hours as documented.
---
 bootstrap/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 7fd7fa2..b6ebe79 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -312,7 +312,8 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 	state := c.Cache.State(c.filenameFor(registry))
 	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
 
-	var forceDownload bool
+	// Download if the file is missing from the cache, or is too old.
+	forceDownload := state == cache.Absent || state == cache.Expired
 	if state == cache.ShouldReload {
 		if err := c.reloadFromCache(registry); err != nil {
 			forceDownload = true
-- 
2.43.0


From cf770ec02fe7ab5c3edca78f63c588bce6f993f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 04/16] fix: --raw and --json output the successful server's
 response

With several RDAP servers, the first server's response body was printed, even
if that server failed and another one answered the query.
---
 cli.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli.go b/cli.go
index 86c0ae9..c83f815 100644
--- a/cli.go
+++ b/cli.go
@@ -528,13 +528,13 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 
 	// Print the raw response out?
 	if *outputFormatRaw {
-		fmt.Fprintf(stdout, "%s", resp.HTTP[0].Body)
+		fmt.Fprintf(stdout, "%s", resp.HTTP[len(resp.HTTP)-1].Body)
 	}
 
 	// Print the response, JSON pretty-printed?
 	if *outputFormatJSON {
 		var out bytes.Buffer
-		if err := json.Indent(&out, resp.HTTP[0].Body, "", "  "); err != nil {
+		if err := json.Indent(&out, resp.HTTP[len(resp.HTTP)-1].Body, "", "  "); err != nil {
 			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
 			return 1
 		}
-- 
2.43.0


From e44a65d96274a7b08831280d2356040d8fc3fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:10 +0000
Subject: [PATCH 05/16] fix: RDAP server error text contains the error code

The address of the error code was printed instead.
---
 client_error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client_error.go b/client_error.go
index 10cce41..f4bf38c 100644
--- a/client_error.go
+++ b/client_error.go
@@ -46,10 +46,15 @@ func isClientError(t ClientErrorType, err error) bool {
 }
 
 func clientErrorFromRDAPError(e *Error) *ClientError {
+	var errorCode uint16
+	if e.ErrorCode != nil {
+		errorCode = *e.ErrorCode
+	}
+
 	return &ClientError{
 		Type: RDAPServerError,
 		Text: fmt.Sprintf("Server returned error code %d, title='%s', description='%s'",
-			e.ErrorCode,
+			errorCode,
 			e.Title,
 			strings.Join(e.Description, " ")),
 	}
-- 
2.43.0


From e1447fddd17c3a069a5563c2d0d0ba56d700c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:13 +0000
Subject: [PATCH 06/16] fix: Printer OmitNotices/OmitRemarks omit
 notices/remarks

The options had no effect in normal output, and made BriefOutput include the
notices/remarks instead.
---
 print.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/print.go b/print.go
index a8ba8fc..b57c441 100644
--- a/print.go
+++ b/print.go
@@ -112,7 +112,7 @@ func (p *Printer) printNameserverSearchResults(sr *NameserverSearchResults, inde
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -137,7 +137,7 @@ func (p *Printer) printEntitySearchResults(sr *EntitySearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -162,7 +162,7 @@ func (p *Printer) printDomainSearchResults(sr *DomainSearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -186,7 +186,7 @@ func (p *Printer) printError(e *Error, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -218,7 +218,7 @@ func (p *Printer) printHelp(h *Help, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range h.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -255,13 +255,13 @@ func (p *Printer) printDomain(d *Domain, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range d.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range d.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -339,13 +339,13 @@ func (p *Printer) printAutnum(a *Autnum, indentLevel uint) {
 		p.printValue("Port43", a.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range a.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range a.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -393,13 +393,13 @@ func (p *Printer) printNameserver(n *Nameserver, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range n.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -470,13 +470,13 @@ func (p *Printer) printEntity(e *Entity, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range e.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -548,13 +548,13 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
-- 
2.43.0


From 2678e6f40124451f062a0f5a8d71654f72f9c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:15 +0000
Subject: [PATCH 07/16] fix: print the conformance of IP network responses

All of the other topmost objects print it.
---
 print.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/print.go b/print.go
index b57c441..8900880 100644
--- a/print.go
+++ b/print.go
@@ -548,6 +548,12 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
+	if !p.BriefOutput {
+		for _, c := range n.Conformance {
+			p.printValue("Conformance", c, indentLevel)
+		}
+	}
+
 	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
-- 
2.43.0


From 3467e5a7c3df198f5ecc2dffb6b52f92c51eeebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 08/16] fix: reject JSON numbers outside of the uint64/int64
 range

Converting them is implementation specific, e.g. "maxSigLife": -1 was decoded
as 18446744073709551615 on amd64.
---
 decoder.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index bd8db9d..1644cfd 100644
--- a/decoder.go
+++ b/decoder.go
@@ -327,8 +327,13 @@ func (d *Decoder) decodeUint(keyName string, src any, dst reflect.Value, decodeD
 
 		d.addDecodeNote(decodeData, keyName, "bool to uint conversion")
 	case float64:
-		result = uint64(src)
-		d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		if src < 0 || src >= 1<<64 {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+		} else {
+			result = uint64(src)
+			d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		}
 	case string:
 		var convError error
 
@@ -396,8 +401,13 @@ func (d *Decoder) decodeInt(keyName string, src any, dst reflect.Value, decodeDa
 
 		d.addDecodeNote(decodeData, keyName, "bool to int conversion")
 	case float64:
-		result = int64(src)
-		d.addDecodeNote(decodeData, keyName, "float64 to int conversion")
+		if src < -(1<<63) || src >= 1<<63 {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+		} else {
+			result = int64(src)
+			d.addDecodeNote(decodeData, keyName, "float64 to int conversion")
+		}
 	case string:
 		var convError error
 
-- 
2.43.0


From 7771016eaa4118be5d7a37c7feb64a05baab98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:21 +0000
Subject: [PATCH 09/16] fix: leave pointer fields nil when their value can't be
 decoded

e.g. "startAutnum": "abc" was decoded as (and printed as) AS number 0.
---
 decoder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 1644cfd..104852d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -745,12 +745,17 @@ func (d *Decoder) decodePtr(keyName string, src any, dst reflect.Value, decodeDa
 			d.addDecodeNote(decodeData, keyName, vcardError.Error())
 		}
 	} else {
+		value := dst
 		if dst.IsNil() {
-			value := reflect.New(dst.Type().Elem())
-			dst.Set(value)
+			value = reflect.New(dst.Type().Elem())
 		}
 
-		success, err = d.decode(keyName, src, reflect.Indirect(dst), decodeData)
+		success, err = d.decode(keyName, src, reflect.Indirect(value), decodeData)
+
+		// Leave a nil |dst| unset unless there is a value for it.
+		if success && dst.IsNil() {
+			dst.Set(value)
+		}
 	}
 
 	return success, err
-- 
2.43.0


From 1a2e58eb2f7ce7e3ebff409b83d1a31ce4e4240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:24 +0000
Subject: [PATCH 10/16] fix: implement Request.Timeout

The documented field was ignored.
---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index e02f4fd..b87b76c 100644
--- a/client.go
+++ b/client.go
@@ -105,6 +105,14 @@ func (c *Client) Do(req *Request) (*Response, error) {
 		}
 	}
 
+	// Request timeout?
+	if req.Timeout > 0 {
+		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)
+		defer cancelFunc()
+
+		req = req.WithContext(ctx)
+	}
+
 	// Init HTTP client?
 	if c.HTTP == nil {
 		c.HTTP = &http.Client{}
-- 
2.43.0


From 6a049ee9b131c5514d30fd9bbef171e8888d5443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:26 +0000
Subject: [PATCH 11/16] fix: only accept a single "AS" prefix in AS number
 lookups

TrimLeft() removes any combination of the characters, so e.g. "ssaa5" was
looked up as AS5.
---
 bootstrap/asn_registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bootstrap/asn_registry.go b/bootstrap/asn_registry.go
index 3cb83c2..186908f 100644
--- a/bootstrap/asn_registry.go
+++ b/bootstrap/asn_registry.go
@@ -127,7 +127,7 @@ func (a *ASNRegistry) File() *File {
 
 func parseASN(asn string) (uint32, error) {
 	asn = strings.ToLower(asn)
-	asn = strings.TrimLeft(asn, "as")
+	asn = strings.TrimPrefix(asn, "as")
 
 	result, err := strconv.ParseUint(asn, 10, 32)
 	if err != nil {
-- 
2.43.0


From 9e49c64531f52128035626d53b027d516b18f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:29 +0000
Subject: [PATCH 12/16] fix: remove carriage returns from the WHOIS style
 output

As in the text output, a server provided value can't start a new line.
---
 cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli.go b/cli.go
index c83f815..10e284b 100644
--- a/cli.go
+++ b/cli.go
@@ -566,7 +566,7 @@ func safePrint(v string) string {
 		switch r {
 		case '\000':
 			return -1
-		case '\n':
+		case '\n', '\r':
 			return ' '
 		default:
 			return r
-- 
2.43.0


From 14086aed823ac4a83cb7820388b42917fb0ffced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:18 +0000
Subject: [PATCH 13/16] fix: find the sandbox path without a data race

---
 sandbox/file.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sandbox/file.go b/sandbox/file.go
index 0135ea1..2cb060d 100644
--- a/sandbox/file.go
+++ b/sandbox/file.go
@@ -10,9 +10,11 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"sync"
 )
 
-var sandboxPath string
+// sandboxPath returns the path of the sandbox files.
+var sandboxPath = sync.OnceValue(findPackagePath)
 
 // LoadFile reads the named sandboxed file and returns its contents. It returns
 // an error if the file is not one of the recognised sandbox files.
@@ -23,11 +25,7 @@ func LoadFile(filename string) ([]byte, error) {
 
 	var body []byte
 
-	if len(sandboxPath) == 0 {
-		sandboxPath = findPackagePath()
-	}
-
-	body, err := os.ReadFile(path.Join(sandboxPath, filename))
+	body, err := os.ReadFile(path.Join(sandboxPath(), filename))
 	if err != nil {
 		log.Panic(err)
 	}
-- 
2.43.0


From dfe66a11c77959f6e64764d496ee8e5278333380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:03 +0000
Subject: [PATCH 14/16] fix: don't expand @file arguments in sandbox mode

---
 cli.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cli.go b/cli.go
index 10e284b..fb57b03 100644
--- a/cli.go
+++ b/cli.go
@@ -121,6 +121,17 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// For duration timer (in --verbose output).
 	start := time.Now()
 
+	// kingpin replaces @file arguments by the contents of the file, don't allow
+	// this in sandbox mode.
+	if options.Sandbox {
+		for _, arg := range args {
+			if strings.HasPrefix(arg, "@") {
+				printError(stderr, fmt.Sprintf("Error: '%s' not allowed (sandbox mode enabled)", arg))
+				return 1
+			}
+		}
+	}
+
 	// Setup command line arguments parser.
 	app := kingpin.New("rdap", "RDAP command-line client")
 	app.HelpFlag.Short('h')
-- 
2.43.0


From b29d5b68a1f1646533db7992ec36a01ed4c2dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:32 +0000
Subject: [PATCH 15/16] fix: find vCard address components by position when one
 has several values

---
 vcard.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vcard.go b/vcard.go
index 222c622..3ab191e 100644
--- a/vcard.go
+++ b/vcard.go
@@ -468,11 +468,19 @@ func (v *VCard) getFirstAddressField(index int) string {
 		return ""
 	}
 
-	values := adr.Values()
+	// The address components are found by position, and each component can
+	// itself have several values (e.g. two street address lines).
+	components, ok := adr.Value.([]any)
+	if !ok {
+		components = []any{adr.Value}
+	}
 
-	if index >= len(values) {
+	if index >= len(components) {
 		return ""
 	}
 
-	return values[index]
+	values := make([]string, 0, 1)
+	adr.appendValueStrings(components[index], &values)
+
+	return strings.Join(values, " ")
 }
-- 
2.43.0


From 548946a106e4df7d082c9b020932a1e2e65c5ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:02 +0000
Subject: [PATCH 16/16] fix: don't let the map order decide between registry
 entries for the same numbers

---
 bootstrap/asn_registry.go | 11 ++++++-----
 bootstrap/net_registry.go | 10 ++++++----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/bootstrap/asn_registry.go b/bootstrap/asn_registry.go
index 186908f..1e5e3fd 100644
--- a/bootstrap/asn_registry.go
+++ b/bootstrap/asn_registry.go
@@ -7,7 +7,9 @@ package bootstrap
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"net/url"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -71,16 +73,15 @@ func NewASNRegistry(json []byte) (*ASNRegistry, error) {
 
 	a := make([]asnRange, 0, len(registry.Entries))
 
-	var asn string
-	var urls []*url.URL
-
-	for asn, urls = range registry.Entries {
+	// In sorted order, so that the result doesn't depend on the map's order
+	// when two ranges start at the same AS number.
+	for _, asn := range slices.Sorted(maps.Keys(registry.Entries)) {
 		minASN, maxASN, err := parseASNRange(asn)
 		if err != nil {
 			continue
 		}
 
-		a = append(a, asnRange{MinASN: minASN, MaxASN: maxASN, URLs: urls})
+		a = append(a, asnRange{MinASN: minASN, MaxASN: maxASN, URLs: registry.Entries[asn]})
 	}
 
 	sort.Sort(asnRangeSorter(a))
diff --git a/bootstrap/net_registry.go b/bootstrap/net_registry.go
index f01f393..7004c93 100644
--- a/bootstrap/net_registry.go
+++ b/bootstrap/net_registry.go
@@ -8,8 +8,10 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"maps"
 	"net"
 	"net/url"
+	"slices"
 	"sort"
 	"strings"
 )
@@ -66,9 +68,9 @@ func NewNetRegistry(json []byte, ipVersion int) (*NetRegistry, error) {
 		file:       registry,
 	}
 
-	var cidr string
-	var urls []*url.URL
-	for cidr, urls = range registry.Entries {
+	// In sorted order, so that the result doesn't depend on the map's order
+	// when two entries are the same network.
+	for _, cidr := range slices.Sorted(maps.Keys(registry.Entries)) {
 		_, ipNet, err := net.ParseCIDR(cidr)
 
 		if err != nil {
@@ -78,7 +80,7 @@ func NewNetRegistry(json []byte, ipVersion int) (*NetRegistry, error) {
 		}
 
 		size, _ := ipNet.Mask.Size()
-		n.networks[size] = append(n.networks[size], netEntry{Net: ipNet, URLs: urls})
+		n.networks[size] = append(n.networks[size], netEntry{Net: ipNet, URLs: registry.Entries[cidr]})
 	}
 
 	for _, nets := range n.networks {
-- 
2.43.0

