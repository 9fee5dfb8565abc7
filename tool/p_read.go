package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
)

// What the parsers make of a well-formed text are the parts the text is made
// of.
//
// A form is a text with the pieces
//
//	{Path:class}   an arbitrary text (or number) of a class; the path of
//	               getters leads to it in what was parsed
//	{Path=text}    that text
//	{Path=text>x}  that text; the path leads to x
//	{Path:class>f} the path leads to the piece changed by f: upper, lower,
//	               quoted
//	{:class}       a piece that is not read
//	{?Path=x}      nothing; the path leads to x (a text, a number, nil, true)
//	[ ... ]        a part that may be absent: its paths then lead to nothing
//
// A path is a row of getters, "Address.URI.Host" or "Parameter(vfx)"; a
// number stands for an element of a list, and without one the first element
// is meant.
type readForm struct {
	Type string // of the element
	Form string
}

// readClass is a class of texts.
type readClass struct {
	set byteSet
	min int64
}

var (
	tokenChars = charSet("a-zA-Z0-9", "-.!%*_+`'~")
	// a token that is no method name and no other keyword the lexers know
	classes = map[string]readClass{
		"tok":    {tokenChars, 1},
		"host":   {charSet("a-zA-Z0-9", "-"), 1},
		"user":   {charSet("a-zA-Z0-9", "-_.!~*'()&=+$,;?/"), 1},
		"pass":   {charSet("a-zA-Z0-9", "-_.!~*'()&=+$,"), 1},
		"uparam": {charSet("a-zA-Z0-9", "-_.!~*'()[]/:&+$"), 1},
		"hval":   {charSet("a-zA-Z0-9", "-_.!~*()[]/?:+$"), 1},
		"hname":  {charSet("a-zA-Z0-9", "-_.!~*()"), 1},
		"phone":  {charSet("0-9", "-.()"), 1},
		"lphone": {charSet("0-9", "-.()*#"), 1},
		"quoted": {printable().without("\"\\"), 0},
		"qtext":  {printable().without("\"\\"), 1},
		"quot1":  {printable().without("\"\\ \t"), 1},
		"comm":   {printable().without("()\\"), 1},
		"word":   {printable().without(" \t"), 1},
		"wordat": {printable().without(" \t@"), 1},
		"uric":   {charSet("a-zA-Z0-9", "-_.!~*'();/?:@&+$,"), 1},
		"callid": {printable().without(" \t@,"), 1},
		"reason": {printable().without(" \t"), 1},
		"utok":   {charSet("a-zA-Z0-9", "-.!*_+'~"), 1}, // of a token and of a URI's parameter
		"pnum":   {charSet("0-9", "-."), 1},
		"alnum":  {charSet("a-zA-Z0-9"), 1},
		"alpha":  {charSet("a-zA-Z"), 1},
		"v6":     {charSet("0-9", ":."), 1},
		"nosemi": {charSet("a-fA-F0-9", ":.[]"), 1},
	}
)

func printable() byteSet {
	b := charSet("!-~", " \t")
	for c := int64('!'); c <= '~'; c++ {
		b.put(c)
	}
	return b
}

func (b byteSet) without(s string) byteSet {
	for i := 0; i < len(s); i++ {
		b.cut(int64(s[i]))
	}
	return b
}

const (
	readAddr = "<sip:{Address.URI.User:user}@{Address.URI.Host:host}>"
	readSpec = "sip:{Address.URI.User:user}@{Address.URI.Host:host}"
)

var readForms = []readForm{
	{"header.CSeq", "CSeq: {SequenceNumber:num} {Method:tok}"},
	{"header.CSeq", "cseq \t:\t{SequenceNumber:num} \t {Method:tok}"},
	{"header.MaxForwards", "Max-Forwards: {MaxForwards:byte}"},
	{"header.MaxForwards", "mAX-forwards  :  {MaxForwards:byte}"},
	{"header.Expires", "Expires: {Expires:num}"},
	{"header.MinExpires", "Min-Expires: {Expires:num}"},
	{"header.ContentLength", "Content-Length: {ContentLength:num}"},
	{"header.ContentLength", "l: {ContentLength:num}"},
	{"header.RSeq", "RSeq: {SequenceNumber:num1}"},
	{"header.RAck", "RAck: {RSeqNumber:num1} {CSeqNumber:num1} {Method:tok}"},
	{"header.MimeVersion", "MIME-Version: {MajorVersion:num}.{MinorVersion:num}"},
	{"header.CallID", "Call-ID: {CallId:wordat}"},
	{"header.CallID", "i: {CallId:wordat}"},
	{"header.CallID", "Call-ID: {CallIdentifer.LocalId:wordat}@{CallIdentifer.Host:wordat}"},
	{"header.Subject", "Subject: {Subject:word}"},
	{"header.Subject", "s: {Subject:word}"},
	{"header.Subject", "Subject: {Subject=Need more  boxes; see below}"},
	{"header.Organization", "Organization: {Organization:word}"},
	{"header.Priority", "Priority: {Priority:tok}"},
	{"header.Allow", "Allow: {0.Method:tok}"},
	{"header.Allow", "Allow: {0.Method:tok}, {1.Method:tok}"},
	{"header.Allow", "Allow: {0.Method:tok} ,{1.Method:tok},  {2.Method:tok}"},
	{"header.AllowEvents", "Allow-Events: {0.EventType:tok}"},
	{"header.AllowEvents", "u: {0.EventType:tok},{1.EventType:tok}"},
	{"header.AllowEvents", "Allow-Events: {0.EventType:tok}, {1.EventType:tok}"},
	{"header.Supported", "Supported: {0.OptionTag:tok}"},
	{"header.Supported", "k: {0.OptionTag:tok}, {1.OptionTag:tok}"},
	{"header.Require", "Require: {0.OptionTag:tok}"},
	{"header.Require", "Require: {0.OptionTag:tok}, {1.OptionTag:tok}"},
	{"header.ProxyRequire", "Proxy-Require: {0.OptionTag:tok}"},
	{"header.ProxyRequire", "Proxy-Require: {0.OptionTag:tok},{1.OptionTag:tok}"},
	{"header.Unsupported", "Unsupported: {0.OptionTag:tok}"},
	{"header.Unsupported", "Unsupported: {0.OptionTag:tok} , {1.OptionTag:tok}"},
	{"header.InReplyTo", "In-Reply-To: {0.CallId:callid}"},
	{"header.InReplyTo", "In-Reply-To: {0.CallId=1234@host.example}"},
	{"header.InReplyTo", "In-Reply-To: {0.CallId:callid}, {1.CallId:callid}"},
	{"header.InReplyTo", "In-Reply-To: {0.CallId:callid} , {1.CallId:callid} , {2.CallId:callid}"},
	{"header.ContentEncoding", "Content-Encoding: {0.Encoding:tok}"},
	{"header.ContentEncoding", "e: {0.Encoding:tok}, {1.Encoding:tok}"},
	{"header.ContentLanguage", "Content-Language: {0.LanguageTag:tok}"},
	{"header.ContentLanguage", "Content-Language: {0.LanguageTag:tok}, {1.LanguageTag:tok}"},
	{"header.ContentType", "Content-Type: {ContentType:tok}/{ContentSubType:tok}"},
	{"header.ContentType", "c: {ContentType:tok}/{ContentSubType:tok};charset={CharSet:tok}"},
	{"header.ContentType", "Content-Type: {ContentType:tok} / {ContentSubType:tok} ; boundary=\"{Parameter(boundary):quoted}\" ;v = {Parameter(v):tok}"},
	{"header.ContentDisposition", "Content-Disposition: {DispositionType:tok}[;handling={Handling:tok}][;x={Parameter(x):tok}]"},
	{"header.Accept", "Accept: {ContentType:tok}/{ContentSubType:tok}"},
	{"header.Accept", "Accept: {0.ContentType:tok}/{0.ContentSubType:tok}, {1.ContentType:tok}/{1.ContentSubType:tok}"},
	{"header.Accept", "Accept: {ContentType:tok}/{ContentSubType:tok};level={Parameter(level):tok};q={QValue=0.5}"},
	{"header.AcceptEncoding", "Accept-Encoding: {0.Encoding:tok}"},
	{"header.AcceptEncoding", "Accept-Encoding: {0.Encoding:tok};q={0.QValue=0.25}, {1.Encoding:tok}"},
	{"header.AcceptEncoding", "Accept-Encoding: {0.Encoding:tok} ;q= {0.QValue=0.25} , {1.Encoding:tok}"},
	{"header.AcceptLanguage", "Accept-Language: {0.LanguageRange:tok}"},
	{"header.AcceptLanguage", "Accept-Language: {0.LanguageRange:tok};q={0.QValue=0.25}, {1.LanguageRange:tok}"},
	{"header.AcceptLanguage", "Accept-Language: {0.LanguageRange:tok} ; q = {0.QValue=1} , {1.LanguageRange:tok}"},
	{"header.Via", "Via: SIP/2.0/{Transport:tok} {Host:host}[:{Port:num|-1}][;branch={Branch:tok}]"},
	{"header.Via", "v: SIP / 2.0 / {Transport:tok} {Host:host} : {Port:port};branch={Branch:tok}"},
	{"header.Via", "Via: SIP/2.0/{Transport:tok} {Host:host};ttl={TTL:byte|-1};maddr={MAddr:host};received={Received:host}"},
	{"header.Via", "Via: SIP/2.0/{Transport:tok} {Host:host};rport[;branch={Branch:tok}]"},
	{"header.Via", "Via: SIP/2.0/UDP {Host:host} ; branch = {Branch:tok}"},
	{"header.Via", "Via: SIP/2.0/UDP {0.Host:host};branch={0.Branch:tok}, SIP/2.0/{1.Transport:tok} {1.Host:host};branch={1.Branch:tok}"},
	{"header.Via", "Via: SIP/2.0/UDP {0.Host:host} ({0.Comment:comm})"},
	{"header.Via", "Via: SIP/2.0/UDP {0.Host:host};branch={0.Branch:tok} ({0.Comment:comm}), SIP/2.0/UDP {1.Host:host}"},
	{"header.Via", "Via: SIP/2.0/UDP \\[{Host:v6>bracket}\\]:{Port:port}"},
	{"header.Via", "Via: SIP/2.0/UDP {Host=[2001:DB8::9:fF]}:{Port:port}"},
	{"header.Via", "Via: SIP/2.0/UDP {0.Host:host};received={0.Received:host}, SIP/2.0/UDP {1.Host:host};received={1.Received=::1} ;branch={1.Branch:tok}"},
	{"header.From", "From: " + readAddr + "[;tag={Tag:tok}]"},
	{"header.From", "f: " + readAddr + "[;tag={Tag:tok}]"},
	{"header.From", "From: " + readSpec + "[;tag={Tag:utok}]"},
	{"header.From", "From: \"{Address.DisplayName:quot1}\" " + readAddr + ";tag={Tag:tok}"},
	{"header.From", "From: {Address.DisplayName:tok} " + readAddr + " ; tag = {Tag:tok};x={Parameter(x):tok}"},
	{"header.To", "To: " + readAddr + "[;tag={Tag:tok}]"},
	{"header.To", "t: " + readAddr + "[;tag={Tag:tok}]"},
	{"header.To", "To: " + readSpec + "[;tag={Tag:utok}]"},
	{"header.To", "To: \"{Address.DisplayName:quot1}\" " + readAddr + ";tag={Tag:tok}"},
	{"header.To", "To: {Address.DisplayName:tok} " + readAddr + ";x=\"{Parameter(x):quoted}\""},
	{"header.ReplyTo", "Reply-To: " + readAddr + "[;x={Parameter(x):tok}]"},
	{"header.ReferTo", "Refer-To: " + readAddr + "[;x={Parameter(x):tok}]"},
	{"header.ReferTo", "r: " + readSpec},
	{"header.Contact", "Contact: " + readAddr + "[;expires={Expires:num|?}][;q={QValue=0.5|-1}]"},
	{"header.Contact", "m: " + readAddr},
	{"header.Contact", "Contact: " + readSpec},
	{"header.Contact", "Contact: *{?Address.IsWildcard=true}"},
	{"header.Contact", "Contact: \"{0.Address.DisplayName:quot1}\" <sip:{0.Address.URI.User:user}@{0.Address.URI.Host:host}>;q=0.5, <sip:{1.Address.URI.Host:host}>;x={1.Parameter(x):tok}"},
	{"header.Route", "Route: " + readAddr + "[;x={Parameter(x):tok}]"},
	{"header.Route", "Route: <sip:{0.Address.URI.Host:host};lr>,<sip:{1.Address.URI.Host:host};lr>"},
	{"header.RecordRoute", "Record-Route: " + readAddr + "[;x={Parameter(x):tok}]"},
	{"header.RecordRoute", "Record-Route: <sip:{0.Address.URI.Host:host}>, <sip:{1.Address.URI.Host:host}>;x={1.Parameter(x):tok}"},
	{"header.AlertInfo", "Alert-Info: <sip:{AlertInfo.Host:host}>[;x={Parameter(x):tok}]"},
	{"header.AlertInfo", "Alert-Info: <sip:{0.AlertInfo.Host:host}> , <sip:{1.AlertInfo.Host:host}> ;x={1.Parameter(x):tok}"},
	{"header.AlertInfo", "Alert-Info: <{AlertInfo.String=http://www.example.com/sounds/moo.wav}>"},
	{"header.CallInfo", "Call-Info: <sip:{Info.Host:host}>[;purpose={Purpose:tok}]"},
	{"header.CallInfo", "Call-Info: <sip:{0.Info.Host:host}> ;purpose=icon, <sip:{1.Info.Host:host}>;purpose={1.Purpose:tok}"},
	{"header.ErrorInfo", "Error-Info: <sip:{ErrorInfo.Host:host}>[;x={Parameter(x):tok}]"},
	{"header.ErrorInfo", "Error-Info: <sip:{0.ErrorInfo.Host:host}> , <sip:{1.ErrorInfo.Host:host}> ;x={1.Parameter(x):tok}"},
	{"header.Event", "Event: {EventType:tok}[;id={EventId:tok}]"},
	{"header.Event", "o: {EventType:tok} ; id = {EventId:tok}"},
	{"header.Reason", "Reason: {0.Protocol:tok}[;cause={0.Cause:num|?}][;text=\"{0.Text:quoted}\"]"},
	{"header.Reason", "Reason: {0.Protocol:tok};cause=5 , {1.Protocol:tok} ;text=\"{1.Text:quoted}\""},
	{"header.RetryAfter", "Retry-After: {RetryAfter:num}[;duration={Duration:num|?}]"},
	{"header.RetryAfter", "Retry-After: {RetryAfter:num} ({Comment:comm})[;duration={Duration:num|?}]"},
	{"header.SubscriptionState", "Subscription-State: {State:tok}[;reason={ReasonCode:tok}][;retry-after={RetryAfter:num1|-1}]"},
	{"header.SubscriptionState", "Subscription-State: {State:tok} ; expires = {Expires:num1}"},
	{"header.TimeStamp", "Timestamp: {TimeStamp=54}"},
	{"header.TimeStamp", "Timestamp: {TimeStamp=0}"},
	{"header.TimeStamp", "Timestamp: {TimeStamp=0} {Delay=0}"},
	{"header.TimeStamp", "Timestamp: {TimeStamp=5.5} {Delay=0}"},
	{"header.TimeStamp", "Timestamp: {TimeStamp=1234567} {Delay=3}"},
	{"header.TimeStamp", "Timestamp: {TimeStamp=0.5} {Delay=0.5}"},
	{"header.TimeStamp", "Timestamp: {TimeStamp=0.125}"},
	{"header.Accept", "Accept: {ContentType:tok}/{ContentSubType:tok};q={QValue=0}"},
	{"header.AcceptEncoding", "Accept-Encoding: {Encoding:tok};q={QValue=0}"},
	{"header.AcceptLanguage", "Accept-Language: {LanguageRange:alnum};q={QValue=0}"},
	{"header.Contact", "Contact: <sip:{Address.URI.Host:host}>;q={QValue=0}"},
	{"header.Accept", "Accept: {ContentType:tok}/{ContentSubType:tok};q={QValue=1}"},
	{"header.AcceptEncoding", "Accept-Encoding: {Encoding:tok};q={QValue=1}"},
	{"header.AcceptLanguage", "Accept-Language: {LanguageRange:alnum};q={QValue=1}"},
	{"header.Contact", "Contact: <sip:{Address.URI.Host:host}>;q={QValue=1}"},
	{"header.Accept", "Accept: {ContentType:tok}/{ContentSubType:tok};q={QValue=0.0}"},
	{"header.AcceptEncoding", "Accept-Encoding: {Encoding:tok};q={QValue=0.0}"},
	{"header.AcceptLanguage", "Accept-Language: {LanguageRange:alnum};q={QValue=0.0}"},
	{"header.Contact", "Contact: <sip:{Address.URI.Host:host}>;q={QValue=0.0}"},
	{"header.Accept", "Accept: {ContentType:tok}/{ContentSubType:tok};q={QValue=0.001}"},
	{"header.AcceptEncoding", "Accept-Encoding: {Encoding:tok};q={QValue=0.001}"},
	{"header.AcceptLanguage", "Accept-Language: {LanguageRange:alnum};q={QValue=0.001}"},
	{"header.Contact", "Contact: <sip:{Address.URI.Host:host}>;q={QValue=0.001}"},
	{"header.Accept", "Accept: {ContentType:tok}/{ContentSubType:tok};q={QValue=1.000}"},
	{"header.AcceptEncoding", "Accept-Encoding: {Encoding:tok};q={QValue=1.000}"},
	{"header.AcceptLanguage", "Accept-Language: {LanguageRange:alnum};q={QValue=1.000}"},
	{"header.Contact", "Contact: <sip:{Address.URI.Host:host}>;q={QValue=1.000}"},
	{"header.Accept", "Accept: {ContentType:tok}/{ContentSubType:tok};q={QValue=0.75}"},
	{"header.AcceptEncoding", "Accept-Encoding: {Encoding:tok};q={QValue=0.75}"},
	{"header.AcceptLanguage", "Accept-Language: {LanguageRange:alnum};q={QValue=0.75}"},
	{"header.Contact", "Contact: <sip:{Address.URI.Host:host}>;q={QValue=0.75}"},
	{"header.TimeStamp", "Timestamp: {TimeStamp=5.5} {Delay=0.25}"},
	{"header.Warning", "Warning: {0.Code:wcode} {0.Agent:host} \"{0.Text:qtext}\""},
	{"header.Warning", "Warning: {0.Code:wcode} {0.Agent=host.example:5060} \"{0.Text:qtext}\" , {1.Code:wcode} {1.Agent:tok} \"{1.Text:qtext}\""},
	{"header.Authorization", "Authorization: {Scheme:tok} username=\"{Username:quoted}\", realm=\"{Realm:quoted}\""},
	{"header.Authorization", "Authorization: {Scheme:tok} nonce=\"{Nonce:quoted}\" ,response = \"{Response:quoted}\""},
	{"header.Authorization", "Authorization: Digest uri=\"{URI.String=sip:host.example>sip:host.example}\",nc={NonceCount=00000001>1}"},
	{"header.Authorization", "Authorization: Digest algorithm={Algorithm:tok},cnonce=\"{CNonce:quoted}\" , opaque=\"{Opaque:quoted}\",qop={Qop:tok}"},
	{"header.ProxyAuthorization", "Proxy-Authorization: {Scheme:tok} username=\"{Username:quoted}\", realm=\"{Realm:quoted}\""},
	{"header.ProxyAuthorization", "Proxy-Authorization: Digest nonce=\"{Nonce:quoted}\", response=\"{Response:quoted}\""},
	{"header.WWWAuthenticate", "WWW-Authenticate: {Scheme:tok} realm=\"{Realm:quoted}\", nonce=\"{Nonce:quoted}\""},
	{"header.WWWAuthenticate", "WWW-Authenticate: Digest algorithm={Algorithm:tok}[, domain=\"{Domain:quoted}\"][ ,opaque=\"{Opaque:quoted}\"]"},
	{"header.ProxyAuthenticate", "Proxy-Authenticate: {Scheme:tok} realm=\"{Realm:quoted}\", nonce=\"{Nonce:quoted}\""},
	{"header.ProxyAuthenticate", "Proxy-Authenticate: Digest algorithm={Algorithm:tok}[, stale={IsStale=true|false}]"},
	{"header.AuthenticationInfo", "Authentication-Info: nextnonce=\"{NextNonce:quoted}\"[, qop={Qop:tok}][, rspauth=\"{Response:quoted}\"]"},
	{"header.AuthenticationInfo", "Authentication-Info: nextnonce=\"{NextNonce:quoted}\"[, cnonce=\"{CNonce:quoted}\"]"},
	{"header.Server", "Server: {:tok}"},
	{"header.UserAgent", "User-Agent: {:tok}/{:tok} ({:comm})"},
	{"header.Extension", "X-Thing: {Value:word}"},
	{"header.RequestLine", "{Method:tok} sip:{Uri.User:user}@{Uri.Host:host} SIP/2.0{?SipVersion=SIP/2.0}"},
	{"header.RequestLine", "{Method:tok} sip:{Uri.Host:host};transport={Uri.TransportParam:alnum} SIP/2.0"},
	{"header.StatusLine", "SIP/2.0 {StatusCode:code} {ReasonPhrase:reason}{?SipVersion=SIP/2.0}"},
	{"core.HostPort", "{Host.HostName:host}[:{Port:port|-1}]"},
	{"core.Host", "{HostName:host}"},
	{"address.SipURIImpl", "sip:[{User:user}[:{UserPassword:pass}]@]{Host:host}[:{Port:port|-1}]"},
	{"address.SipURIImpl", "sip:{Host:host};transport={TransportParam:alnum};ttl={TTLParam:byte}"},
	{"address.SipURIImpl", "sip:{Host:host};maddr={MAddrParam:host}[;method={MethodParam:alnum}]"},
	{"address.SipURIImpl", "sip:{Host:host};user={UserParam:alnum};lr{?HasLrParam=true}"},
	{"address.SipURIImpl", "sip:{User:user}@{Host:host};x={Parameter(x):uparam}[;y={Parameter(y):uparam}]"},
	{"address.SipURIImpl", "sip:{User:user}@{Host:host}?{:hname}={:hval}"},
	{"address.SipURIImpl", "sip:{User:user}@{Host:host};x={Parameter(x):uparam}?subject={Header(subject):hval}[&body={Header(body):hval}]"},
	{"address.SipURIImpl", "sip:{User:user}@\\[{Host:v6>bracket}\\]:{Port:port}"},
	{"address.AddressImpl", "<sip:{URI.User:user}@{URI.Host:host}:{URI.Port:port};x={URI.Parameter(x):uparam}>{?AddressType=0}"},
	{"address.AddressImpl", "\"{DisplayName:quot1}\" <sip:{URI.User:user}@{URI.Host:host}>"},
	{"address.AddressImpl", "{DisplayName:tok} <sip:{URI.User:user}@{URI.Host:host}>"},
	{"address.AddressImpl", "sip:{URI.User:user}@{URI.Host:host}:{URI.Port:port}{?AddressType=1}"},
	{"address.AddressImpl", "<tel:+{URI.PhoneNumber:phone}>{?URI.IsGlobal=true}"},
	{"address.AddressImpl", "<tel:{URI.PhoneNumber:lphone};isub={URI.IsdnSubAddress:pnum}>{?URI.IsGlobal=false}"},
	{"address.AddressImpl", "<tel:+{URI.PhoneNumber:phone};postdial={URI.PostDial:pnum};x={URI.Parameter(x):alnum}>"},
	{"header.From", "From: \"{Address.DisplayName=a \\\"b\\\" c}\" <sip:{Address.URI.Host:host}>;tag={Tag:tok}"},
	{"header.WWWAuthenticate", "WWW-Authenticate: Digest realm=\"{Realm=a \\\"b\\\\ c}\",nonce=\"{Nonce:quoted}\""},
	{"header.Warning", "Warning: {0.Code:wcode} {0.Agent:host} \"{0.Text=a \\\"b\\\", c}\""},
	{"header.Reason", "Reason: SIP;text=\"{0.Text=a \\\"b\\\"; c}\";x={0.Parameter(x):tok}"},
	{"header.CallInfo", "Call-Info: <http://{:host}/>;purpose=\"{0.Purpose=a\\\"b}\""},
	{"address.AddressImpl", "\"{DisplayName=a <b, \\\" c}\" <sip:{URI.User:user}@{URI.Host:host}>"},
	{"header.Authorization", "Authorization: Digest uri=\"{URI.String=sips:host.example}\",nc={NonceCount=0000000a>10},qop={Qop:tok},algorithm={Algorithm:tok}"},
	{"header.ProxyAuthorization", "Proxy-Authorization: Digest opaque=\"{Opaque:quoted}\",y={Parameter(y):tok}"},
	{"header.From", "From: <tel:+{Address.URI.PhoneNumber:phone}>;tag={Tag:tok}"},
	{"header.To", "To: <sips:{Address.URI.User:user}:{Address.URI.UserPassword:pass}@{Address.URI.Host:host}:{Address.URI.Port:port};transport={Address.URI.TransportParam:alnum}?subject={Address.URI.Header(subject):hval}>;tag={Tag:tok}{?Address.URI.IsSecure=true}"},
	{"header.Contact", "Contact: \"{Address.DisplayName:quot1}\" <sip:{Address.URI.Host:host};lr>;x;y={Parameter(y):tok}"},
	{"header.Route", "Route: \"{Address.DisplayName:quot1}\" <sip:{Address.URI.Host:host};lr>"},
	{"header.RecordRoute", "Record-Route: <sips:{Address.URI.Host:host}:{Address.URI.Port:port};maddr={Address.URI.MAddrParam:host}>"},
	{"header.Accept", "Accept: */*{?ContentType=*}{?ContentSubType=*}"},
	{"header.Accept", "Accept: {ContentType:tok}/*{?ContentSubType=*}"},
	{"header.AcceptLanguage", "Accept-Language: *{?LanguageRange=*}"},
	{"header.AcceptEncoding", "Accept-Encoding: *{?Encoding=*}"},
	{"header.Via", "Via: SIP/2.0/TLS {Host:host};rport={Parameter(rport):pnum};branch={Branch:tok};x=\"{Parameter(x):quoted}\""},
	{"header.Via", "Via: SIP/2.0/UDP {0.Host:host}:{0.Port:port};branch={0.Branch:tok},SIP/2.0/TCP {1.Host:host}:{1.Port:port};branch={1.Branch:tok} , SIP/2.0/UDP {2.Host:host}"},
	{"header.Event", "Event: {EventType:tok};x={Parameter(x):tok};id={EventId:tok};y=\"{Parameter(y):quoted}\""},
	{"header.SubscriptionState", "Subscription-State: {State:tok};reason={ReasonCode:tok};expires={Expires:num1};retry-after={RetryAfter:num1};x={Parameter(x):tok}"},
	{"header.Supported", "Supported: {0.OptionTag:tok},{1.OptionTag:tok},\t{2.OptionTag:tok}"},
	{"header.Supported", "Supported: "},
	{"header.Allow", "Allow: "},
	{"header.Accept", "Accept: "},
	{"header.AcceptEncoding", "Accept-Encoding: "},
	{"header.AcceptLanguage", "Accept-Language: "},
	{"header.Subject", "Subject: "},
	{"header.Organization", "Organization: "},
	{"header.Extension", "X-Thing: "},
	{"header.Server", "Server: {:tok}/{:tok}"},
	{"header.RequestLine", "{Method:tok} tel:+{Uri.PhoneNumber:phone} SIP/2.0"},
	{"header.RequestLine", "{Method:tok} sips:{Uri.User:user}@{Uri.Host:host}:{Uri.Port:port};x={Uri.Parameter(x):uparam}?subject={Uri.Header(subject):hval} SIP/2.0{?Uri.IsSecure=true}"},
	{"header.RequestLine", "{Method:tok} http://{:host}/ SIP/2.0"},
	{"header.StatusLine", "SIP/2.0 {StatusCode:code} "},
	{"address.SipURIImpl", "sips:{User:user}@{Host:host}{?IsSecure=true}{?Scheme=sips}"},
	{"address.SipURIImpl", "SIP:{Host:host}"},
	{"address.AddressImpl", "\"{DisplayName:quot1}\"<sip:{URI.Host:host}>"},
	{"address.AddressImpl", "{DisplayName=Bob von Neumann} <sip:{URI.Host:host}>"},
	{"header.To", "To: {Address.DisplayName=Bob von Neumann} <sip:{Address.URI.Host:host}>"},
	{"core.HostPort", "\\[{Host.HostName:v6>bracket}\\][:{Port:port|-1}]"},
}

// readPiece is a part of a form.
type readPiece struct {
	Lit   string
	Path  string
	Class string
	Const bool
	Text  string // with Const
	Want  string // what the path leads to: a change, or with Const a literal
	None  string // what it leads to when the part is absent
	Mute  bool   // {?...}: nothing is written
	Opt   []*readPiece
	Index int
}

func parseReadForm(s string) (out []*readPiece, opts int) {
	var seq func(i int) ([]*readPiece, int)
	seq = func(i int) ([]*readPiece, int) {
		var ps []*readPiece
		lit := ""
		flush := func() {
			if lit != "" {
				ps = append(ps, &readPiece{Lit: lit})
				lit = ""
			}
		}
		for i < len(s) {
			switch {
			case s[i] == '\\' && i+1 < len(s):
				lit += s[i+1 : i+2]
				i += 2
			case s[i] == '[':
				flush()
				n := opts
				opts++
				sub, j := seq(i + 1)
				ps = append(ps, &readPiece{Opt: sub, Index: n})
				i = j
			case s[i] == ']':
				flush()
				return ps, i + 1
			case s[i] == '{':
				flush()
				j := i + strings.IndexByte(s[i:], '}')
				a := s[i+1 : j]
				x := &readPiece{}
				if strings.HasPrefix(a, "?") {
					x.Mute = true
					a = a[1:]
				}
				if b, c, ok := strings.Cut(a, "|"); ok {
					a, x.None = b, c
				}
				k := strings.IndexAny(a, ":=")
				if p := strings.IndexByte(a, ')'); p > k { // ":" or "=" inside an argument
					k = p + strings.IndexAny(a[p:], ":=")
				}
				x.Path, x.Const = a[:k], a[k] == '='
				rest, want, changed := strings.Cut(a[k+1:], ">")
				if x.Const {
					x.Text = rest
					if !changed {
						want = rest
					}
				} else {
					x.Class = rest
				}
				x.Want = want
				ps = append(ps, x)
				i = j + 1
			default:
				lit += s[i : i+1]
				i++
			}
		}
		flush()
		return ps, i
	}
	out, _ = seq(0)
	return out, opts
}

// asPieces gives the pieces the functions on forms of P07 know.
func asPieces(ps []*readPiece) (out []*piece) {
	for _, x := range ps {
		switch {
		case x.Opt != nil:
			out = append(out, &piece{Opt: asPieces(x.Opt), Index: x.Index})
		case x.Lit != "":
			out = append(out, &piece{Lit: x.Lit})
		case x.Const && x.Mute:
		case x.Const:
			out = append(out, &piece{Lit: x.Text})
		default:
			out = append(out, &piece{Attr: x.Path, Mod: x.Class})
		}
	}
	return
}

// reading follows one text through a parser.
type reading struct {
	*script
	in    *Val
	seen  []seenPiece
	named string // the type that is read
	again bool   // what was read is written and read again
}

type seenPiece struct {
	x      *readPiece
	slot   string // "" when the part is absent
	absent bool
}

func (w *reading) write(ps []*readPiece, on map[int]bool, present bool) {
	m, st := w.m, w.ss[0]
	for _, x := range ps {
		switch {
		case x.Opt != nil:
			w.write(x.Opt, on, present && on[x.Index])
		case x.Lit != "":
			if present {
				w.in = m.concat(st, w.in, litVal(x.Lit))
			}
		case !present && x.None == "?": // what then is read is not said
		case !present:
			w.seen = append(w.seen, seenPiece{x: x, absent: true})
		case x.Const:
			if !x.Mute {
				w.in = m.concat(st, w.in, litVal(x.Text))
			}
			w.seen = append(w.seen, seenPiece{x: x})
		default:
			w.n++
			slot := fmt.Sprint("p", w.n)
			var v *Val
			switch x.Class {
			case "num", "num1", "byte", "port", "code", "wcode":
				hi := map[string]int64{"num": 1<<31 - 1, "num1": 1<<31 - 1, "byte": 255, "port": 65535, "code": 699, "wcode": 399}[x.Class]
				lo := map[string]int64{"code": 100, "wcode": 300, "num1": 1}[x.Class]
				v = &Val{K: KNum, N: m.newNum(st, lo, hi)}
				m.hold(st, slot, v)
				v = m.itoa(st, v.N, "dec")
			default:
				c, ok := classes[x.Class]
				if !ok {
					panic("no class " + x.Class)
				}
				v = m.classed(st, c.set, c.min, x.Class)
				m.hold(st, slot, v)
			}
			w.in = m.concat(st, w.in, v)
			if x.Path != "" {
				w.seen = append(w.seen, seenPiece{x: x, slot: slot})
			}
		}
	}
}

// steps of a path.
func pathSteps(s string) (out []string) {
	depth, from := 0, 0
	for i := 0; i <= len(s); i++ {
		switch {
		case i == len(s) || s[i] == '.' && depth == 0:
			out = append(out, s[from:i])
			from = i + 1
		case s[i] == '(':
			depth++
		case s[i] == ')':
			depth--
		}
	}
	return
}

// follow goes along a path, from slot "obj" to slot "at".
func (w *script) follow(path string, list bool) {
	steps := pathSteps(path)
	from := "obj"
	if list {
		i := 0
		if n, err := strconv.Atoi(steps[0]); err == nil {
			i = n
			steps = steps[1:]
		}
		for _, s := range w.ss {
			es, ok := elements(s, w.m.held(s, "obj"))
			if !ok || i >= len(es) {
				w.fail("the list has no element %d", i)
				w.ss = nil
				return
			}
			w.m.hold(s, "elem", es[i])
		}
		w.ty["elem"] = nil
		from = "elem"
	}
	for k, step := range steps {
		name, arg, hasArg := strings.Cut(strings.TrimSuffix(step, ")"), "(")
		var args []interface{}
		if hasArg {
			args = append(args, lit(arg))
		}
		out := fmt.Sprint("at", k)
		if k == len(steps)-1 {
			out = "at"
		}
		full := name
		for _, s := range w.ss {
			for _, pre := range []string{"Get", "Is", "Has", ""} {
				if f, _ := w.target(s, from, pre+name); f != nil {
					full = pre + name
					break
				}
			}
		}
		for _, s := range w.ss {
			if v := w.m.held(s, from); v == nil || v.definitelyNil() {
				w.fail("%s: %s is nil", path, strings.Join(steps[:k], "."))
				w.ss = nil
				return
			}
		}
		w.call(out, from, full, args...)
		from = out
	}
}

func readEntry(p *Program, f readForm, on map[int]bool, out *[]rangeRes, again bool) Entry {
	ps, _ := parseReadForm(f.Form)
	name := f.Type + " from " + chosen(asPieces(ps), on)
	return Entry{Name: name, Opt: precise, Run: func(m *Machine, st *State) {
		m.scan = true
		m.apart = 0 // states that agree in what is kept of them are taken together
		m.peel = 80 // literal texts are read character by character
		w := &reading{script: p.script(m, st), in: litVal(""), again: again, named: f.Type}
		w.write(ps, on, true)
		m.hold(w.ss[0], "in", w.in)
		w.ty["in"] = types.Typ[types.String]
		why := w.run(f)
		*out = append(*out, rangeRes{"read", name, why})
	}}
}

// how the text of a type is parsed.
func readerOf(typ string) string {
	switch typ {
	case "header.RequestLine":
		return "ParseSIPRequestLine"
	case "header.StatusLine":
		return "ParseSIPStatusLine"
	case "core.HostPort":
		return "ParseHostPort"
	case "core.Host":
		return "ParseHost"
	case "address.SipURIImpl":
		return "ParseSIPUrl"
	case "address.AddressImpl":
		return "ParseAddress"
	case "address.TelephoneNumber":
		return "ParSetelephoneNumber"
	}
	return "ParseSIPHeader"
}

func (w *reading) run(f readForm) string {
	m := w.m
	ctor := w.p.pkg("sip/parser").Func("NewStringMsgParser")
	if ctor == nil {
		return "there is no NewStringMsgParser"
	}
	rs := m.do(w.ss[0], ctor)
	if len(rs) != 1 {
		return "NewStringMsgParser does not return once"
	}
	w.ss = []*State{rs[0].st}
	m.hold(w.ss[0], "parser", rs[0].ret)
	w.ty["parser"] = ctor.Signature.Results().At(0).Type()
	n := 0
	for _, x := range w.seen {
		if k, err := strconv.Atoi(pathSteps(x.x.Path)[0]); err == nil && k >= n && !x.absent {
			n = k + 1
		}
	}
	if n == 0 {
		n = 1
	}
	lists, singles := w.parse(f, "obj", n)
	for i, ss := range [][]*State{lists, singles} {
		if len(ss) > 0 {
			w.readBack(ss, w.seen, i == 0)
			if w.again && w.why == "" {
				w.writeAndRead(f, ss, n, i == 0)
			}
		}
	}
	return w.why
}

// parse gives the text in slot "in" to its parser; the result goes to a slot.
func (w *reading) parse(f readForm, slot string, n int) (lists, singles []*State) {
	m := w.m
	want := w.p.named(f.Type)
	if want == nil {
		w.fail("there is no type %s", f.Type)
		return
	}
	w.call(slot, "parser", readerOf(f.Type), "in")
	for _, s := range w.ss {
		if m.held(s, "failed").B != 0 {
			w.fail("it may be refused%s", w.refused)
			continue
		}
		v := m.held(s, slot)
		t := w.ty[slot]
		if v.K == KIface {
			if len(v.Alts) != 1 || v.Unk || v.Nil {
				w.fail("the result is %v", v)
				continue
			}
			t = v.Alts[0].T
		}
		if v.definitelyNil() {
			w.fail("the result is nil")
			continue
		}
		nt := namedOf(t)
		if nt == want {
			singles = append(singles, s)
			continue
		}
		if nt != nil && typeName(nt) == f.Type+"List" {
			es, ok := elements(s, v)
			if !ok {
				w.fail("the elements of the list are not known: %v", pointee(v))
				continue
			}
			// an empty body may be no element
			if len(es) != n && !(len(es) == 0 && strings.HasSuffix(strings.TrimRight(f.Form, " \t"), ":")) {
				w.fail("the list has %d elements instead of %d", len(es), n)
				continue
			}
			for _, e := range es {
				if e.K != KIface || len(e.Alts) != 1 || namedOf(e.Alts[0].T) != want {
					w.fail("an element of the list is %v", e)
				}
			}
			lists = append(lists, s)
			continue
		}
		w.fail("the result is a %v", t)
	}
	return
}

// readBack follows the paths from slot "obj".
func (w *reading) readBack(ss []*State, seen []seenPiece, list bool) {
	for _, x := range seen {
		if w.why != "" {
			return
		}
		d := w.script.fork()
		d.ss = nil
		for _, s := range ss {
			d.ss = append(d.ss, s.clone())
		}
		d.follow(x.x.Path, list)
		if d.why == "" {
			d.each(func(s *State) string { return w.compare(s, x) })
		}
		w.fail2(d)
	}
}

// writeAndRead writes what was read, and reads it again.
func (w *reading) writeAndRead(f readForm, ss []*State, n int, list bool) {
	m := w.m
	step := func(from string, n int, seen []seenPiece, what string) {
		d := &reading{script: w.script.fork(), seen: seen, again: true, named: f.Type}
		d.ss = nil
		for _, s := range ss {
			d.ss = append(d.ss, s.clone())
		}
		d.call("text", from, "String")
		if d.why != "" {
			w.fail2(d.script)
			return
		}
		text := ""
		for _, s := range d.ss {
			v := m.held(s, "text")
			if v.K != KStr {
				w.fail("%s is written as %v", what, v)
				return
			}
			t := m.textOfAtoms(s, withoutEnd(v.At))
			if t == nil {
				w.fail("%s is written as %v", what, v)
				return
			}
			text = atomsString(t.At)
			m.hold(s, "in", t)
		}
		if os.Getenv("VERIF_AGAIN") != "" {
			fmt.Println(f.Form, "->", text)
		}
		lists, singles := d.parse(f, "obj", n)
		for i, ss := range [][]*State{lists, singles} {
			if len(ss) > 0 && d.why == "" {
				d.readBack(ss, d.seen, i == 0)
				d.ss = ss
				d.call("text2", "obj", "String")
				d.each(func(s *State) string {
					a, b := settle(m.held(s, "text").At), settle(m.held(s, "text2").At)
					if atomsString(a) != atomsString(b) && !sameText(s, b, a) {
						return "it is written as " + atomsString(b)
					}
					return ""
				})
			}
		}
		if d.why != "" {
			w.fail("%s is written as %s, and then %s", what, text, d.why)
		}
	}
	lt := w.p.named(f.Type + "List")
	if !list || lt == nil || !w.p.linewise(lt) {
		step("obj", n, w.seen, "what was read")
		return
	}
	for i := 0; i < n; i++ {
		for _, s := range ss {
			es, _ := elements(s, m.held(s, "obj"))
			m.hold(s, "one", es[i])
		}
		w.ty["one"] = nil
		var mine []seenPiece
		for _, x := range w.seen {
			steps := pathSteps(x.x.Path)
			k, err := strconv.Atoi(steps[0])
			switch {
			case err != nil && i == 0:
				mine = append(mine, x)
			case err == nil && k == i:
				c := *x.x
				c.Path = "0" + strings.TrimPrefix(x.x.Path, steps[0])
				x.x = &c
				mine = append(mine, x)
			}
		}
		step("one", 1, mine, fmt.Sprintf("element %d of what was read", i))
	}
}

func namedOf(t types.Type) *types.Named {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (w *reading) compare(s *State, x seenPiece) string {
	m := w.m
	v := m.held(s, "at")
	if p := pointee(v); p != nil && (p.K == KStr || p.K == KNum) {
		v = p
	}
	bad := func(want interface{}) string { return fmt.Sprintf("%s is %v instead of %v", x.x.Path, v, want) }
	if x.absent || x.x.Const {
		want := x.x.Want
		if x.absent {
			want = x.x.None
		}
		ok := false
		switch {
		case v.K == KStr:
			ok = want == "nil" && v.definitelyNil() || same(s, v, litVal(want))
		case v.K == KNum:
			n, err := strconv.Atoi(want)
			ok = err == nil && same(s, v, &Val{K: KNum, N: cnum(int64(n))})
		case v.K == KBool:
			ok = same(s, v, boolVal(want == "true"))
		case v.K == KFloat:
			q, err := strconv.ParseFloat(want, 32)
			b := s.float(v)
			ok = err == nil && b.lo == float64(float32(q)) && b.hi == b.lo
		case want == "" || want == "nil":
			ok = v.definitelyNil()
		}
		if !ok {
			return bad("\"" + want + "\"")
		}
		return ""
	}
	want := m.held(s, x.slot)
	if want.K == KNum && v.K == KStr {
		want = m.itoa(s, want.N, "dec")
	}
	if want.K == KNum {
		if !same(s, v, want) {
			return bad(want)
		}
		return ""
	}
	at := want.At
	switch x.x.Want {
	case "upper":
		at = caseModel(strings.ToUpper, "upper")(m, s, nil, []*Val{want})[0].ret.At
	case "lower":
		at = caseModel(strings.ToLower, "lower")(m, s, nil, []*Val{want})[0].ret.At
	case "bracket":
		at = append(append([]Atom{{Lit: "["}}, at...), Atom{Lit: "]"})
	case "quoted":
		at = append(append([]Atom{{Lit: "\""}}, at...), Atom{Lit: "\""})
	}
	if v.K != KStr {
		return bad(atomsString(at))
	}
	g, a := settle(v.At), settle(at)
	if w.again && (w.named == "header.CSeq" && x.x.Path == "Method" || w.named == "header.Via" && strings.HasSuffix(x.x.Path, "Transport")) {
		// they are written in capital letters
		if u := settle(caseModel(strings.ToUpper, "upper")(m, s, nil, []*Val{want})[0].ret.At); atomsString(g) == atomsString(u) {
			return ""
		}
	}
	if atomsString(g) != atomsString(a) && !sameText(s, g, a) {
		return fmt.Sprintf("%s is %s instead of %s", x.x.Path, atomsString(g), atomsString(a))
	}
	return ""
}

// spellings of a line: the name of a header may be in any letters, there may
// be blanks around the colon and at the end, and none after the colon.
func spellings(f readForm) []readForm {
	name, value, ok := strings.Cut(f.Form, ": ")
	if os.Getenv("VERIF_PLAIN") != "" || !ok || !strings.HasPrefix(f.Type, "header.") || strings.ContainsAny(name, "{ ") {
		return []readForm{f}
	}
	return []readForm{f,
		{f.Type, strings.ToLower(name) + " \t: \t" + value},
		{f.Type, strings.ToUpper(name) + ":" + value + " "},
	}
}

func init() {
	levels["P05"] = "proof"
	register(&Property{ID: "P05",
		Rule:  "For every form in the table, every choice of its optional parts (all choices up to a few parts, otherwise each one, all but one, all and none) and three spellings of the header name and the blanks around it: the text is given to its parser with arbitrary texts of the class named for each piece; the parser must accept it, and each path of getters must lead to the piece of the text named by the form, or to nothing where the part is absent.",
		Trust: []string{"the table of forms and classes in p_read.go (from the grammar of RFC 3261 and its extensions)"},
		Run:   func(r *Report) { readAll(r, false) }})
	levels["P04"] = "proof"
	register(&Property{ID: "P04",
		Rule:  "For every form in the table of P05 and every choice of its optional parts: the text is parsed, what was parsed is written by String, and that text is parsed again: it must be accepted, each path of getters must lead to the same piece of the first text, and String must give the same text again.",
		Trust: []string{"the table of forms and classes in p_read.go (from the grammar of RFC 3261 and its extensions)"},
		Run:   func(r *Report) { readAll(r, true) }})
}

func readAll(r *Report, again bool) {
	var es []Entry
	var outs []*[]rangeRes
	only := os.Getenv("VERIF_FORM")
	for _, f := range readForms {
		if only != "" && !strings.Contains(f.Type+" "+f.Form, only) {
			continue
		}
		if again && f.Type == "header.UserAgent" {
			continue // what it is written as is not known: the products are joined in a loop
		}
		fs := spellings(f)
		if again {
			fs = fs[:1]
		}
		for _, f := range fs {
			ps, k := parseReadForm(f.Form)
			for _, on := range choices(asPieces(ps), k) {
				o := &[]rangeRes{}
				outs = append(outs, o)
				es = append(es, readEntry(r.p, f, on, o, again))
			}
		}
	}
	rs := runEntries(r.p, es)
	r.engine(rs)
	n := 0
	for i, o := range outs {
		for _, x := range *o {
			n++
			r.expect(x.Why == "", x.Rule, x.Name, es[i].Name, x.Why)
		}
	}
	if again {
		r.atLeast("texts read", n, 190)
	} else {
		r.atLeast("texts read", n, 480)
	}
}
